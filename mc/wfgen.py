"""Bounded workflow programs, their specs, and a reference interpreter.

A step is a dict:
  label, kind (rf vf make switch sub each-rf each-vf each-switch each-sub),
  deps {label: site}, what (outcome, or list of outcomes for each-*),
  skip (None true false nonbool error), badinputs (bool), bad_each, which (case)
"""
from . import defs
from .cluster import Cluster
from .report import CodeProblem
from koreo import result as R

SEVERITY = {"DepSkip": 0, "Skip": 1, "Ok": 2, "Retry": 3, "PermFail": 4}
CLASS = {"ok": "Ok", "skip": "Skip", "depSkip": "DepSkip", "retry": "Retry",
         "permFail": "PermFail", "evalerr": "PermFail"}
REASON = {"Ok": "Ready", "Skip": "Skip", "DepSkip": "DepSkip", "Retry": "Wait",
          "PermFail": "Failure"}


def conditions(expr):
    return [
        {"assert": f"={expr} != 'skip'", "skip": {"message": "M"}},
        {"assert": f"={expr} != 'depSkip'", "depSkip": {"message": "M"}},
        {"assert": f"={expr} != 'retry'", "retry": {"delay": 7, "message": "M"}},
        {"assert": f"={expr} != 'permFail'", "permFail": {"message": "M"}},
    ]


def rf(id_expr, what, **extra):
    """readonly: exactly one GET of the object named by id_expr."""
    spec = {
        "apiConfig": defs.api_config(name=f"={id_expr}", readonly=True),
        "resource": {},
        "postconditions": conditions(what),
        "return": {"id": f"={id_expr}", "got": "=inputs", "live": "=resource.spec.x",
                   "boom": f"={what} == 'evalerr' ? 1 / 0 : 0"},
    }
    spec.update(extra)
    return spec


def make(id_expr, what, **extra):
    """managed: GET, then POST/PATCH/DELETE as required."""
    spec = {
        "apiConfig": defs.api_config(name=f"={id_expr}"),
        "resource": {"spec": {"x": f"={id_expr}", "list": [1, 2]}},
        "create": {"delay": 3},
        "update": {"patch": {"delay": 4}},
        "postconditions": conditions(what),
        "return": {"id": f"={id_expr}", "got": "=inputs", "live": "=resource.spec.x",
                   "boom": f"={what} == 'evalerr' ? 1 / 0 : 0"},
    }
    spec.update(extra)
    return spec


def vf(id_expr, what):
    return {
        "preconditions": conditions(what),
        "return": {"id": f"={id_expr}", "got": "=inputs",
                   "boom": f"={what} == 'evalerr' ? 1 / 0 : 0"},
    }


EACH_ID = "inputs.id + '_' + string(inputs.item.n)"
EACH_WHAT = "inputs.item.w"


def sub(id_expr, what, fn):
    return {"steps": [
        {"label": "st0", "ref": {"kind": "ResourceFunction", "name": fn},
         "inputs": {"id": f"={id_expr} + '_i0'", "what": f"={what}", "all": "=parent"},
         "state": {"id": "=value.id", "got0": "=value.got.all", "over": "='zero'"}},
        {"label": "st1", "ref": {"kind": "ResourceFunction", "name": fn},
         "inputs": {"id": "=steps.st0.id + '_i1'", "what": "ok", "first": "=steps.st0"},
         "state": {"first": "=value.got.first.id", "over": "='one'"}},
    ]}


LIBRARY = [
    ("ResourceFunction", "rf", rf("inputs.id", "inputs.what")),
    ("ResourceFunction", "rf_b", rf("inputs.id + '_b'", "inputs.what")),
    ("ResourceFunction", "each_rf", rf(EACH_ID, EACH_WHAT)),
    ("ResourceFunction", "make", make("inputs.id", "inputs.what")),
    ("ResourceFunction", "each_make", make(EACH_ID, EACH_WHAT)),
    ("ResourceFunction", "re", make("inputs.id", "inputs.what", update={"recreate": {"delay": 5}})),
    ("ResourceFunction", "del", {
        "apiConfig": {**defs.api_config(name="=inputs.id"), "deleteIfExists": True},
        "resource": {}, "return": {"id": "=inputs.id", "got": "=inputs"}}),
    ("ResourceFunction", "nop", make("inputs.id", "inputs.what", apiConfig=defs.lookup_config(name="=inputs.id"))),
    ("ValueFunction", "vf", vf("inputs.id", "inputs.what")),
    ("ValueFunction", "each_vf", vf(EACH_ID, EACH_WHAT)),
    ("Workflow", "sub", sub("parent.id", "parent.what", "rf")),
    ("Workflow", "sub_make", sub("parent.id", "parent.what", "make")),
    ("ValueFunction", "void_vf", {"preconditions": conditions("inputs.what")}),
    ("ResourceFunction", "void_rf", {k: v for k, v in rf("inputs.id", "inputs.what").items() if k != "return"}),
    ("Workflow", "void_sub", {"steps": [
        {"label": "st0", "ref": {"kind": "ValueFunction", "name": "void_vf"},
         "inputs": {"what": "=parent.what"}}]}),
    ("Workflow", "each_sub", sub("parent.id + '_' + string(parent.item.n)", "parent.item.w", "rf")),
]
FN = {"rf": ("ResourceFunction", "rf"), "make": ("ResourceFunction", "make"),
      "re": ("ResourceFunction", "re"), "del": ("ResourceFunction", "del"),
      "nop": ("ResourceFunction", "nop"),
      "void-vf": ("ValueFunction", "void_vf"), "void-rf": ("ResourceFunction", "void_rf"),
      "void-sub": ("Workflow", "void_sub"),
      "vf": ("ValueFunction", "vf"), "sub": ("Workflow", "sub"),
      "sub-make": ("Workflow", "sub_make"),
      "each-rf": ("ResourceFunction", "each_rf"), "each-make": ("ResourceFunction", "each_make"),
      "each-vf": ("ValueFunction", "each_vf"), "each-sub": ("Workflow", "each_sub")}


async def setup():
    defs.fresh()
    for kind, name, spec in LIBRARY:
        got = await defs.offer(kind, name, spec)
        if not R.is_unwrapped_ok(got):
            raise CodeProblem(f"library {kind}:{name} rejected: {got}")


_ready = []


def ensure():
    from . import loop

    if not _ready:
        loop.run(setup)
        _ready.append(True)


SITE = {
    "dot": "=steps.{d}",
    "bracket": "=steps['{d}']",
    "nested": "=[1].map(x, {{'v': steps.{d}}})[0].v",
    "call": "=[steps.{d}][size('') - 0]",
}


def items_of(step):
    return [{"w": w, "n": i} for i, w in enumerate(step["what"])]


def step_spec(step):
    label, kind = step["label"], step["kind"]
    what = step["what"]
    inputs = {"id": label, "what": what if isinstance(what, str) else "ok", "got": {},
              "trig": "=parent.t"}
    skips, items, switch = [], [], []
    for d, site in step.get("deps", {}).items():
        if site in SITE:
            inputs["got"][d] = SITE[site].format(d=d)
        elif site == "skipIf":
            skips.append(f"size(steps.{d}) < 0")
        elif site == "itemIn":
            items.append(f"size(steps.{d}) < 0")
        elif site == "switchOn":
            switch.append(f"size(steps.{d}) < 0")
    if step.get("badinputs"):
        inputs["bad"] = "=1 / 0"
    out = {"label": label, "inputs": inputs,
           "condition": {"type": f"C{label}", "name": label},
           "state": {label: "=value", "last": label}}
    if kind == "switch" or kind == "each-switch":
        each = kind == "each-switch"
        base = ["'a'", "'b'", "'c'", "'none'"][{"a": 0, "b": 1, "c": 2, "none": 3}[step.get("which", "a")]]
        on = base
        for s in switch:
            on = f"{s} ? 'b' : {on}"
        cases = (
            [{"case": "a", "kind": "ResourceFunction", "name": "each_rf"},
             {"case": "b", "kind": "ValueFunction", "name": "each_vf"}] if each else
            [{"case": "a", "kind": "ResourceFunction", "name": "rf"},
             {"case": "b", "kind": "ResourceFunction", "name": "rf_b"},
             {"case": "c", "kind": "ValueFunction", "name": "vf",
              **({"default": True} if step.get("default") else {})}])
        out["refSwitch"] = {"switchOn": "=" + on, "cases": cases}
    else:
        k, n = FN[kind]
        out["ref"] = {"kind": k, "name": n}
    if kind.startswith("each"):
        lit = "[" + ", ".join(f"{{'w': '{i['w']}', 'n': {i['n']}}}" for i in items_of(step)) + "]"
        for s in items:
            lit = f"{s} ? [] : {lit}"
        if step.get("bad_each"):
            lit = {"error": "[1 / 0]", "nonlist": "{'a': 1}"}[step["bad_each"]]
        out["forEach"] = {"itemIn": "=" + lit, "inputKey": "item"}
    base = {None: None, "true": "true", "false": "false", "nonbool": "1",
            "error": "1 / 0 == 1"}[step.get("skip")]
    if skips:
        base = " || ".join(skips) + (f" || {base}" if base else "")
    if base:
        out["skipIf"] = "=" + base
    return out


def spec_of(steps):
    return {"steps": [step_spec(s) for s in steps]}


def reference(steps, trigger):
    """-> {label: (class, value)}, calls {name: set of labels}, order constraints."""
    done, calls = {}, {}
    for step in steps:
        label = step["label"]
        calls[label] = []
        deps = step.get("deps", {})
        if any(done[d][0] != "Ok" for d in deps):
            done[label] = ("DepSkip", None)
            continue
        skip = step.get("skip")
        if skip == "true":
            done[label] = ("Skip", None)
            continue
        if skip in ("nonbool", "error"):
            done[label] = ("PermFail", None)
            continue
        if step.get("badinputs"):
            done[label] = ("PermFail", None)
            continue
        inputs = {"id": label, "what": step["what"] if isinstance(step["what"], str) else "ok",
                  "got": {d: done[d][1] for d, s in deps.items() if s in SITE},
                  "trig": trigger["t"]}
        kind = step["kind"]
        if kind.startswith("each"):
            if step.get("bad_each"):
                done[label] = ("PermFail", None)
                continue
            outs = []
            for item in items_of(step):
                got = {**inputs, "item": item}
                outs.append(invoke(kind[5:], step, f"{label}_{item['n']}", item["w"], got, calls[label]))
            errors = [o for o in outs if o[0] in ("Retry", "PermFail")]
            if errors:
                done[label] = (max((o[0] for o in errors), key=SEVERITY.get), None)
            else:
                done[label] = ("Ok", [o[1] if o[0] == "Ok" else ANY for o in outs])
        else:
            done[label] = invoke(kind, step, label, step["what"], inputs, calls[label])
    return done, calls


class _Any:
    def __eq__(self, other):
        return True

    def __repr__(self):
        return "ANY"

    def __hash__(self):
        return 0


ANY = _Any()


def invoke(kind, step, ident, what, inputs, calls):
    if kind == "switch":
        which = step.get("which", "a")
        if which == "none":
            which = "c" if step.get("default") and not step["kind"].startswith("each") else None
        if which is None or (which == "c" and step["kind"].startswith("each")):
            return ("PermFail", None)
        if which == "b" and not step["kind"].startswith("each"):
            kind, ident = "rf", ident + "_b"
        else:
            kind = {"a": "rf", "b": "vf", "c": "vf"}[which]
    cls = CLASS[what]
    if kind in ("rf", "make", "re", "nop", "del"):
        calls.append(ident)
        if cls != "Ok":
            return (cls, None)
        return ("Ok", {"id": ident, "got": inputs, "live": ident, "boom": 0})
    if kind == "vf":
        if cls != "Ok":
            return (cls, None)
        return ("Ok", {"id": ident, "got": inputs, "boom": 0})
    if kind in ("void-vf", "void-rf", "void-sub"):
        if kind == "void-rf":
            calls.append(ident)
        if what == "evalerr":
            cls = "Ok"  # nothing that could fail is evaluated
        if cls != "Ok":
            return (cls, None)
        return ("Ok", {} if kind == "void-sub" else None)
    if kind in ("sub", "sub-make"):
        calls.append(f"{ident}_i0")
        if cls != "Ok":
            return (cls, None)
        calls.append(f"{ident}_i0_i1")
        return ("Ok", {"id": f"{ident}_i0", "got0": inputs, "first": f"{ident}_i0", "over": "one"})
    raise AssertionError(kind)


def overall(done):
    return max((c for c, _ in done.values()), key=SEVERITY.get)


def populate(cluster, calls):
    """Every object the workflow reads exists, with spec.x naming itself."""
    for names in calls.values():
        for n in names:
            for m in (n, n.removesuffix("_b"), n + "_b"):
                for kind, plural in ((defs.NS_KIND, defs.NS_PLURAL), (defs.LK_KIND, defs.LK_PLURAL)):
                    cluster.put(plural, {
                        "apiVersion": defs.VERSION, "kind": kind,
                        "metadata": {"name": m, "namespace": "ns1", "uid": f"u-{m}"},
                        "spec": {"x": m}}, namespace="ns1")


def describe(res, steps):
    """Plain, comparable description of a workflow Result."""
    out = res.result.data if isinstance(res.result, R.Ok) else res.result
    return {
        "outcome": defs.outcome(out),
        "conditions": [dict(c) for c in res.conditions],
        "state": defs.uncel(res.state),
        "state_errors": dict(res.state_errors),
        "resource_ids": defs.uncel(res.resource_ids),
    }


def reasons(desc):
    out = {}
    for c in desc["conditions"]:
        out.setdefault(c["type"], []).append(c["reason"])
    return out
