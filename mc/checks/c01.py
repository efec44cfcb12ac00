"""C01 Steps run only on Ok dependencies and see exactly their values."""
import itertools

from .. import defs, loop, wfgen
from ..cluster import Cluster
from ..report import THOROUGH
from koreo import result as R

LEVEL = "model_checking"
RULE = (
    "every bounded workflow: all dependency DAGs over N steps x outcome class of each "
    "step's Logic x Logic kind (ValueFunction, ResourceFunction, refSwitch, forEach, "
    "sub-workflow) x reference site (inputs dotted/bracketed/nested/in a call, skipIf, "
    "switchOn, forEach.itemIn) x skipIf (absent/true/false/non-boolean/failing) x "
    "failing inputs; long chains and fans up to 20 steps. Each is prepared and "
    "reconciled by the real code against a logging in-memory API, completing parked "
    "API calls first-come-first-served and last-come-first-served, and compared with "
    "a reference interpreter: per-step outcome class, per-step value (published as "
    "state), the set of objects addressed per step, and call ordering along "
    "dependencies. A state is a distinct (per-step outcome classes, kinds, DAG); a "
    "transition is one step reconciled."
)
ASSUMPTIONS = [
    "a ResourceFunction's Logic is observed through the API call naming its object",
    "per-step outcome classes are observed through the step's condition reason",
    "a step whose skipIf is true is reported as Skip or as DepSkip",
]

OUT = ["ok", "skip", "depSkip", "retry", "permFail", "evalerr"]
KINDS = ["rf", "vf", "switch", "sub", "each-rf"]
SITES = ["dot", "bracket", "nested", "call", "skipIf", "itemIn", "switchOn"]


def bounds():
    return {
        "dag_steps_all_shapes": 5 if THOROUGH else 4,
        "outcomes": len(OUT),
        "forEach_items": 4 if THOROUGH else 3,
        "chain_length": 20,
    }


def labels(n):
    return [f"st{i}" for i in range(n)]


def cases():
    # every single-step program
    for kind in KINDS + ["each-vf", "each-switch", "each-sub"]:
        each = kind.startswith("each")
        whats = (itertools.chain.from_iterable(
            itertools.product(OUT, repeat=k) for k in range(0, bounds()["forEach_items"] + 1))
            if each else OUT)
        for what in whats:
            for skip in (None, "true", "false", "nonbool", "error") if not each or len(what) < 2 else (None,):
                for bad in (False, True) if not each or len(what) < 2 else (False,):
                    for which, default in ([("a", False), ("b", False), ("c", False), ("none", False),
                                            ("none", True)] if "switch" in kind else [("a", False)]):
                        for be in (None, "error", "nonlist") if each and len(what) < 2 else (None,):
                            yield [{"label": "st0", "kind": kind, "what": what, "skip": skip,
                                    "badinputs": bad, "which": which, "default": default,
                                    "bad_each": be}]
    yield from switches()
    # long lists
    for n in (10, 25, 101):
        for kind in ("each-vf", "each-rf", "each-sub"):
            for at in (None, 0, n - 1):
                yield [{"label": "st0", "kind": kind,
                        "what": ["retry" if i == at else "ok" for i in range(n)]}]
    # pairs: every kind pair x outcome pair x reference site
    for k0, k1 in itertools.product(KINDS, repeat=2):
        for w0, w1 in itertools.product(OUT, repeat=2):
            for site in SITES:
                if (site == "itemIn") != k1.startswith("each") and site == "itemIn":
                    continue
                if site == "switchOn" and k1 != "switch":
                    continue
                for skip in (None, "true", "false") if w1 == "ok" else (None,):
                    for bad in (False, True) if w1 == "ok" and site == "dot" else (False,):
                        yield [
                            {"label": "st0", "kind": k0, "what": [w0, "ok"] if k0.startswith("each") else w0},
                            {"label": "st1", "kind": k1, "what": ["ok", w1] if k1.startswith("each") else w1,
                             "deps": {"st0": site}, "skip": skip, "badinputs": bad}]
    # dependencies whose value is null, an empty map or an empty list
    for k0 in ("void-vf", "void-rf", "void-sub", "each-rf", "each-vf"):
        for k1 in KINDS + ["void-vf", "void-rf", "void-sub"]:
            for w0 in OUT if k0[0] == "v" else ((),):
                for site in ["dot", "bracket", "nested", "call"] + (["skipIf"] if k0 in ("void-sub", "each-rf", "each-vf") else []):
                    first = {"label": "st0", "kind": k0, "what": w0}
                    second = {"label": "st1", "kind": k1, "what": ["ok"] if k1.startswith("each") else "ok",
                              "deps": {"st0": site}}
                    yield [first, second]
                    yield [first, second, {"label": "st2", "kind": "vf", "what": "ok",
                                           "deps": {"st0": "dot", "st1": "bracket"}}]
    # two dependencies through different sites
    for s0, s1 in itertools.permutations(["dot", "bracket", "skipIf", "switchOn"], 2):
        for w0, w1 in itertools.product(OUT, repeat=2):
            yield [{"label": "st0", "kind": "rf", "what": w0}, {"label": "st1", "kind": "vf", "what": w1},
                   {"label": "st2", "kind": "switch", "what": "ok", "deps": {"st0": s0, "st1": s1}}]
    # all DAG shapes x outcomes
    for n in (3, 4):
        outs = OUT if n == 3 else ["ok", "skip", "permFail"]
        kind_sets = ([("rf",) * 3, ("vf", "rf", "sub"), ("sub", "vf", "rf"), ("rf", "sub", "vf")]
                     if n == 3 else [("rf",) * 4])
        for edges in itertools.product((0, 1), repeat=n * (n - 1) // 2):
            for whats in itertools.product(outs, repeat=n - 1):
                for kinds in kind_sets:
                    yield dag(n, edges, list(whats) + ["ok"], kinds)
    if THOROUGH:
        n = 5
        for edges in itertools.product((0, 1), repeat=10):
            for whats in itertools.product(["ok", "skip", "retry"], repeat=n - 1):
                yield dag(n, edges, list(whats) + ["ok"], ("rf", "vf", "rf", "vf", "rf"))
        for edges in itertools.product((0, 1), repeat=6):
            for whats in itertools.product(OUT, repeat=3):
                yield dag(4, edges, list(whats) + ["ok"], ("vf", "rf", "sub", "switch"))
    # long programs
    for n in (6, 10, 20):
        for at in range(n):
            for w in ("ok", "skip", "evalerr"):
                chain = [{"label": f"st{i}", "kind": "rf" if i % 2 else "vf",
                          "what": w if i == at else "ok",
                          "deps": {f"st{i-1}": "skipIf"} if i else {}} for i in range(n)]
                yield chain
                fan = [{"label": f"st{i}", "kind": "rf", "what": w if i == at else "ok"}
                       for i in range(n - 1)]
                fan.append({"label": f"st{n-1}", "kind": "rf", "what": "ok",
                            "deps": {f"st{i}": "bracket" for i in range(n - 1)}})
                yield fan
    # labels that are prefixes of each other, or CEL-ish
    for names in (("abc", "abcd", "abc_d"), ("st1", "st10", "st100"), ("size", "map", "steps"),
                  ("has", "all", "parent"), ("Abc", "abc", "ABC")):
        for a, b, c in itertools.permutations(names):
            for w0, w1 in itertools.product(("ok", "permFail"), repeat=2):
                for site in ("dot", "bracket"):
                    yield [{"label": a, "kind": "rf", "what": w0}, {"label": b, "kind": "rf", "what": w1},
                           {"label": c, "kind": "rf", "what": "ok", "deps": {a: site}}]


# what a switch selects on: expression -> where the value comes from
SWITCH_SITES = {
    "literal": None,
    "input": "=inputs.k", "input-bracket": "=inputs['k']", "input-nested": "=inputs.deep.list[0].k",
    "dep": "=steps.st0.k", "dep-bracket": "=steps['st0']['k']", "parent": "=parent.k",
    "concat": "=inputs.head + inputs.tail", "ternary": "=has(inputs.k) ? inputs.k : 'a'",
    "macro": "=[inputs.k].map(inputs, inputs)[0]", "filter": "=['zz', parent.k].filter(s, s != 'zz')[0]",
    "input-named-steps": "=inputs.steps.k", "input-named-inputs": "=inputs.inputs.k",
    "item": "=inputs.item.k", "item-bracket": "=inputs['item'].k", "item-whole": "=inputs.it",
    "item-dep": "=[steps.st0.k, inputs.item.k][1]",
}
CASE_SETS = [["a", "b"], ["a", "a "], [" a", "a"], ["a", "A"], ["1", "01"], ["true", "True"],
             ["a.b", "a"], ["a", "b", "c"], ["default", "b"], ["null", "a"], ["0", "1"]]
STRAY = ["a\n", "", "q", "A", " a ", "1.0", "None", "name", "st0", "sw0"]


def switches():
    """refSwitch selection: expression shapes x case sets x default x value."""
    for names in CASE_SETS:
        values = names + [v for v in STRAY if v not in names]
        for default in [None, *range(len(names))]:
            for site in SWITCH_SITES:
                if site.startswith("item"):
                    for n in (1, 2, 3) if len(names) == 2 and names == ["a", "b"] else (2,):
                        for ks in itertools.product((*names, "q"), repeat=n):
                            yield {"switch": site, "cases": names, "default": default, "values": list(ks)}
                else:
                    for v in values:
                        yield {"switch": site, "cases": names, "default": default, "values": [v]}


def switch_spec(case):
    site, names, each = case["switch"], case["cases"], case["switch"].startswith("item")
    v = None if each else case["values"][0]
    inputs = {"id": "x", "deep": {"list": [{"k": v}]}, "steps": {"k": v}, "inputs": {"k": v}, "k": v,
              "head": v[:1], "tail": v[1:]} if not each else {"id": "x", "k": "never"}
    on = SWITCH_SITES[site] or "='" + v.replace("\n", "\\n") + "'"
    if site == "literal" and v and "\n" not in v:
        on = on if case["default"] is None else v
    step = {"label": "sel", "inputs": {k: quote(x) for k, x in inputs.items()},
            "condition": {"type": "Csel", "name": "sel"}, "state": {"sel": "=value"},
            "refSwitch": {"switchOn": on, "cases": [
                {"case": n, "kind": "ResourceFunction", "name": f"sw{i}",
                 **({"default": True} if case["default"] == i else {})} for i, n in enumerate(names)]}}
    if each:
        key = "it" if site == "item-whole" else "item"
        step["forEach"] = {"inputKey": key, "itemIn": "=parent.ks" if site == "item-whole" else
                           "=parent.ks.map(k, {'k': k})"}
    first = {"label": "st0", "ref": {"kind": "ValueFunction", "name": "echo"},
             "inputs": {"k": "=parent.k"}, "condition": {"type": "Cst0", "name": "st0"}}
    return {"steps": ([first] if "steps.st0" in on or "steps['st0']" in on else []) + [step]}


def quote(v):
    """Literal strings that look like numerals stay strings only as expressions."""
    if isinstance(v, str):
        return "='" + v.replace("\n", "\\n") + "'"
    if isinstance(v, dict):
        return {k: quote(x) for k, x in v.items()}
    if isinstance(v, list):
        return [quote(x) for x in v]
    return v


def check_switch(stats, case):
    names, each = case["cases"], case["switch"].startswith("item")
    if case["switch"] == "literal" and case["default"] is not None:
        v = case["values"][0]
        if not v or v.strip() != v or v[0].isdigit() or v.isdigit():
            return  # a plain literal: numerals become numbers (C11), blanks are YAML's business
    picks = [names.index(v) if v in names else case["default"] for v in case["values"]]
    cluster = Cluster()
    for i in range(len(names)):
        cluster.put(defs.NS_PLURAL, {
            "apiVersion": defs.VERSION, "kind": defs.NS_KIND,
            "metadata": {"name": f"obj{i}", "namespace": "ns1", "uid": f"u{i}"},
            "spec": {"x": f"X{i}"}}, namespace="ns1")
    trigger = {"k": case["values"][0], "ks": case["values"]}

    async def go():
        wf = await defs.prepare("Workflow", "w", switch_spec(case))
        if not R.is_unwrapped_ok(wf) or not R.is_ok(wf[0].steps_ready):
            return f"not prepared: {wf}"
        got = wfgen.describe(await defs.run_wf(cluster, wf[0], trigger), None)
        # every selected case addresses its own object, and no other is addressed
        called = sorted(c.name for c in cluster.log if c.name)
        want = sorted(f"obj{p}" for p in picks if p is not None)
        if called != want:
            return f"addressed {called}, expected {want}"
        reason = wfgen.reasons(got).get("Csel")
        if any(p is None for p in picks):
            if reason != ["Failure"] or "sel" in got["state"]:
                return f"no case matches {case['values']}, but the step is {reason} with {got['state']}"
            return None
        outs = [{"case": p, "live": f"X{p}",
                 "in": (v if case["switch"] == "item-whole" else {"k": v}) if each else None}
                for p, v in zip(picks, case["values"])]
        if reason != ["Ready"] or got["state"].get("sel") != (outs if each else outs[0]):
            return f"{reason} with {got['state']}, expected {outs}"
        return None

    switch_ready()
    stats.trace()
    stats.step()
    if bad := loop.run(go):
        stats.problem(f"refSwitch: {bad}", case, key=f"switch {case['switch']} {bad[:40]}")
    stats.state(["switch", case["switch"], names, case["default"], picks])


_switch = []


def switch_ready():
    if _switch:
        return
    wfgen.ensure()

    async def setup():
        got = await defs.offer("ValueFunction", "echo", {"return": {"k": "=inputs.k"}})
        assert R.is_unwrapped_ok(got), got
        for i in range(3):
            got = await defs.offer("ResourceFunction", f"sw{i}", {
                "apiConfig": defs.api_config(name=f"obj{i}", readonly=True), "resource": {},
                "return": {"case": i, "live": "=resource.spec.x",
                           "in": "=has(inputs.item) ? inputs.item : has(inputs.it) ? inputs.it : null"}})
            assert R.is_unwrapped_ok(got), got
    loop.run(setup)
    _switch.append(True)


def dag(n, edges, whats, kinds):
    it = iter(edges)
    steps = []
    for i in range(n):
        deps = {f"st{j}": "dot" if (i + j) % 2 else "bracket" for j in range(i) if next(it)}
        steps.append({"label": f"st{i}", "kind": kinds[i], "what": whats[i], "deps": deps})
    return steps


def check(stats, case):
    if isinstance(case, dict):
        return check_switch(stats, case)
    steps = case
    wfgen.ensure()
    trigger = {"t": {"u": [1, None, "x"]}}
    done, calls = wfgen.reference(steps, trigger)
    for order in ("first", "last"):
        bad, desc = run(steps, trigger, done, calls, order)
        stats.trace()
        stats.step(len(steps))
        if bad:
            stats.problem(f"{bad} (completion order: {order} in)", case)
            return
        if not any(len(c) for c in calls.values()):
            break
    stats.state([[s["kind"] for s in steps], [sorted(s.get("deps", {}).items()) for s in steps],
                 [done[s["label"]][0] for s in steps]])
    if len(steps) > 2:
        stats.sample({"steps": [{k: s[k] for k in ("label", "kind", "what", "deps") if k in s}
                                for s in steps]})


def run(steps, trigger, done, calls, order):
    cluster = Cluster()
    wfgen.populate(cluster, calls)
    events = []
    parked = []

    async def gate(call):
        import asyncio

        events.append(("start", call.name))
        fut = asyncio.get_running_loop().create_future()
        parked.append((fut, call))
        await fut

    def idle(lp, has_timer):
        if not parked:
            return False
        fut, call = parked.pop(0 if order == "first" else -1)
        events.append(("end", call.name))
        if not fut.done():
            fut.set_result(None)
        return True

    cluster.gate = gate

    async def go():
        wf = await defs.prepare("Workflow", "w", wfgen.spec_of(steps))
        if not R.is_unwrapped_ok(wf):
            return f"not prepared: {wf}", None
        wf = wf[0]
        if not R.is_ok(wf.steps_ready):
            return f"not ready: {wf.steps_ready}", None
        return None, wfgen.describe(await defs.run_wf(cluster, wf, trigger), steps)

    bad, desc = loop.run(go, idle=idle)
    if bad:
        return bad, None
    reasons = wfgen.reasons(desc)
    for s in steps:
        label = s["label"]
        cls, value = done[label]
        got = reasons.get(f"C{label}")
        want = [wfgen.REASON[cls]]
        if got != want and not (s.get("skip") == "true" and cls == "Skip" and got == ["DepSkip"]):
            return f"step {label} reported {got}, expected {want}", desc
        if cls == "Ok":
            if label not in desc["state"]:
                return f"step {label} published no value ({desc['state_errors']})", desc
            if not (value == desc["state"][label]):
                return f"step {label} returned {desc['state'][label]!r}, expected {value!r}", desc
        elif label in desc["state"]:
            return f"step {label} is {cls} but published {desc['state'][label]!r}", desc
        mine = [n for k, n in events if k == "start" and owner(n, steps) == label]
        if sorted(mine) != sorted(calls[label]):
            return f"step {label} addressed {mine}, expected {calls[label]}", desc
        for d in s.get("deps", {}):
            ends = [i for i, (k, n) in enumerate(events) if k == "end" and owner(n, steps) == d]
            starts = [i for i, (k, n) in enumerate(events) if k == "start" and owner(n, steps) == label]
            if ends and starts and min(starts) < max(ends):
                return f"step {label} started before its dependency {d} finished", desc
    top = wfgen.overall(done)
    if desc["outcome"]["class"] != top and not (
        top == "Skip" and desc["outcome"]["class"] == "DepSkip"
    ):
        return f"overall {desc['outcome']['class']}, expected {top}", desc
    return None, desc


def owner(name, steps):
    """The step an object name belongs to: label or label_suffix."""
    best = None
    for s in steps:
        label = s["label"]
        if name == label:
            return label
        suffix = name[len(label):] if name.startswith(label + "_") else None
        if suffix and all(p.isdigit() or p in ("b", "i0", "i1") for p in suffix[1:].split("_")):
            if best is None or len(label) > len(best):
                best = label
    return best
