"""C14 Static reference analysis finds every named dependency."""
import itertools

import celpy
from celpy import celtypes
from koreo import result as R
from koreo.cel.functions import koreo_cel_functions, koreo_function_annotations

from . import c10
from .. import defs, loop
from ..cluster import Cluster
from ..report import THOROUGH, CodeProblem
from ..env import registry

LEVEL = "model_checking"
RULE = (
    "every way to write a step reference (member access, string index in each literal form and escape, parentheses, "
    "whitespace, root-qualified, as receiver, under has()) in every syntactic context (each production and child "
    "position of the CEL grammar, macros, operators, calls, literals), contexts composed to the depth bound, in each "
    "expression-bearing field of a step and at several positions of its structure. Reference: the names written into "
    "the expression. Each must be among the prepared step's dependencies; written as a later, unknown or the step's "
    "own label the Workflow must be not ready and its reconciliation must do nothing. Prepared expressions are "
    "evaluated against an instrumented steps map to confirm the names, and run in a Workflow and compared with "
    "direct evaluation. Watches: every Workflow / ResourceFunction / FunctionTest naming resources in each reference "
    "position, with every combination of targets missing, failed or ready, must report them, and through the cache "
    "be prepared again when any of them appears, changes or disappears. A state is a distinct (field, expression, "
    "relation), a transition one preparation."
)
ASSUMPTIONS = [
    "a computed index or a macro variable called 'steps' names nothing statically",
    "a definition rejected on its own account (no prepared resource) reports no watches, nor does a step with a "
    "duplicate label or an invalid refSwitch",
]

FIELDS = ("inputs", "skipIf", "itemIn", "switchOn", "state")
PLACES = {
    "inputs": [lambda e: {"v": e}, lambda e: {"a": {"b": {"c": e}}}, lambda e: {"l": [1, {"x": e}]},
               lambda e: {"a": "=1", "m": "text", "v": e, "z": "=inputs"}, lambda e: {"a": [[e]], "b": "=parent.x"}],
    "state": [lambda e: {"v": e}, lambda e: {"a": {"b": [e]}}, lambda e: {"a": "=value", "b": e, "c": "=1"}],
}
KNOWN = ("aaa", "bbb", "ccc")


def forms(name):
    """Ways to name a step. § marks nothing; these are complete expressions."""
    escaped = "".join(f"\\x{ord(c):02x}" for c in name)
    out = [
        f"steps['{name}']", f'steps["{name}"]', f"steps[('{name}')]", f"steps['''{name}''']", f'steps["""{name}"""]',
        f"steps[r'{name}']", f"steps[ '{name}' ]", f"steps['{escaped}']", f"(steps)['{name}']", f".steps['{name}']",
        f"steps['{name}'].x", f"steps['{name}']['x']", f"steps['{name}'][0]", f"(steps['{name}']).x",
        f"has(steps['{name}'].x)", f"steps['\\u{ord(name[0]):04x}{name[1:]}']",
    ]
    if name.isidentifier():
        out += [
            f"steps.{name}", f"steps . {name}", f"steps\n  .{name}", f"steps // note\n.{name}", f"(steps).{name}",
            f"((steps)).{name}", f".steps.{name}", f"(.steps).{name}", f"steps.{name}.x", f"steps.{name}.x.y.z",
            f"steps.{name}['x']", f"steps.{name}[0].x", f"(steps.{name}).x", f"((steps.{name})).x['y']",
            f"has(steps.{name})", f"has(steps.{name}.x)", f"steps.{name}.fn()", f"steps.{name}.x.fn(1)",
            f"steps.{name}.map(x, x)", f"steps.{name}.l.filter(x, true)", f"steps.{name}[inputs.i]",
            f"steps.{name}[parent.x].y", f"steps.{name}[1 + 1]", f"steps.{name}.fn().x", f"steps.{name}.fn()[0]",
            f"steps.{name}.l.map(x, x).size()", f"steps.{name}{{f: 1}}", f"steps.{name}.x.steps.y",
            f"steps.{name}.inputs.parent", f"-steps.{name}.n", f"!steps.{name}.b", f"steps.{name}.x == 1",
        ]
    return out


CONTEXTS = [c.replace("%s", "§") for c in c10.CONTEXTS] + [
    "§ || true", "true || §", "false && §", "true ? 1 : §", "§ ? § : §".replace("§", "true", 2), "has(§.x)", "!has(§.x)",
    "--§.x", "!!§.x", "§[0].x", "§[0][1]['x']", "nope[§]", "nope[§].x", "steps[§]", "steps[§].z", "inputs[§]", "parent[§].x",
    "inputs.m[§]", "inputs.m[§][1]", "nope.x[§]", "fn(§)", "fn(1, §)", "fn(1, §, 2)", ".fn(§)", "§.fn()", "§.fn(1)",
    "'a'.fn(§)", "[1].fn(§)", "{}.fn(§)", "inputs.fn(§)", "inputs.fn(1, §)", "fn(1).fn(§)", "fn(1)[§]", "fn(§).x", "fn(§)[0]",
    "(1).fn(§)", "(1 + 2)[§]", "null[§]", "'a'[§]", "b'a'[§]", "1u[§]", "1.5[§]", "true[§]",
    "inputs.l.map(x, §)", "inputs.l.filter(x, §).map(y, y)", "§.map(x, x.y)", "§.map(x, [x, x])", "[§].map(x, x)",
    "§.filter(x, x == 1)", "§.exists_one(x, x == 1)", "[1].map(x, [2].map(y, [3].map(z, §)))", "inputs.l.map(x, x[§])",
    "inputs.l.map(x, x.y == §)", "inputs.l.exists(x, x == §)", "inputs.l.all(x, x == § || x == 1)", "has(inputs.m[§].x)",
    "Msg{f: §}", "Msg{f: 1, g: §}", "Msg{f: §}.f", "§{f: 1}", "{§: 1, 'b': 2}", "{'b': 2, §: 1}", "[[[§]]]", "[§, 1][0]",
    "[§]", "[1, §][1]", "{'a': §}.a", "{'a': §}['a']", "{'a': 1}.b[§]", "((§))", "(§).x", "(§)['x']", "[1][(§).n]",
    "true ? (false ? 1 : §) : 2", "§ ? 1 : 2", "(true ? § : 1).x", "(true ? § : 1)[0]", "1 + 2 * §", "§ - 1", "§ * 2", "2 * §",
    "§ / 2", "2 / §", "§ % 2", "2 % §", "2 - §", "§ >= 1", "1 <= §", "§ <= 1", "1 < §", "1 >= §", "§ > 1", "1 in §", "§ in §.x",
    "§ == §", "§ + § + §", "inputs.a.b.c == §", "parent.x + §", "-(§)", "!(§)", "§ // note\n", "// note\n§",
    "\n§\n", "  §  ", "'text steps.zzz' + §", "§ + 'steps.zzz'", "{'steps.zzz': §}", "inputs.steps.zzz + §",
]
CONTEXTS = list(dict.fromkeys(c for c in CONTEXTS if "§" in c))
# One per grammar production and child position, for deeper compositions.
CORE = [c for c in (
    "(§)", "[§]", "[1, §, 2]", "{'a': §}", "{§: 1}", "{'b': 2, §: 1}", "§ || true", "true || §", "§ && true", "false && §",
    "§ ? 1 : 2", "true ? § : 1", "true ? 1 : §", "§ == 1", "1 != §", "§ < 1", "1 >= §", "§ in [1]", "1 in §", "§ + 1", "1 - §",
    "§ * 2", "2 % §", "-§", "!§", "§.x", "§['x']", "nope[§]", "steps[§]", "fn(§)", "fn(1, §)", ".fn(§)", "§.fn()", "§.fn(1)",
    "inputs.fn(§)", "'a'.fn(§)", "[1].map(x, §)", "§.map(x, x)", "§.filter(x, §)".replace("§)", "true)"), "[1].exists(x, §)",
    "[1].all(x, x == §)", "has(§.x)", "size(§)", "Msg{f: §}", "§{f: 1}", "(true ? § : 1).x", "fn(§)[0]", "{'a': 1}[§]", "[1][§]",
)]
PAIRS = ["§ + ¤", "¤ + §", "§ ? ¤ : 1", "¤ ? 1 : §", "[§, ¤]", "[¤].map(x, §)", "{§: ¤}", "{¤: §}", "§[¤]", "¤[§].x", "fn(§, ¤)",
         "¤.fn(§)", "§.map(x, ¤)", "§ in ¤", "§ || ¤", "¤ && §", "§ == ¤", "Msg{f: §, g: ¤}", "§{f: ¤}", "has(§.x) ? ¤.x : 1",
         "¤.filter(x, x == §)", "§.x < ¤.y", "-§ - -¤", "overlay(¤, §)", "¤.fn().x[§.y]", "steps[§][¤]", "§.l.all(x, x == ¤)",
         "'a'.replace(§, ¤)", "§ * ¤ / 2 % 3", "!§ != !¤"]
LABELS = ["abc", "Abc", "ABC", "a_b", "a__", "___", "_a1", "ab1", "aa" * 22 + "a", "a" * 3, "aaaa", "123", "1ab", "007", "map", "filter", "all",
          "exists", "exists_one", "has", "size", "type", "string", "int", "steps", "inputs", "parent", "value", "resource", "locals", "fold",
          "get", "keys", "items", "copy", "null", "true", "false", "for", "let", "var", "void", "loop", "while", "import", "return", "namespace",
          "x", "missing"]
LABELS = [x for x in LABELS if len(x) >= 3]
VF = {"kind": "ValueFunction", "name": "vf"}
BATCH = 16  # at most 20 steps in a Workflow


def bounds():
    return {"forms": len(forms("aaa")), "contexts": len(CONTEXTS), "core_contexts": len(CORE), "pair_contexts": len(PAIRS),
            "labels": len(LABELS), "depth": 3, "depth3_contexts": len(CORE) if THOROUGH else 24}


def chunks(items, size):
    items = list(items)
    for i in range(0, len(items), size):
        yield items[i:i + size]


def fill(context, expr):
    if context.strip() == "§" or context == "(§)":
        return context.replace("§", expr)
    return context.replace("§", f"({expr})") if "//" not in expr else context.replace("§", f"({expr}\n)")


def cases():
    for field in FIELDS:
        for part in chunks(forms("aaa"), 12):
            yield {"mode": "single", "field": field, "exprs": part}
        for part in chunks(CONTEXTS, 12):
            yield {"mode": "single", "field": field, "exprs": [fill(c, "steps.aaa") for c in part]}
        for context in CONTEXTS:
            yield {"mode": "batch", "field": field, "context": context}
        for part in chunks(PAIRS, 3):
            yield {"mode": "pairs", "field": field, "contexts": part}
        for label in LABELS:
            yield {"mode": "label", "field": field, "label": label}
        for context in CONTEXTS:
            yield {"mode": "two-deep", "field": field, "outer": context}
    core = CORE if THOROUGH else CORE[::2]
    for outer in core:
        for middle in core:
            yield {"mode": "three-deep", "outer": outer, "middle": middle}
    for fields in itertools.product((0, 1, 2), repeat=len(FIELDS)):
        yield {"mode": "many-fields", "fields": list(fields)}
    for part in chunks(forms("aaa"), 6):
        yield {"mode": "run", "exprs": part}
    for part in chunks([fill(c, "steps.aaa.l") for c in CONTEXTS], 6):
        yield {"mode": "run", "exprs": part}
    for n in (2, 3, 4):
        for order in itertools.permutations(range(n)):
            yield {"mode": "order", "order": list(order)}
    yield from watch_cases()


# --- dependencies ------------------------------------------------------------

_env = []


def parses(expr):
    if not _env:
        _env.append(celpy.Environment(annotations=koreo_function_annotations))
    try:
        _env[0].compile(expr)
        return True
    except Exception:  # celpy fails in other ways too, for `a.true` for example
        return False


def step(label, field, expr, place=0):
    value = "=" + expr
    if field in PLACES:
        value = PLACES[field][place](value)
    out = {"label": label, "ref": VF}
    if field == "switchOn":
        del out["ref"]
        out["refSwitch"] = {"switchOn": value, "cases": [{**VF, "case": "one"}, {**VF, "case": "two", "default": True}]}
    elif field == "itemIn":
        out["forEach"] = {"itemIn": value, "inputKey": "item"}
    else:
        out[field] = value
    return out


def sources(labels=KNOWN):
    return [{"label": label, "ref": VF} for label in labels]


def start():
    defs.fresh()
    got = loop.run(lambda: defs.offer("ValueFunction", "vf", {"return": {"v": "=inputs", "n": 1}}))
    if defs.outcome_class(got) != "Ok":
        raise CodeProblem(f"library rejected: {got}")


def prepare(steps):
    got = loop.run(lambda: defs.prepare("Workflow", "wf", {"steps": steps}))
    if defs.outcome_class(got) != "Ok":
        return None, got
    workflow, watched = got
    return workflow, None


def deps_of(stats, case, expr, field, place, wanted, labels=KNOWN):
    """One workflow with the expression; True when every name is a dependency."""
    one = {**case, "exprs": [expr], "field": field}
    workflow, bad = prepare(sources(labels) + [step("zzstep", field, expr, place)])
    stats.step()
    if bad:
        stats.problem(f"{field} {expr!r}: not prepared: {bad.message}", one)
        return False
    last = workflow.steps[-1]
    if not R.is_ok(workflow.steps_ready) or not hasattr(last, "dynamic_input_keys"):
        stats.problem(f"{field} {expr!r}: not ready: {workflow.steps_ready}", one)
        return False
    missing = set(wanted) - set(last.dynamic_input_keys)
    if missing:
        stats.problem(f"{field} {expr!r}: dependency on {sorted(missing)} is not recorded "
                      f"({sorted(last.dynamic_input_keys)})", one)
        return False
    return True


def batch(stats, case, pairs, field, labels=KNOWN, place=0):
    """(expr, names) pairs, many steps in one Workflow; then the same naming unknown steps."""
    pairs = [(e, w) for e, w in pairs if parses(e)]
    for part in chunks(pairs, BATCH):
        stats.trace()
        stats.step(len(part))
        stats.evaluated(len(part))
        workflow, bad = prepare(sources(labels) + [step(f"zz{i:03}", field, e, place) for i, (e, w) in enumerate(part)])
        steps = workflow.steps[len(labels):] if workflow else []
        good = workflow is not None and R.is_ok(workflow.steps_ready) and len(steps) == len(part)
        if good:
            good = all(set(w) <= set(getattr(s, "dynamic_input_keys", ())) for s, (e, w) in zip(steps, part))
        for e, w in part:
            stats.state([field, e, place])
        if not good:
            found = False
            for e, w in part:
                found |= not deps_of(stats, case, e, field, place, w, labels)
            if not found:
                stats.problem(f"{field}: steps which are ready alone are not ready together: "
                              f"{bad or workflow.steps_ready}", case)
            return False
        # No sources: every one of these names an unknown step.
        workflow, bad = prepare([{"label": "other", "ref": VF}]
                                + [step(f"zz{i:03}", field, e, place) for i, (e, w) in enumerate(part)])
        if workflow is None:
            continue
        stats.step(len(part))
        for s, (e, w) in zip(workflow.steps[1:], part):
            if hasattr(s, "dynamic_input_keys"):
                stats.problem(f"{field} {e!r} names an unknown step, and is accepted", {**case, "exprs": [e]})
                return False
        if R.is_ok(workflow.steps_ready):
            stats.problem(f"{field}: unknown steps, yet the Workflow is ready", case)
            return False
    return True


def refuse(stats, case, field, expr, relation, place=0, names=("aaa",)):
    """The expression names a later, unknown, or its own label."""
    one = {**case, "exprs": [expr], "field": field}
    steps = {
        "unknown": [{"label": "other", "ref": VF}, step("zzstep", field, expr, place)],
        "later": [{"label": "other", "ref": VF}, step("zzstep", field, expr, place)] + sources(names),
        "own": [{"label": "other", "ref": VF}] + sources(names[:-1]) + [step(names[-1], field, expr, place)],
        "only": [step("zzstep", field, expr, place)],
    }[relation]
    workflow, bad = prepare(steps)
    stats.step()
    stats.trace()
    stats.evaluated()
    stats.state([field, expr, relation, place])
    if bad:
        return True
    if R.is_ok(workflow.steps_ready):
        stats.problem(f"{field} {expr!r} names a step that is {relation}, and the Workflow is ready", one)
        return False
    cluster = Cluster()
    got = loop.run(lambda: defs.run_wf(cluster, workflow, {"x": 1}))
    outcome = defs.outcome_class(got.result)
    if cluster.log or outcome not in ("PermFail", "Retry"):
        stats.problem(f"{field} {expr!r} names a step that is {relation}, and was run: {got.result}", one)
        return False
    return True


def check(stats, case):
    start()
    globals()["check_" + case["mode"].replace("-", "_").split("_")[0]
              if case["mode"].startswith("watch") else "check_" + case["mode"].replace("-", "_")](stats, case)
    stats.sample(case)


def check_single(stats, case):
    for expr in case["exprs"]:
        if not parses(expr):
            continue
        for place in range(len(PLACES.get(case["field"], [0]))):
            if not deps_of(stats, case, expr, case["field"], place, ["aaa"]):
                return
            for relation in ("unknown", "later", "own", "only"):
                if not refuse(stats, case, case["field"], expr, relation, place):
                    return


def check_batch(stats, case):
    exprs = case.get("exprs") or [fill(case["context"], form) for form in forms("aaa")]
    batch(stats, case, [(e, ["aaa"]) for e in exprs], case["field"])


def check_two_deep(stats, case):
    inner = CONTEXTS if case["field"] == "inputs" or THOROUGH else CORE
    exprs = case.get("exprs") or [fill(case["outer"], fill(c, f)) for c in inner
                                    for f in ("steps.aaa", "steps['aaa'].x")[:2 if case["field"] == "inputs" else 1]]
    batch(stats, case, [(e, ["aaa"]) for e in exprs], case["field"])


def check_three_deep(stats, case):
    core = CORE if THOROUGH else CORE[1::2] + CORE[::4]
    exprs = case.get("exprs") or [fill(case["outer"], fill(case["middle"], fill(c, "steps.aaa"))) for c in core]
    batch(stats, case, [(e, ["aaa"]) for e in exprs], "inputs")


def check_pairs(stats, case):
    some = ["steps.{}", "steps['{}']", "steps.{}.x", "(steps.{}).y[0]", "steps.{}.fn(1)", "fn(steps.{})", "[steps.{}][0]",
            "has(steps.{}.x)", "steps['{}'].l.map(z, z)", "-steps.{}.n"]
    for context in case["contexts"]:
        pairs = []
        for a, b in itertools.product(some, repeat=2):
            pairs.append((context.replace("§", "(" + a.format("aaa") + ")").replace("¤", "(" + b.format("bbb") + ")"),
                          ["aaa", "bbb"]))
            pairs.append((context.replace("§", a.format("bbb")).replace("¤", b.format("ccc")), ["bbb", "ccc"]))
        if not batch(stats, {**case, "contexts": [context]}, pairs, case["field"]):
            return
        # One name known, the other one not.
        for expr, names in pairs[::7]:
            if parses(expr):
                workflow, bad = prepare(sources(names[:1]) + [step("zzstep", case["field"], expr)])
                other, bad2 = prepare(sources(names[1:]) + [step("zzstep", case["field"], expr)])
                stats.step(2)
                for wf, unknown in ((workflow, names[1]), (other, names[0])):
                    if wf is not None and R.is_ok(wf.steps_ready):
                        stats.problem(f"{expr!r} names {unknown}, which is unknown, and is accepted", case)
                        return


def check_label(stats, case):
    label, field = case["label"], case["field"]
    others = [x for x in (label + "x", label[:-1] + "_", label.swapcase()) if x != label and 3 <= len(x) <= 45]
    others = list(dict.fromkeys(others))
    exprs = [e for e in forms(label) if parses(e)]
    if not batch(stats, case, [(e, [label]) for e in exprs], field, labels=others + [label]):
        return
    # Similar labels are other labels.
    for expr in exprs[:12]:
        workflow, bad = prepare(sources(others) + [step("zzstep", field, expr)])
        stats.step()
        if workflow is not None and R.is_ok(workflow.steps_ready):
            return stats.problem(f"{field} {expr!r} names an unknown step, and is accepted next to {others}", case)


def check_many_fields(stats, case):
    """A name per field, in any combination of fields (0: nothing, 1: aaa-style, 2: bbb-style)."""
    out = {"label": "zzstep", "ref": VF}
    wanted = set()
    names = {}
    for field, kind in zip(FIELDS, case["fields"]):
        if kind:
            name = f"{'dot' if kind == 1 else 'idx'}_{field}"
            names[field] = name
            wanted.add(name)
            expr = f"steps.{name}.x" if kind == 1 else f"fn(steps['{name}'])"
            part = step("zzstep", field, expr)
            if field == "switchOn":
                out.pop("ref", None)
            for k, v in part.items():
                if k not in ("ref", "label"):
                    out[k] = v
    stats.trace()
    stats.step()
    stats.evaluated()
    stats.state(case["fields"])
    workflow, bad = prepare(sources(sorted(wanted)) + [out])
    if bad or not R.is_ok(workflow.steps_ready):
        return stats.problem(f"not ready: {bad or workflow.steps_ready}", case)
    missing = wanted - set(workflow.steps[-1].dynamic_input_keys)
    if missing:
        return stats.problem(f"{out}: dependency on {sorted(missing)} is not recorded", case)
    for field, name in names.items():
        workflow, bad = prepare(sources(sorted(wanted - {name})) + [out, {"label": name, "ref": VF}])
        stats.step()
        if workflow is not None and R.is_ok(workflow.steps_ready):
            return stats.problem(f"{field} names {name}, a later step, and the Workflow is ready", case)


class Tracking(celtypes.MapType):
    seen = ()

    def __getitem__(self, key):
        self.seen.add(str(key))
        return super().__getitem__(key)

    def get(self, key, default=None):
        self.seen.add(str(key))
        return super().get(key, default)


VALUE = {"x": {"y": {"z": 1}, "steps": {"y": 2}}, "l": [1, {"x": 2}], "n": 3, "b": True, "inputs": {"parent": 5}, "v": {}}


def check_run(stats, case):
    """What the step received equals the expression evaluated over all steps' values."""
    env = celpy.Environment(annotations=koreo_function_annotations)
    for expr in case["exprs"]:
        if not parses(expr):
            continue
        tracked = Tracking(defs.cel({k: VALUE for k in KNOWN}))
        tracked.seen = set()
        scope = {"steps": tracked, "inputs": defs.cel({}), "parent": defs.cel({"x": 1})}
        try:
            truth = env.program(env.compile(f"[{expr}\n]"), functions=koreo_cel_functions).evaluate(scope)
            truth = None if defs.has_error_object(truth) else krm_strict(truth[0])
        except celpy.CELEvalError:
            truth = None
        except Exception:
            truth = None
        if not tracked.seen <= {"aaa"} and "steps[" not in expr.replace("steps['", "").replace('steps["', ""):
            raise RuntimeError(f"{expr} used {tracked.seen}")
        for order in (("aaa", "bbb", "ccc"), ("ccc", "bbb", "aaa"), ("aaa",)):
            defs.fresh()
            for name, spec in (("vf", {"return": {"got": "=inputs.v"}}), ("src", {"return": VALUE})):
                loop.run(lambda: defs.offer("ValueFunction", name, spec))
            steps = [{"label": label, "ref": {"kind": "ValueFunction", "name": "src"}} for label in order]
            steps.append({"label": "zzstep", "ref": VF, "inputs": {"v": "=" + expr}, "state": {"got": "=value.got"}})
            workflow, bad = prepare(steps)
            stats.trace()
            stats.step()
            stats.evaluated()
            stats.state([expr, order])
            if bad or not R.is_ok(workflow.steps_ready):
                return stats.problem(f"{expr!r} not ready: {bad or workflow.steps_ready}", case)
            res = loop.run(lambda: defs.run_wf(Cluster(), workflow, {"x": 1}))
            state = defs.uncel(res.state) if res.state else {}
            got = state.get("got", "nothing")
            if truth is not None and ("got" not in state or krm_strict(got) != truth):
                return stats.problem(f"{expr!r} was given {got!r} after {order}, evaluated over all steps it is {truth!r}: "
                                     f"{res.result}", case)


def krm_strict(value):
    from .. import krm
    return krm.strict(defs.uncel(value))


def check_order(stats, case):
    """Chains written in every order: ready only when each names earlier ones."""
    order = case["order"]
    n = len(order)
    for edges in range(1, 1 << (n * (n - 1) // 2)):
        pairs = [p for i, p in enumerate(itertools.combinations(range(n), 2)) if edges >> i & 1]
        for field in FIELDS:
            steps = []
            for i in order:
                mine = [f"steps.step{a}.n" for a, b in pairs if b == i]
                steps.append(step(f"step{i}", field, " + ".join(mine)) if mine else {"label": f"step{i}", "ref": VF})
            good = all(order.index(a) < order.index(b) for a, b in pairs)
            workflow, bad = prepare(steps)
            stats.trace()
            stats.step()
            stats.evaluated()
            stats.state([order, edges, field])
            ready = workflow is not None and R.is_ok(workflow.steps_ready)
            if ready != good:
                return stats.problem(f"{field}: steps {order} with {pairs}: ready is {ready}", case)
            if ready:
                for i, s in zip(order, workflow.steps):
                    if not {f"step{a}" for a, b in pairs if b == i} <= set(s.dynamic_input_keys):
                        return stats.problem(f"{field}: {s.label} depends on {s.dynamic_input_keys}, {pairs}", case)


# --- watches -----------------------------------------------------------------

TARGETS = [("ValueFunction", "v1"), ("ValueFunction", "v2"), ("ResourceFunction", "r1"), ("Workflow", "w1")]
STATES = ("missing", "ready", "failed")
SPECS = {
    "ValueFunction": [{"return": {"a": 1}}, {"return": {"a": 2, "b": "=inputs.x"}}],
    "ResourceFunction": [
        {"apiConfig": defs.api_config(), "resource": {"spec": {"a": 1}}},
        {"apiConfig": defs.api_config(), "resource": {"spec": {"a": 2}}, "return": {"b": "=inputs.x"}}],
    "Workflow": [{"steps": [{"label": "one", "ref": VF}]}, {"steps": [{"label": "one", "ref": VF, "state": {"b": "=value.v"}}]}],
}
BROKEN = {
    "ValueFunction": {"return": {"a": "=1 +"}},
    "ResourceFunction": {"apiConfig": defs.api_config(name="=1 +"), "resource": {}},
    "Workflow": {"steps": []},
}


def watch_cases():
    for k in (1, 2, 3):
        for names in itertools.product(range(len(TARGETS)), repeat=k):
            yield {"mode": "watch", "of": "steps", "names": list(names)}
            if k > 1 or THOROUGH:
                yield {"mode": "watch", "of": "switch", "names": list(names)}
    yield {"mode": "watch", "of": "switch", "names": [0, 1, 2, 3]}
    yield {"mode": "watch", "of": "mixed", "names": [0, 1, 2, 3]}
    for shape in itertools.product("iab", repeat=3):
        yield {"mode": "watch", "of": "overlays", "names": [0, 1], "shape": "".join(shape)}
    for kind in (0, 2):
        yield {"mode": "watch", "of": "test", "names": [kind]}
    yield {"mode": "watch", "of": "template", "names": []}
    for of in ("steps", "switch", "each", "bad-fields", "overlays", "test"):
        for target in range(len(TARGETS)):
            if (of == "overlays" and target > 1) or (of == "test" and target == 3):
                continue
            for first in STATES:
                for events in itertools.product(("ready", "other", "failed", "missing"), repeat=3 if not THOROUGH else 4):
                    yield {"mode": "watched", "of": of, "target": target, "first": first, "events": list(events)}


def ref(i):
    kind, name = TARGETS[i]
    return {"kind": kind, "name": name}


def definition(of, names, shape=None):
    if of == "steps":
        return "Workflow", {"steps": [{"label": f"step{j}", "ref": ref(i)} for j, i in enumerate(names)]}
    if of == "each":
        return "Workflow", {"steps": [{"label": f"step{j}", "ref": ref(i), "skipIf": "=inputs.x == 1", "state": {"a": "=1"},
                                       "forEach": {"itemIn": "=[1]", "inputKey": "item"},
                                       "condition": {"type": "Cond", "name": "n"}} for j, i in enumerate(names)]}
    if of == "bad-fields":
        return "Workflow", {"steps": [{"label": "first", "ref": VF, "skipIf": "=steps.later.x"}] + [
            {"label": f"step{j}", "ref": ref(i), "inputs": {"x": "=steps.later"}} for j, i in enumerate(names)]}
    if of == "switch":
        steps = []
        for default in range(len(names)):
            steps.append({"label": f"switch{default}", "refSwitch": {"switchOn": "=parent.x", "cases": [
                {"case": f"case{j}", **ref(i), **({"default": True} if j == default else {})}
                for j, i in enumerate(names)]}})
        return "Workflow", {"steps": steps[:1]} if shape is None else {"steps": [steps[shape]]}
    if of == "mixed":
        return "Workflow", {"steps": [
            {"label": "one", "ref": ref(names[0])},
            {"label": "two", "refSwitch": {"switchOn": "=steps.one.x", "cases": [
                {"case": "a", **ref(names[1])}, {"case": "b", "default": True, **ref(names[2])}, {"case": "c", **ref(names[3])}]}},
            {"label": "three", "ref": VF, "forEach": {"itemIn": "=steps.two", "inputKey": "x"}},
        ]}
    if of == "overlays":
        steps = []
        for j, s in enumerate(shape or "a"):
            if s == "i":
                steps.append({"overlay": {"spec": {f"k{j}": "=inputs.x"}}})
            else:
                extra = {"inputs": {"x": "=inputs.x"}} if j else {}
                if j == 1:
                    extra["skipIf"] = "=inputs.skip"
                steps.append({"overlayRef": {"kind": "ValueFunction", "name": TARGETS[names["ab".index(s)] if len(names) > 1
                                                                                        else names[0]][1]}, **extra})
        return "ResourceFunction", {"apiConfig": defs.api_config(), "resource": {"spec": {}}, "overlays": steps}
    if of == "test":
        return "FunctionTest", {"functionRef": ref(names[0]), "testCases": [{"expectOutcome": {"ok": {}}}]}
    raise AssertionError(of)


def put(i, state, version="1"):
    kind, name = TARGETS[i]
    if state == "missing":
        return
    spec = BROKEN[kind] if state == "failed" else SPECS[kind][state == "other"]
    loop.run(lambda: defs.offer(kind, name, spec, version=version))


def pair_set(resources):
    return {(r.resource_type.__name__, r.name) for r in resources}


def named(kind, spec):
    """Every Function or Workflow the definition names."""
    out = set()
    if kind == "Workflow":
        for s in spec["steps"]:
            for r in [s["ref"]] if "ref" in s else s["refSwitch"]["cases"]:
                out.add((r["kind"], r["name"]))
    elif kind == "ResourceFunction":
        for o in spec.get("overlays", []):
            if "overlayRef" in o:
                out.add((o["overlayRef"]["kind"], o["overlayRef"]["name"]))
    else:
        out.add((spec["functionRef"]["kind"], spec["functionRef"]["name"]))
    return out


def check_watch(stats, case):
    if case["mode"] == "watched":
        return check_watched(stats, case)
    of, names = case["of"], case["names"]
    if of == "template":
        return check_template(stats, case)
    distinct = sorted(set(names))
    shapes = range(len(names)) if of == "switch" else [case.get("shape")]
    for states in itertools.product(STATES, repeat=len(distinct)):
        start()
        for i, state in zip(distinct, states):
            put(i, state)
        for shape in shapes:
            kind, spec = definition(of, names, shape)
            for variant in variants(kind, spec):
                got = loop.run(lambda: defs.prepare(kind, "def", variant))
                stats.trace()
                stats.step()
                stats.evaluated()
                stats.state([of, names, shape, states])
                if defs.outcome_class(got) != "Ok":
                    return stats.problem(f"{kind} {variant} with {states}: nothing is watched, {got}", case)
                missing = named(kind, variant) - pair_set(got[1])
                if missing:
                    return stats.problem(f"{kind} {variant} with {states}: {sorted(missing)} not watched", case)


def variants(kind, spec):
    yield spec
    if kind == "Workflow":
        n = len(spec["steps"])
        for j in range(n):
            for extra in ({"inputs": {"x": "=steps.later.x"}}, {"skipIf": "=1 +"}, {"state": {"a": "=steps['later']"}},
                          {"inputs": {"x": "=1 +"}}, {"forEach": {"itemIn": "=)", "inputKey": "a"}}):
                steps = [dict(s) for s in spec["steps"]]
                steps[j].update(extra)
                yield {"steps": steps}
        yield {**spec, "crdRef": {"apiGroup": "g.io", "version": "v1", "kind": "K"}}
    if kind == "ResourceFunction":
        yield {**spec, "overlays": [{"overlay": {"a": "=1 +"}}] + spec["overlays"]}
        yield {**spec, "overlays": spec["overlays"] + [{"overlay": {"a": "=1 +"}}]}
        yield {**spec, "return": {"a": "=inputs.x"}, "create": {"overlay": {"a": 1}}, "preconditions": [
            {"assert": "=inputs.x == 1", "ok": {}}], "locals": {"l": 1}}
    if kind == "FunctionTest":
        yield {**spec, "inputs": {"x": 1}}
        yield {**spec, "testCases": [{"expectReturn": {"a": 1}, "skip": True}, {"expectReturn": {"a": 1}, "variant": True}]}
        yield {**spec, "testCases": [{"expectOutcome": {"skip": {"message": "x"}}, "inputOverrides": {"x": 1}}] * 20}


def check_template(stats, case):
    """A FunctionTest watches the template its function uses."""
    for present in (False, True):
        for name, inputs, overrides, wanted in (
            ("tpl-a", None, None, {"tpl-a"}), ("='tpl-' + 'a'", None, None, {"tpl-a"}),
            ("=inputs.t", {"t": "tpl-b"}, None, {"tpl-b"}), ("=inputs.t", {"t": "tpl-b"}, {"t": "tpl-c"}, {"tpl-c"}),
            ("=locals.t + 'x'", {"t": "tpl-b"}, {"t": "tpl-c"}, {"tpl-cx"}),
        ):
            start()
            if present:
                for t in ("tpl-a", "tpl-b", "tpl-c", "tpl-cx"):
                    loop.run(lambda: defs.offer("ResourceTemplate", t, {"template": {
                        "apiVersion": defs.VERSION, "kind": defs.NS_KIND, "metadata": {}, "spec": {}}}))
            fn = {"apiConfig": defs.api_config(), "resourceTemplateRef": {"name": name}}
            if "locals" in name:
                fn["locals"] = {"t": "=inputs.t"}
            loop.run(lambda: defs.offer("ResourceFunction", "r1", fn))
            one = {"expectOutcome": {"ok": {}}}
            if overrides:
                one["inputOverrides"] = overrides
            spec = {"functionRef": ref(2), "testCases": [one]}
            if inputs:
                spec["inputs"] = inputs
            got = loop.run(lambda: defs.prepare("FunctionTest", "def", spec))
            stats.trace()
            stats.step()
            stats.evaluated()
            stats.state([present, name, inputs, overrides])
            if defs.outcome_class(got) != "Ok":
                return stats.problem(f"{spec} of {fn}: {got}", case)
            missing = {("ResourceTemplate", w) for w in wanted} | named("FunctionTest", spec)
            missing -= pair_set(got[1])
            if missing:
                return stats.problem(f"{spec} of {fn}: {sorted(missing)} not watched", case)


def check_watched(stats, case):
    """Through the cache: prepared again whenever the named resource appears, changes or disappears."""
    of, target = case["of"], case["target"]
    kind, name = TARGETS[target]
    put(target, case["first"], "0")
    definer, spec = definition(of, [target])

    async def go():
        import asyncio
        await defs.offer(definer, "def", spec)
        for _ in range(4):
            await asyncio.sleep(0)
        state = case["first"]
        for turn, event in enumerate(case["events"]):
            before = defs.lookup(definer, "def")
            if event == "missing":
                await cache_delete(kind, name)
            else:
                broken = BROKEN[kind] if event == "failed" else SPECS[kind][event == "other"]
                await defs.offer(kind, name, broken, version=str(turn + 1))
            for _ in range(12):
                await asyncio.sleep(0)
            after = defs.lookup(definer, "def")
            stats.step()
            stats.state([of, target, state, event])
            changed = not (event == "missing" and state == "missing")
            if changed and before is after:
                return stats.problem(f"{definer} {spec} was not prepared again when {kind} {name} went from {state} to "
                                     f"{event}", case)
            state = event

    loop.run(go)
    stats.trace()
    stats.evaluated()


async def cache_delete(kind, name):
    await defs.cache.delete_resource_from_cache(defs.KINDS[kind][0], {"name": name, "resourceVersion": "9"})
