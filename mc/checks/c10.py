"""C10 Expression failures surface as PermFail, never as crashes or leaked errors."""
import itertools

from .. import defs, krm, loop
from ..cluster import Cluster
from ..report import THOROUGH, CodeProblem

LEVEL = "model_checking"
RULE = (
    "failing CEL expressions are enumerated from a grammar (failing atoms - arithmetic, missing names, members and "
    "indexes, unknown functions, conversions, every custom function's failure, unusual Python exceptions - wrapped "
    "to the depth bound in every strict context: literals, macros, operators, member access, calls, custom "
    "functions) and written at every expression site of ValueFunctions, ResourceFunctions and Workflows, at several "
    "positions of a structure. Reference: the outcome is a PermFail which names the site, nothing is sent to the "
    "API by a failure before it, no exception, no error object or error text in any value, state or payload. The "
    "same definitions are run with inputs that make the expression succeed, before and after. A state is a "
    "distinct (site, position, expression), a transition one reconciliation."
)
ASSUMPTIONS = [
    "an operand which CEL may ignore (||, && and the ternary's other branch, has(), members of a map literal that "
    "is indexed or selected at once) is not a failure of the expression",
    "a failing step state expression is reported in state_errors; the step's outcome is not affected",
]

ATOMS = [
    # plain CEL failures
    "1 / 0", "1 % 0", "inputs.nope", "inputs.m.nope", "inputs.m.nope.deeper", "inputs['nope']", "inputs.l[9]",
    "inputs.l['a']", "nope", "nope.x", "unknownFn(1)", "inputs.l.unknownFn()", "'a' + 1", "1 + 'a'", "1 + 1.0", "-'a'",
    "-inputs.m", "1 < 'a'", "{} < {}", "1 == 'a'", "9223372036854775807 + 1", "-9223372036854775807 - 2",
    "9223372036854775807 * 2", "0u - 1u", "int('x')", "int('')", "double('x')", "uint('-1')", "bool('x')",
    "timestamp('x')", "duration('x')", "duration('1y')", "int(9223372036854775808.0)", "size(1)", "'a'.matches('[')",
    "(1).contains(1)", "inputs.m()", "inputs.n.x", "{'a': 1}.b", "{'a': 1}['b']", "[1][1]", "[][0]", "'a' in 1", "1 in 'a'",
    "{inputs.l: 1}", "{[1]: 1}", "inputs.l.map(x, x.y)", "inputs.l.filter(x, x.y)", "inputs.m.map(x, x.y)",
    "inputs.l.all(x, x / 0 == 1)", "inputs.l.exists(x, x.y == 1)", "inputs.l.exists_one(x, x / 0 == 1)", "(1).map(x, x)",
    "duration('1s') > 1", "timestamp('2024-01-01T00:00:00Z') + 1", "timestamp('9999-12-31T23:59:59Z') + duration('48h')",
    "1 / inputs.zero", "inputs.l[inputs.zero + 7]",
    # custom functions
    "to_ref({})", "to_ref(1)", "to_ref({'name': ''})", "to_ref({'external': ''})", "self_ref({})",
    "self_ref({'apiVersion': 'v1', 'kind': 'K', 'metadata': {'name': 'n'}})", "self_ref('x')", "group_ref({})",
    "group_ref({'apiVersion': 'v1'})", "group_ref(null)", "kindless_ref({})", "kindless_ref([])",
    "config_connect_ready(1)", "config_connect_ready({'status': 1})", "config_connect_ready({'status': {'conditions': 1}})",
    "config_connect_ready({'status': {'conditions': [1]}})", "overlay(1, {'a': 1})", "overlay({'a': 1}, 2)", "overlay({})",
    "lower(1)", "inputs.l.lower()", "flatten([1])", "flatten(1)", "split('a', '')", "split(1, 'a')", "split('a', 1)",
    "split_first('a', '')", "split_last('a', '')", "split_index('a', ',', 5)", "split_index('a', '', 0)",
    "split_index('a', ',', 'x')", "strip(1, 'a')", "rstrip([], 'a')", "strip('a', 1)", "to_json(b'x')",
    "to_json(timestamp('2024-01-01T00:00:00Z'))", "from_json('{')", "from_json(1)", "from_json('')",
    "from_json('99999999999999999999')", "b64encode(1)", "b64decode('/w==')", "b64decode('a')", "b64decode(1)",
    "replace('a', 1, 'b')", "replace(1, 'a', 'b')", "lower()", "split('a')", "to_json()",
    "from_json('" + "[" * 3000 + "')",
]
# Contexts which cannot succeed when their operand fails.
CONTEXTS = [
    "(%s)", "[%s]", "[1, %s, 2]", "[[%s]]", "{'a': %s}", "{'a': {'b': [%s]}}", "{'a': 1, 'b': %s}", "{'b': %s, 'a': 1}",
    "[{'a': %s}, {'a': 1}]", "{%s: 1}", "%s == 'a'", "'a' == %s", "%s != 'a'", "%s == null", "%s != null", "%s == 1",
    "1 != %s", "%s == true", "%s == [1]", "{'a': 1} == {'a': %s}", "%s in ['a']", "%s in []", "'a' in [%s]",
    "%s in {'a': 1}", "'a' in {'b': %s}", "%s + 1", "'a' + %s", "[1] + [%s]", "-%s", "!%s", "%s ? 1 : 2",
    "true ? %s : 1", "false ? 1 : %s", "false || %s", "%s || false", "true && %s", "%s && true", "%s < 1", "1 > %s",
    "%s.x", "%s['x']", "[1][%s]", "{'a': 1}[%s]", "%s.x.y[0]", "size(%s)", "size([%s])", "size({'a': %s})", "string(%s)",
    "int(%s)", "double(%s)", "bool(%s)", "timestamp(%s)", "duration(%s)", "bytes(%s)", "dyn(%s)", "type(%s)",
    "'abc'.contains(%s)", "'abc'.startsWith(%s)", "'abc'.endsWith(%s)", "'abc'.matches(%s)", "%s.contains('a')",
    "[1].map(x, %s)", "[1, 2].map(x, [x, %s])", "[1].map(x, {'a': x, 'b': %s})", "%s.map(x, x)", "[%s].map(x, 1)",
    "[1].filter(x, %s)", "%s.filter(x, true)", "[1].exists(x, %s)", "[1].all(x, %s)", "[1].exists_one(x, %s)",
    "%s.exists(x, true)", "%s.all(x, true)", "[1].map(x, [2].map(y, %s))", "[1].map(x, x == 1 ? %s : 2)",
    "to_ref({'name': %s})", "to_ref({'name': 'n', 'namespace': %s})", "to_ref({'name': 'n', 'more': %s})", "to_ref(%s)",
    "self_ref({'apiVersion': 'v1', 'kind': 'K', 'metadata': {'name': 'n', 'namespace': %s}})", "self_ref(%s)",
    "group_ref({'name': 'n', 'apiVersion': %s})", "group_ref({'name': 'n', 'apiGroup': 'g', 'apiVersion': %s})",
    "group_ref({'external': 'e', 'name': %s})", "kindless_ref({'name': 'n', 'kind': %s})", "kindless_ref(%s)",
    "config_connect_ready(%s)", "config_connect_ready({'status': %s})",
    "config_connect_ready({'status': {'conditions': [{'type': %s}]}})",
    "config_connect_ready({'status': {'conditions': [{'type': 'Ready', 'reason': %s}]}})",
    "overlay({'a': 1}, {'a': %s})", "overlay({'a': %s}, {'a': 1})", "overlay({'a': {'b': 1}}, {'a': {'c': [%s]}})",
    "overlay(%s, {})", "overlay({}, %s)", "{'a': 1}.overlay({'b': %s})", "lower(%s)", "%s.lower()", "flatten([[%s]])",
    "flatten([%s])", "flatten(%s)", "split(%s, ',')", "split('a', %s)", "split_first(%s, ',')", "split_first('', %s)",
    "split_last('a', %s)", "split_index('a,b', ',', %s)", "split_index('', %s, 0)", "strip(%s, 'a')", "strip('a', %s)",
    "rstrip('a', %s)", "to_json(%s)", "to_json({'a': [%s]})", "from_json(%s)", "b64encode(%s)", "b64decode(%s)",
    "replace(%s, 'a', 'b')", "replace('a', %s, 'b')", "replace('a', 'a', %s)",
]
KEY_ATOMS = ["1 / 0", "inputs.nope", "to_ref({})", "1 / inputs.zero"]
POSITIONS = {
    "value": lambda e: {"v": e},
    "nested": lambda e: {"a": {"b": e}},
    "list": lambda e: {"l": [e]},
    "list-last": lambda e: {"l": ["fine", "=1", {"x": [[e]]}]},
    "first": lambda e: {"v": e, "z": "=1", "y": {"ok": "=inputs.m"}},
    "last": lambda e: {"a": "=1", "b": {"ok": "static"}, "v": e},
    "middle": lambda e: {"a": "=1", "b": {"ok": "=1", "v": e}, "c": "=2"},
    "text": lambda e: {"v": {"w": {"x": {"y": [e]}}}},
}

# site -> (token that the PermFail must mention, calls allowed, what it holds)
SITES = {
    "vf.assert": "preconditions", "vf.message": "preconditions", "vf.locals": "locals", "vf.return": "return",
    "rf.assert": "preconditions", "rf.message": "preconditions", "rf.locals": "locals", "rf.name": "apiConfig",
    "rf.namespace": "apiConfig", "rf.resource": "spec.resource", "rf.template": "resourceTemplateRef",
    "rf.skipIf": "skipIf", "rf.overlay": "overlays", "rf.overlay2": "overlays", "rf.ref-inputs": "overlays",
    "rf.ref-locals": "overlay", "rf.ref-return": "overlay", "rf.ref-assert": "overlay",
    "rf.create": "create.overlay", "rf.post": "postconditions", "rf.post-message": "postconditions",
    "rf.return": "return", "rf.patch": "spec.resource", "rf.patch-overlay": "overlays",
    "wf.inputs": "inputs", "wf.skipIf": "skipIf", "wf.itemIn": "itemIn", "wf.switchOn": "switchOn", "wf.state": None,
    "wf.logic": "return", "wf.each": "return", "wf.sub": "inputs", "wf.dep-inputs": "inputs", "wf.dep-skipIf": "skipIf",
    "wf.dep-itemIn": "itemIn", "wf.case": "return",
}
STRUCTURED = ["vf.locals", "vf.return", "rf.locals", "rf.resource", "rf.overlay", "rf.ref-inputs", "rf.ref-locals",
              "rf.ref-return", "rf.create", "rf.return", "rf.patch", "rf.patch-overlay", "wf.inputs", "wf.state",
              "wf.logic", "wf.sub", "wf.dep-inputs", "rf.overlay2"]


# These look at a value without its members, so they may ignore a failing member of a map literal.
SHALLOW = ("%s.map(", "%s.filter(", "%s.exists(", "%s.all(", "[%s].map(x, 1)", "[1].filter(x, %s)", "[1].exists(x, %s)",
           "[1].all(x, %s)", "[1].exists_one(x, %s)")


def strict(context, expr):
    return not (context.startswith(SHALLOW) and "{'" in expr)


def compose(atoms, depth):
    level = list(atoms)
    for _ in range(depth):
        level = [c % (e if c.startswith("(") else f"({e})") for e in level for c in CONTEXTS
                 if strict(c, e)]
    return level


def bounds():
    return {"atoms": len(ATOMS), "contexts": len(CONTEXTS), "sites": len(SITES), "positions": len(POSITIONS),
            "depth": 2 if not THOROUGH else 3, "expressions": len(ATOMS) * (1 + len(CONTEXTS)) + len(KEY_ATOMS) * len(CONTEXTS) ** 2}


def chunks(items, size):
    items = list(items)
    for i in range(0, len(items), size):
        yield items[i:i + size]


def cases():
    every = list(SITES)
    for site in every:
        for part in chunks(ATOMS, 30):
            yield {"site": site, "exprs": part}
        for part in chunks(compose(KEY_ATOMS if not THOROUGH else ATOMS, 1), 40):
            yield {"site": site, "exprs": part}
    for site in STRUCTURED:
        for position in POSITIONS:
            for part in chunks(ATOMS if THOROUGH else ATOMS[::2] + KEY_ATOMS, 30):
                yield {"site": site, "position": position, "exprs": part}
    for part in chunks(compose(ATOMS, 1), 60):
        yield {"site": "vf.return", "exprs": part}
    for part in chunks(compose(KEY_ATOMS if THOROUGH else KEY_ATOMS[:2], 2), 60):
        yield {"site": "vf.return", "exprs": part}
    if THOROUGH:
        for site in ("vf.assert", "vf.locals", "rf.resource", "rf.create", "wf.inputs"):
            for part in chunks(compose(KEY_ATOMS[1:3], 2), 60):
                yield {"site": site, "exprs": part}
        third = [c for c in CONTEXTS if c[:1] in "[{" or "==" in c]
        for e in compose(KEY_ATOMS[:1], 2):
            yield {"site": "vf.return", "exprs": [c % f"({e})" for c in third]}
    for site in every:
        yield {"site": site, "mode": "recover"}
        yield {"site": site, "mode": "odd"}


# Expressions that evaluate, but to something a site does not expect.
ODD = ["type(1)", "int", "size", "null", "b'x'", "1.0 / 0.0", "double('nan')", "timestamp('2024-01-01T00:00:00Z')",
       "duration('5m')", "{1: 2}", "{true: {2u: 'x'}}", "[]", "{}", "1", "1u", "1.5", "''", "'x'", "true", "false",
       "[[1]]", "inputs", "inputs.m", "inputs.l", "type(type(1))", "inputs.n", "[null]", "{'metadata': 1}",
       "{'metadata': {'name': [1]}}", "{'apiVersion': 5}"]


class Refused(Exception):
    pass


async def offer(kind, name, spec):
    got = await defs.offer(kind, name, spec)
    if defs.outcome_class(got) != "Ok":
        raise Refused(f"{kind} was not prepared: {got.message}")
    return got


IDENT = {"return": {"got": "=inputs"}}
PLAIN = {"return": {"got": 1}}


async def build(site, expr, position):
    """-> run(inputs) -> description"""
    e = f"={expr}"
    part = POSITIONS[position](e)
    inputs_of = lambda value: {**value}  # noqa: E731
    if site.startswith("vf."):
        spec = {"return": {"r": 1}}
        if site == "vf.assert":
            spec["preconditions"] = [{"assert": "=true", "skip": {"message": "no"}},
                                     {"assert": e, "skip": {"message": "chosen"}}]
        elif site == "vf.message":
            spec["preconditions"] = [{"assert": "=false", "skip": {"message": e}}]
        elif site == "vf.locals":
            spec["locals"] = part
        elif site == "vf.return":
            spec["return"] = part
        fn = await offer("ValueFunction", "fn", spec)

        async def run(inputs):
            return {"outcome": await defs.run_vf(fn, inputs)}
        return run
    if site.startswith("rf."):
        name = site[3:]
        cfg = defs.api_config()
        spec = {"apiConfig": cfg, "resource": {"spec": {"x": 1}}, "return": {"r": "=resource.spec.x"}}
        if name == "assert":
            spec["preconditions"] = [{"assert": e, "retry": {"message": "chosen", "delay": 3}}]
        elif name == "message":
            spec["preconditions"] = [{"assert": "=false", "retry": {"message": e, "delay": 3}}]
        elif name == "locals":
            spec["locals"] = part
        elif name in ("name", "namespace"):
            cfg[name] = e
        elif name in ("resource", "patch"):
            spec["resource"] = {"spec": {"x": 1, "p": part}}
        elif name == "template":
            del spec["resource"]
            spec["resourceTemplateRef"] = {"name": e}
        elif name == "skipIf":
            spec["overlays"] = [{"overlay": {"spec": {"o": 1}}}, {"skipIf": e, "overlay": {"spec": {"o": 2}}}]
        elif name == "overlay":
            spec["overlays"] = [{"overlay": {"spec": {"o": part}}}, {"overlay": {"spec": {"q": 2}}}]
        elif name in ("overlay2", "patch-overlay"):
            spec["overlays"] = [{"overlay": {"spec": {"o": 1}}}, {"overlay": {"metadata": {"labels": part}}}]
        elif name.startswith("ref-"):
            ovf = {"return": {"spec": {"o": 1}}}
            ref = {"overlayRef": {"kind": "ValueFunction", "name": "ovf"}, "inputs": {"m": "=inputs.m", "l": "=inputs.l",
                                                                                     "n": "=inputs.n", "zero": "=inputs.zero"}}
            if name == "ref-inputs":
                ref["inputs"] = part
            elif name == "ref-locals":
                ovf["locals"] = part
            elif name == "ref-return":
                ovf["return"] = {"spec": {"o": part}}
            else:
                ovf["preconditions"] = [{"assert": e, "skip": {"message": "chosen"}}]
            await offer("ValueFunction", "ovf", ovf)
            spec["overlays"] = [ref]
        elif name == "create":
            spec["create"] = {"overlay": {"spec": {"c": part}}}
        elif name == "post":
            spec["postconditions"] = [{"assert": e, "permFail": {"message": "chosen"}}]
        elif name == "post-message":
            spec["postconditions"] = [{"assert": "=false", "retry": {"message": e, "delay": 3}}]
        elif name == "return":
            spec["return"] = part
        fn = await offer("ResourceFunction", "fn", spec)

        async def run(inputs):
            cluster = Cluster()
            if name in ("post", "post-message", "return", "patch", "patch-overlay"):
                obj = krm.forced()
                obj["spec"] = {"x": 1 if name in ("post", "post-message", "return") else 2}
                obj["metadata"]["ownerReferences"] = [defs.owner_ref()]
                cluster.put(defs.NS_PLURAL, obj, namespace="ns1")
            out, _ = await defs.run_rf(cluster, fn, inputs)
            return {"outcome": out, "log": cluster.log}
        return run
    name = site[3:]
    await offer("ValueFunction", "ident", IDENT)
    wf_expr = e
    step = {"ref": {"kind": "ValueFunction", "name": "ident"}, "label": "one", "state": {"s": "=value"},
            "condition": {"type": "StepOne", "name": "step one"}}
    steps = [step]
    # sites outside a function see `parent`/`steps`/`value`, not `inputs`
    def swap(value):
        if isinstance(value, dict):
            return {k: swap(v) for k, v in value.items()}
        if isinstance(value, list):
            return [swap(v) for v in value]
        return value.replace("inputs", "value.got" if name == "state" else "parent") if isinstance(value, str) else value
    if name in ("inputs", "dep-inputs"):
        step["inputs"] = swap(part)
    elif name in ("skipIf", "dep-skipIf"):
        step["skipIf"] = swap(wf_expr)
    elif name in ("itemIn", "dep-itemIn"):
        step["forEach"] = {"itemIn": swap(wf_expr), "inputKey": "item"}
    elif name == "switchOn":
        del step["ref"]
        step["inputs"] = {"m": "=parent.m", "l": "=parent.l", "n": "=parent.n", "zero": "=parent.zero"}
        step["refSwitch"] = {"switchOn": e, "cases": [
            {"case": "xx", "kind": "ValueFunction", "name": "ident"},
            {"case": "other", "kind": "ValueFunction", "name": "ident", "default": True}]}
    elif name == "case":
        await offer("ValueFunction", "fails", {"return": part})
        del step["ref"]
        step["inputs"] = {"m": "=parent.m", "l": "=parent.l", "n": "=parent.n", "zero": "=parent.zero"}
        step["refSwitch"] = {"switchOn": "='xx'", "cases": [
            {"case": "xx", "kind": "ValueFunction", "name": "fails"},
            {"case": "other", "kind": "ValueFunction", "name": "ident", "default": True}]}
    elif name == "state":
        step["inputs"] = {"m": "=parent.m", "l": "=parent.l", "n": "=parent.n", "zero": "=parent.zero"}
        step["state"] = swap(part)
    elif name in ("logic", "each"):
        await offer("ValueFunction", "fails", {"return": part})
        step["ref"]["name"] = "fails"
        step["inputs"] = {"m": "=parent.m", "l": "=parent.l", "n": "=parent.n", "zero": "=parent.zero"}
        if name == "each":
            step["forEach"] = {"itemIn": "=['a', 'b']", "inputKey": "item"}
    elif name == "sub":
        await offer("Workflow", "inner", {"steps": [
            {"ref": {"kind": "ValueFunction", "name": "ident"}, "label": "inr", "inputs": swap(part),
             "state": {"got": "=value.got"}}]})
        step["ref"] = {"kind": "Workflow", "name": "inner"}
        step["inputs"] = {"m": "=parent.m", "l": "=parent.l", "n": "=parent.n", "zero": "=parent.zero"}
    if name.startswith("dep-"):
        steps.insert(0, {"ref": {"kind": "ValueFunction", "name": "ident"}, "label": "zero"})
        step.setdefault("inputs", {})["dep"] = "=steps.zero.got"
    wf = await offer("Workflow", "wf", {"steps": steps})

    async def run(inputs):
        cluster = Cluster()
        res = await defs.run_wf(cluster, wf, inputs)
        return {"outcome": res.result, "state": res.state, "state_errors": res.state_errors, "log": cluster.log,
                "conditions": [c for c in res.conditions]}
    return run


INPUTS = {"m": {"a": 1}, "l": [1, 2], "n": 5, "zero": 0}
LEAKS = ("CELEvalError", "ZeroDivisionError", "<class '", "no such overload", "Traceback")


def text_leaks(value):
    """Error text inside data."""
    if isinstance(value, dict):
        return any(text_leaks(k) or text_leaks(v) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return any(text_leaks(v) for v in value)
    return isinstance(value, str) and any(x in value for x in LEAKS)


def leak(result, text=True):
    """Error object, or its text, in anything returned, published or sent."""
    places = {"state": result.get("state")}
    if defs.outcome_class(result["outcome"]) == "Ok":
        places["value"] = result["outcome"]
    for call in result.get("log") or ():
        if call.op in ("POST", "PATCH"):
            places[call.op] = call.payload
    for where, value in places.items():
        if defs.has_error_object(value):
            return f"{where} contains an error object: {value!r}"
        if text and text_leaks(defs.uncel(value)):
            return f"{where} contains error text: {value!r}"
    return None


def judge_failure(site, result):
    if why := leak(result):
        return why
    out = result["outcome"]
    calls = [c.op for c in result.get("log") or ()]
    if any(op != "GET" for op in calls):
        return f"calls were made: {calls}"
    if site in ("rf.assert", "rf.message", "rf.locals", "rf.name", "rf.namespace") and calls:
        return f"calls were made: {calls}"
    if site == "wf.state":
        if not result["state_errors"].get("one"):
            return f"the failing state is not reported: {result['state_errors']}, state {result['state']!r}"
        return None
    if defs.outcome_class(out) != "PermFail":
        return f"outcome is {defs.outcome(out)}"
    if SITES[site] not in f"{out.message} {out.location}":
        return f"PermFail does not name {SITES[site]!r}: {defs.outcome(out)}"
    if site.startswith("wf."):
        bad = [c for c in result["conditions"] if c["reason"] == "Ready"]
        if bad and not site.startswith("wf.dep"):
            return f"condition Ready although the step failed: {bad}"
    return None


def check(stats, case):
    site = case["site"]
    if case.get("mode") == "recover":
        return recover(stats, case)
    if case.get("mode") == "odd":
        return odd(stats, case)
    position = case.get("position", "value")
    for expr in case["exprs"]:
        stats.state([site, position, expr])
        stats.evaluated()
        defs.fresh()
        one = {**case, "exprs": [expr]}
        try:
            run = loop.run(lambda: build(site, expr, position))
        except Refused as why:
            stats.problem(f"{site} {expr!r}: {why}", one)
            continue
        try:
            result = loop.run(lambda: run(INPUTS))
        except Exception as err:
            stats.problem(f"{site}: {type(err).__name__} escaped for {expr!r}: {str(err)[:200]}", one)
            continue
        stats.trace()
        stats.step()
        if why := judge_failure(site, result):
            stats.problem(f"{site} {position}: {expr[:200]!r}: {why[:400]}", one)
    stats.sample({"site": site, "position": position, "exprs": case["exprs"][:2]})


def healthy(site, result):
    """Outcome with an expression that evaluates."""
    cls = defs.outcome_class(result["outcome"])
    return cls


def recover(stats, case):
    """good, bad, good inputs on one definition: failures depend on this run only."""
    site = case["site"]
    expr = {"skipIf": "10 / inputs.zero == 77", "assert": "10 / inputs.zero == 10", "post": "10 / inputs.zero == 10",
            "name": "'thing' + to_json(10 / inputs.zero - 10)", "namespace": "10 / inputs.zero == 10 ? 'ns1' : 'ns2'",
            "message": "'m' + to_json(10 / inputs.zero)", "post-message": "'m' + to_json(10 / inputs.zero)",
            "template": "10 / inputs.zero == 10 ? 'tpl' : 'x'", "itemIn": "[10 / inputs.zero]",
            "switchOn": "10 / inputs.zero == 10 ? 'xx' : 'z'", "ref-assert": "10 / inputs.zero == 10",
            "dep-skipIf": "10 / inputs.zero == 77", "dep-itemIn": "[10 / inputs.zero]"}.get(site[3:], "10 / inputs.zero")
    for position in POSITIONS if site in STRUCTURED else ["value"]:
        defs.fresh()
        loop.run(lambda: offer("ResourceTemplate", "tpl", {"template": {
            "apiVersion": defs.VERSION, "kind": defs.NS_KIND, "spec": {"x": 1}}}))
        run = loop.run(lambda: build(site, expr, position))
        seen = []
        for zero in (1, 0, 1, 0, 0, 1):
            result = loop.run(lambda: run({**INPUTS, "zero": zero}))
            stats.trace()
            stats.step()
            stats.state([site, position, "recover", len(seen)])
            stats.evaluated()
            why = None
            if zero == 0:
                why = judge_failure(site, result)
            else:
                if defs.outcome_class(result["outcome"]) == "PermFail":
                    why = f"outcome is {defs.outcome(result['outcome'])} although nothing fails"
                elif result.get("state_errors"):
                    why = f"state errors {result['state_errors']} although nothing fails"
                else:
                    why = leak(result)
                described = repr([defs.outcome(result["outcome"]), defs.uncel(result.get("state")),
                                  [(c.op, c.payload) for c in result.get("log") or ()]])
                if why is None and seen and seen[0] != described:
                    why = f"an earlier failure changed the result: {described} was {seen[0]}"
                seen.append(described)
            if why:
                stats.problem(f"{site} {position} zero={zero}: {why[:500]}", case)
                return


def odd(stats, case):
    """Values of unexpected types never crash or leak, whatever the outcome."""
    site = case["site"]
    for expr in ODD:
        for position in POSITIONS if site in STRUCTURED and THOROUGH else ["value"]:
            stats.state([site, position, expr])
            stats.evaluated()
            defs.fresh()
            if case.get("expr", expr) != expr:
                continue
            one = {**case, "expr": expr}
            try:
                run = loop.run(lambda: build(site, expr, position))
                result = loop.run(lambda: run(INPUTS))
            except Refused as why:
                stats.problem(f"{site} {expr!r}: {why}", one)
            except Exception as err:
                stats.problem(f"{site}: {type(err).__name__} escaped for {expr!r}: {str(err)[:200]}", one)
                continue
            stats.trace()
            stats.step()
            if why := leak(result, text=False):
                stats.problem(f"{site}: {expr!r}: {why[:400]}", one)
