"""C18 FunctionTest cases chain; variant and skipped cases leave no trace."""
import copy
import itertools
import json
import re

from .. import defs, krm, loop
from ..cluster import Cluster, merge_patch, plain
from ..report import THOROUGH

LEVEL = "model_checking"
RULE = (
    "every sequence of test cases up to the length bound over a case alphabet (actions: none, input overrides "
    "flat/nested/new/failing, replaced resource, static/computed/failing overlays and combinations; assertions of "
    "all four kinds, passing or failing; plain, variant, skip and both), and every pair of cases repeated up to 20 "
    "cases, for every function under test and base fixture, run by the real runner. Oracle: a chain model whose "
    "single steps run the real function (no runner involved) on an in-memory API server. Moreover the whole result "
    "of a case (verdict, outcome, message, differences) must be the same in every explored sequence which has the "
    "same passing non-variant cases before it; the prepared test is unchanged and gives the same results when run "
    "again, and the function under test then behaves as one that was never tested. A state is a distinct (function, "
    "inputs, resource), a transition one executed test case."
)
ASSUMPTIONS = [
    "a sequence is judged up to its first failing non-variant case",
    "patches in the alphabet carry the same members as the live object below every top-level key they set, so that "
    "replacing or merging below the top level make no difference",
    "`currentResource: {}` and a case with both currentResource and overlayResource are not used",
]

BASE_INPUTS = {"v": 1, "s": "x", "flag": True, "n": {"a": 1, "b": [1, {"c": 2.5}]}}
PRE = [
    {"assert": "=inputs.v != 99", "skip": {"message": "ninety-nine"}},
    {"assert": "=inputs.v != 98", "retry": {"message": "ninety-eight", "delay": 17}},
]
BODY = {"spec": {"v": "=inputs.v", "a": "=inputs.n.a", "on": "=inputs.flag", "keep": {"deep": [1, {"x": "y"}]}}}
RETURN = {"whole": "=resource", "spec": "=resource.spec", "ins": "=inputs", "st": "=has(resource.status) ? resource.status : {}"}
VF_TEMPLATE = {"return": {"spec": {"v": "=inputs.v"}}}

FUTS = {
    "vf": ("ValueFunction", {"preconditions": PRE, "locals": {"w": "=inputs.v"},
                             "return": {"v": "=locals.w", "ins": "=inputs", "spec": {"fromReturn": "=inputs.n.a"}}}),
    "vf-none": ("ValueFunction", {"preconditions": PRE}),
    "patch": ("ResourceFunction", {"preconditions": PRE, "apiConfig": defs.api_config(), "resource": BODY,
                                   "postconditions": [{"assert": "=resource.spec.a != 13",
                                                       "permFail": {"message": "=\"thirteen \" + inputs.s"}}],
                                   "return": RETURN}),
    "recreate": ("ResourceFunction", {"apiConfig": defs.api_config(), "resource": BODY,
                                      "update": {"recreate": {"delay": 11}}, "return": RETURN}),
    "never": ("ResourceFunction", {"apiConfig": defs.api_config(), "resource": BODY,
                                   "create": {"delay": 13, "overlay": {"spec": {"onCreate": "=inputs.v"}}},
                                   "update": {"never": {}}, "return": RETURN}),
    "delete": ("ResourceFunction", {"apiConfig": defs.api_config(deleteIfExists=True), "resource": BODY,
                                    "return": {"ins": "=inputs"}}),
    "readonly": ("ResourceFunction", {"apiConfig": defs.api_config(readonly=True), "resource": {},
                                      "return": RETURN}),
    "lookup": ("ResourceFunction", {"apiConfig": defs.lookup_config(), "resource": BODY, "return": RETURN}),
    "template": ("ResourceFunction", {
        "apiConfig": defs.api_config(name="=inputs.s", namespace=None, cluster_scoped=True),
        "resourceTemplateRef": {"name": "='tmpl-' + inputs.s"},
        "overlays": [{"overlay": {"spec": {"a": "=inputs.n.a"}}},
                     {"overlayRef": {"kind": "ValueFunction", "name": "over"}, "skipIf": "=inputs.v == 2"}],
        "update": {"patch": {"delay": 19}}, "return": RETURN}),
    "no-create": ("ResourceFunction", {"apiConfig": defs.api_config(), "resource": BODY,
                                       "create": {"enabled": False}, "return": RETURN}),
}
HELPERS = [
    ("ValueFunction", "over", {"return": {"spec": {"v": "=inputs.v", "on": "=resource.spec.on"}}}),
    ("ResourceTemplate", "tmpl-x", {"template": {
        "apiVersion": defs.VERSION, "kind": defs.CL_KIND,
        "spec": {"v": 0, "a": 0, "on": True, "keep": {"deep": [1, {"x": "y"}]}}}}),
]


def live(short, **spec):
    cfg = FUTS[short][1].get("apiConfig") if short in FUTS else None
    md = {"name": "thing", "namespace": "ns1"}
    kind = defs.NS_KIND
    if cfg and cfg.get("namespaced") is False:
        md, kind = {"name": "x"}, defs.CL_KIND
    elif cfg:
        kind = cfg["kind"]
    body = {"v": 1, "a": 1, "on": True, "keep": {"deep": [1, {"x": "y"}]}}
    body.update(spec)
    return {"apiVersion": defs.VERSION, "kind": kind, "metadata": md, "spec": body}


# name -> (input overrides, currentResource spec or None, overlay or None)
ACTIONS = {
    "-": (None, None, None),
    "v2": ({"v": 2}, None, None),
    "v99": ({"v": 99}, None, None),
    "v98": ({"v": 98}, None, None),
    "na": ({"n": {"a": 13}}, None, None),
    "new": ({"extra": {"k": [True, {"z": "9"}]}, "s": "x"}, None, None),
    "odd": ({"n": [1]}, None, None),
    "cur": (None, {"v": 77}, None),
    "same": (None, {}, None),
    "ov": (None, None, {"spec": {"v": 42}}),
    "ovst": (None, None, {"status": {"ok": True, "deep": {"n": 1}}}),
    "ovx": (None, None, {"spec": {"a": "=6 + 1"}, "status": {"s": "='p' + 'q'", "l": "=[1, 2].map(x, {'k': x > 1})"}}),
    "ovbad": (None, None, {"spec": {"v": "=1/0"}}),
    "v2+ov": ({"v": 2}, None, {"spec": {"v": 2}}),
    "na+cur": ({"n": {"a": 5}}, {"v": 3, "a": 6}, None),
}
CORE = (
    [(a, "auto", "") for a in ("-", "v2", "na", "cur", "ov", "ovx")]
    + [(a, "auto", "v") for a in ("-", "v2", "new", "cur", "ov", "v2+ov")]
    + [("na", "no", "v"), ("cur", "auto", "s"), ("v2", "auto", "vs"), ("-", "no", "")]
)
SMALL = ([(a, "auto", "") for a in ("-", "v2", "cur", "ov")]
         + [(a, "auto", "v") for a in ("-", "na", "cur", "ov")] + [("v2", "auto", "s")])
FULL = (
    [(a, "auto", m) for a in ACTIONS for m in ("", "v")]
    + [(a, "out", "") for a in ("-", "v2", "cur", "ov")]
    + [(a, "del", m) for a in ("-", "v2", "cur") for m in ("", "v")]
    + [(a, "no", m) for a in ("-", "na", "cur", "ov") for m in ("", "v")]
    + [(a, x, m) for a in ("v2", "cur", "ov", "ovbad") for x in ("auto", "no") for m in ("s", "vs")]
)
INITIAL = ("absent", "live", "none")  # "none": no base inputs either


def bounds():
    return {"functions": sorted(FUTS), "base_fixtures": INITIAL, "cases": len(FULL),
            "length_full_alphabet": 2, "length_core_alphabet": 4 if THOROUGH else 3,
            "core_cases": len(CORE), "length_small_alphabet": 5 if THOROUGH else 4,
            "small_cases": len(SMALL), "long_sequences": 20}


QUICK3 = ("vf", "patch", "template")
QUICK4 = ("patch",)


def cases():
    """The deepest sequences come last, should the time run out."""
    order = ("probe", "full", "core", "long", "small")
    return sorted(all_cases(), key=lambda c: order.index(c["mode"]))


def all_cases():
    for fut in FUTS:
        for init in INITIAL:
            for i in range(len(FULL)):
                yield {"fut": fut, "init": init, "mode": "full", "head": [FULL[i]]}
            if THOROUGH or (fut in QUICK3 and init == "live") or (fut == "patch" and init == "absent"):
                for i in range(len(CORE)):
                    yield {"fut": fut, "init": init, "mode": "core", "head": [CORE[i]]}
            if init != "none" and (THOROUGH or (fut in QUICK4 and init == "live")):
                for a, b in itertools.product(SMALL, SMALL):
                    yield {"fut": fut, "init": init, "mode": "small", "head": [a, b]}
            if init == "live" or THOROUGH:
                for i in range(len(CORE)):
                    yield {"fut": fut, "init": init, "mode": "long", "head": [CORE[i]]}
        yield {"fut": fut, "mode": "probe", "init": "live"}
        yield {"fut": fut, "mode": "probe", "init": "absent"}


def tails(case):
    mode = case["mode"]
    head = [tuple(x) for x in case["head"]]
    if case.get("whole"):
        yield head
    elif mode == "full":
        yield head
        for b in FULL:
            yield head + [b]
    elif mode == "core":
        for n in range(2, bounds()["length_core_alphabet"]):
            for t in itertools.product(CORE, repeat=n):
                yield head + list(t)
    elif mode == "small":
        for n in range(1, bounds()["length_small_alphabet"] - 1):
            for t in itertools.product(SMALL, repeat=n):
                yield head + list(t)
    elif mode == "long":
        for b in CORE:
            yield (head + [b]) * 10
            yield head + [b] * 19
            yield [b] * 18 + head + [b]


# ---------------------------------------------------------------- chain model

def overlaid(base, over):
    """Input overrides: maps merge, everything else is replaced."""
    out = copy.deepcopy(base)
    for k, v in over.items():
        if isinstance(v, dict) and isinstance(out.get(k), dict):
            out[k] = overlaid(out[k], v)
        else:
            out[k] = copy.deepcopy(v)
    return out


COMPUTED = {"=6 + 1": 7, "='p' + 'q'": "pq", "=[1, 2].map(x, {'k': x > 1})": [{"k": False}, {"k": True}]}


def apply_overlay(resource, over):
    """The overlays of the alphabet; None when its evaluation fails."""
    def value(x):
        return COMPUTED[x] if isinstance(x, str) and x.startswith("=") else x

    def walk(base, node):
        out = copy.deepcopy(base) if isinstance(base, dict) else {}
        for k, v in node.items():
            out[k] = walk(out.get(k), v) if isinstance(v, dict) else value(v)
        return out

    try:
        return walk(resource, over)
    except KeyError:
        return None


def without_la(obj):
    obj = copy.deepcopy(obj)
    ann = obj.get("metadata", {}).get("annotations")
    if ann:
        ann.pop(krm.LA, None)
        if not ann:
            del obj["metadata"]["annotations"]
    return obj


class World:
    """One function under test, with its oracle memo."""

    def __init__(self, fut):
        self.fut = fut
        self.kind, self.spec = FUTS[fut]
        self.memo = {}
        self.seen = {}

    async def offer(self):
        defs.fresh()
        for kind, name, spec in HELPERS:
            await defs.offer(kind, name, spec)
        return await defs.offer(self.kind, "fut", self.spec)

    async def real(self, function, inputs, resource):
        """What the function does with these inputs and this resource."""
        if self.kind == "ValueFunction":
            base = defs.cel(resource) if resource else defs.cel({})
            return defs.outcome(await defs.run_vf(function, inputs, base)), None, False, resource
        cluster = Cluster()
        cluster.lookups[defs.LK_KIND] = defs.LK_PLURAL
        cfg = self.spec["apiConfig"]
        ns = None if cfg.get("namespaced") is False else cfg["namespace"]
        plural = cfg.get("plural", defs.LK_PLURAL)
        if resource:
            cluster.put(plural, resource, ns)
        out, _ = await defs.run_rf(cluster, function, inputs, owner_ns="elsewhere")
        wrote = cluster.mutations()
        if not wrote:
            return defs.outcome(out), None, False, resource
        call = wrote[0]
        if call.op == "DELETE":
            return defs.outcome(out), None, True, None
        payload = plain(call.payload)
        after = payload if call.op == "POST" else merge_patch(resource, payload)
        return defs.outcome(out), after, False, after

    async def step(self, function, state, action):
        """-> (outcome | 'setup' | 'missing', sent, deleted, next state)"""
        key = json.dumps([state, action], sort_keys=True)
        if key not in self.memo:
            self.memo[key] = await self._step(function, state, action)
        return copy.deepcopy(self.memo[key])

    async def _step(self, function, state, action):
        over, cur, layer = ACTIONS[action]
        inputs, resource = copy.deepcopy(state)
        if over is not None:
            inputs = overlaid(inputs, over)
        if layer is not None:
            if not resource:
                return "missing", None, False, state
            resource = apply_overlay(resource, layer)
            if resource is None:
                return "setup", None, False, state
        elif cur is not None:
            resource = live(self.fut, **cur)
        out, sent, deleted, after = await self.real(function, inputs, resource)
        return out, sent, deleted, [inputs, after]


def assertion(kind, how, out, sent, deleted):
    """An assertion for this behaviour: (spec, holds)."""
    if how == "no" or out in ("setup", "missing"):
        return {"expectOutcome": {"depSkip": {"message": "never said"}}}, False
    if how == "del" and kind == "ResourceFunction":
        return {"expectDelete": deleted}, True
    if how == "auto":
        if sent is not None:
            return {"expectResource": without_la(sent)}, True
        if deleted:
            return {"expectDelete": True}, True
        if out["class"] == "Ok" and isinstance(out["value"], dict) and out["value"]:
            return {"expectReturn": out["value"]}, True
    cls = out["class"]
    if cls == "Ok":
        return {"expectOutcome": {"ok": {}}}, True
    word = {"Retry": "retry", "Skip": "skip", "PermFail": "permFail", "DepSkip": "depSkip"}[cls]
    body = {"message": (out["message"] or "")[:12]}
    if cls == "Retry":
        body["delay"] = out["delay"]
    return {"expectOutcome": {word: body}}, True


def fixture(fut, init):
    spec = {"functionRef": {"kind": FUTS[fut][0], "name": "fut"}}
    if init != "none":
        spec["inputs"] = copy.deepcopy(BASE_INPUTS)
    if init == "live":
        spec["currentResource"] = live(fut)
    return spec, [copy.deepcopy(spec.get("inputs", {})), copy.deepcopy(spec.get("currentResource"))]


async def build(world, function, init, letters):
    """-> (FunctionTest spec, expectation per case, judged length)."""
    spec, state = fixture(world.fut, init)
    rows, expect = [], []
    history = []
    for action, how, mode in letters:
        over, cur, layer = ACTIONS[action]
        row = {"label": f"{action} {how} {mode}"}
        if over is not None:
            row["inputOverrides"] = copy.deepcopy(over)
        if cur is not None:
            row["currentResource"] = live(world.fut, **cur)
        if layer is not None:
            row["overlayResource"] = copy.deepcopy(layer)
        if "v" in mode:
            row["variant"] = True
        if "s" in mode:
            row["skip"] = True
        if "s" in mode:
            # what a skipped case asserts or does can not matter
            row["expectOutcome"] = {"depSkip": {"message": "never said"}}
            if how == "auto":
                row["expectOutcome"] = {"ok": {}}
            rows.append(row)
            expect.append(("skip", True, None, (world.fut, init, "skip", action, how, mode)))
            continue
        out, sent, deleted, after = await world.step(function, state, action)
        claim, holds = assertion(world.kind, how, out, sent, deleted)
        row.update(claim)
        rows.append(row)
        expect.append(("run", holds, out, (world.fut, init, tuple(history), action, how, mode)))
        if "v" not in mode:
            if not holds:
                break
            state = after
            history.append((action, how))
    # what follows the failing case is there, but must not run
    stop = len(rows)
    for action, how, mode in letters[len(rows):]:
        rows.append({"label": "after the end", "expectOutcome": {"ok": {}}})
    spec["testCases"] = rows
    return spec, expect, stop, state


LOC = re.compile(r"loc(\.testCases\[\d+\])?")


def tidy(text):
    return LOC.sub("LOC", text) if isinstance(text, str) else text


def shown(out):
    out = dict(out)
    out.pop("location", None)
    if "message" in out:
        out["message"] = tidy(out["message"])
    return out


def norm(value):
    if isinstance(value, dict):
        return {str(k): norm(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [norm(v) for v in value]
    return tidy(value) if isinstance(value, str) else (value if value is None else str(value))


def whole(result):
    """Everything a user sees of a test case's result."""
    return json.dumps([
        result.test_pass, norm(result.message), norm(result.differences), result.label,
        None if result.outcome is None else shown(defs.outcome(result.outcome)),
        None if result.expected_outcome is None else shown(expected(result.expected_outcome)),
    ], sort_keys=True, default=str)


def expected(value):
    out = defs.outcome(value) if not hasattr(value, "data") else {"class": "Ok", "value": defs.uncel(value.data)}
    return out


def fixtures_of(test):
    return json.dumps([
        defs.uncel(getattr(test, "inputs", None)), defs.uncel(getattr(test, "initial_resource", None)),
        [[defs.uncel(getattr(c, "input_overrides", None)), defs.uncel(getattr(c, "current_resource", None)),
          repr(getattr(c, "assertion", None)) if not isinstance(getattr(c, "assertion", None), tuple)
          else [defs.uncel(x) if not hasattr(x, "message") else shown(defs.outcome(x)) for x in c.assertion]]
         for c in (getattr(test, "test_cases", None) or ())],
    ], sort_keys=True, default=str)


async def run(stats, world, function, init, letters, twice):
    spec, expect, stop, final = await build(world, function, init, letters)
    prepared = await defs.prepare("FunctionTest", "test", spec)
    if not isinstance(prepared, tuple):
        return f"{world.fut} {init} {letters}: not prepared: {defs.outcome(prepared)}"
    test = prepared[0]
    before = fixtures_of(test)
    ref = f"{world.fut}, base {init}, cases {[' '.join(x) for x in letters]}"
    for attempt in range(2 if twice else 1):
        got = await defs.run_function_test("loc", test)
        results = got.test_results
        stats.step(stop)
        stuck = [i for i, (m, e) in enumerate(zip(letters, expect)) if "v" in m[2] and e[2] == "missing"]
        if stuck and len(results) == stuck[0] + 1 < stop:
            stats.problem(f"{ref}: only {len(results)} cases ran", {
                "fut": world.fut, "init": init, "mode": "full", "head": [list(x) for x in letters], "whole": True},
                key="variant case which overlays a missing resource")
        elif len(results) != stop:
            return (f"{ref}: {len(results)} cases ran, {stop} should have"
                    + (" (second run of the same test)" if attempt else ""))
        for i, (r, (what, holds, out, key)) in enumerate(zip(results, expect)):
            stats.evaluated()
            where = f"{ref}: case {i + 1} ({' '.join(letters[i])})" + (
                " in the second run of the same test" if attempt else "")
            if bool(r.test_pass) != holds:
                return f"{where}: test_pass is {r.test_pass}, should be {holds}; {r.message!r} {r.differences!r}"
            if what == "run" and out not in ("setup", "missing"):
                have = None if r.outcome is None else shown(defs.outcome(r.outcome))
                if have is None:
                    have = {"class": "Ok", "value": None}
                if have != shown(out):
                    return f"{where}: gave {have}, from the state before it: {shown(out)}"
            seen = whole(r)
            if world.seen.setdefault(key, seen) != seen:
                return (f"{where}: result {seen} differs from {world.seen[key]}, which it has elsewhere "
                        "after the same non-variant cases")
    after = fixtures_of(test)
    if before != after:
        return f"{ref}: the prepared test was modified: {before} -> {after}"
    stats.state([world.fut, final])
    stats.sample({"function": world.fut, "base": init, "cases": [list(x) for x in letters]})
    return None


async def probes(world, function):
    """Behaviour of the function on its own, without any test."""
    out = []
    for resource in (None, live(world.fut), live(world.fut, v=5)):
        for inputs in (BASE_INPUTS, overlaid(BASE_INPUTS, {"v": 2}), overlaid(BASE_INPUTS, {"v": 99})):
            if world.kind == "ValueFunction":
                base = defs.cel(resource) if resource else None
                out.append(defs.outcome(await defs.run_vf(function, inputs, base)))
                continue
            cluster = Cluster()
            cluster.lookups[defs.LK_KIND] = defs.LK_PLURAL
            if resource:
                cfg = world.spec["apiConfig"]
                cluster.put(cfg.get("plural", defs.LK_PLURAL), resource,
                            None if cfg.get("namespaced") is False else cfg["namespace"])
            got, ids = await defs.run_rf(cluster, function, inputs, owner_ns="ns1")
            out.append([defs.outcome(got), ids, [
                [c.op, c.version, c.plural, c.namespace, c.name, plain(c.payload)] for c in cluster.log
                if c.op != "LOOKUP"]])
    return json.loads(json.dumps(out, default=str))


def check(stats, case):
    world = World(case["fut"])

    async def go():
        if case["mode"] == "probe":
            return await probe(stats, world, case)
        function = await world.offer()
        init = case["init"]
        for letters in tails(case):
            twice = case.get("whole") or case["mode"] == "full" and (THOROUGH or init == "live" or len(letters) < 2)
            bad = await run(stats, world, function, init, letters, twice)
            stats.trace()
            if bad:
                stats.problem(bad, {**case, "mode": "full", "head": [list(x) for x in letters], "whole": True})
                return

    loop.run(go, max_turns=10**9)


async def probe(stats, world, case):
    function = await world.offer()
    want = await probes(world, function)
    for letter in FULL:
        # the oracle's steps run the function for real, so they use their own copy
        oracle = World(world.fut)
        function = await oracle.offer()
        built = await build(oracle, function, case["init"], [letter, ("-", "auto", "v")])
        function = await world.offer()
        test = await defs.prepare("FunctionTest", "test", built[0])
        await defs.run_function_test("loc", test[0])
        stats.step(2)
        got = await probes(world, function)
        stats.evaluated()
        if got != want:
            diff = [f"{a} -> {b}" for a, b in zip(want, got) if a != b]
            key = None
            if world.fut == "lookup" and got == await spoiled(world):
                key = "plural looked up in a test"
            stats.problem(
                f"{world.fut}: after a test of case {' '.join(letter)} the function behaves differently: {diff[:1]}",
                case, key=key)
            if not key:
                return
    stats.trace()


async def spoiled(world):
    """The function's behaviour with the plural a test makes up for it."""
    spec = copy.deepcopy(world.spec)
    spec["apiConfig"]["plural"] = f"{defs.LK_KIND}.{defs.VERSION}".lower()
    defs.fresh()
    for kind, name, helper in HELPERS:
        await defs.offer(kind, name, helper)
    return await probes(world, await defs.offer(world.kind, "fut", spec))
