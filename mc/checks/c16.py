"""C16 Hot reload coherence: histories x placements against loop turns."""
import asyncio
import itertools

from .. import env, defs, loop
from ..cluster import Cluster
from ..env import cache, registry
from ..report import THOROUGH, heartbeat
from koreo import result as R

LEVEL = "model_checking"
RULE = (
    "every history of offer/delete operations up to the length bound over resources "
    "with chain, diamond and changing dependencies, from several starting "
    "populations, with every placement of each operation relative to event-loop "
    "turns (awaited inline or spawned as a task, 0..3 turns before the next one), "
    "then run to quiescence of the loop; each cached entry is compared with what its "
    "latest spec must have observed of every dependency's *current* entry, then "
    "probed by re-offering and deleting the roots. Histories over the five real "
    "kinds are compared with a cache built from scratch from the same final specs. "
    "A state is a distinct (cached versions, subscription edges) at quiescence; a "
    "transition is one operation or one re-preparation."
)
ASSUMPTIONS = [
    "preparers complete without suspending, as all five real prepare functions do "
    "(preparers which suspend are explored for re-preparations with unchanged dependencies)",
    "the monotonic clock strictly increases between two readings",
    "declared dependencies are acyclic (cycles are refused by the registry: C17)",
]

GAPS = [("await", 0), ("await", 1), ("await", 2), ("await", 3), ("spawn", 0), ("spawn", 2)]
FEW_GAPS = [("await", 0), ("await", 1), ("await", 2)]


class KA: ...
class KB: ...


CLS = {"A": KA, "B": KB, "C": KB, "D": KA}

# offers: (name, behaviour, deps)
ALPHA = [
    ("offer", "A", "ok", ""), ("offer", "A", "fail", ""),
    ("offer", "B", "ok", "A"), ("offer", "B", "ok", ""), ("offer", "B", "fail", "A"),
    ("offer", "C", "ok", "B"), ("offer", "C", "ok", "AB"), ("offer", "C", "ok", ""),
    ("delete", "A"), ("delete", "B"), ("delete", "C"),
]
REACTIVE = [  # dependents whose outcome or dependencies follow what they read
    ("offer", "A", "ok", ""), ("offer", "A", "fail", ""), ("offer", "D", "ok", ""),
    ("offer", "B", "brittle", "A"), ("offer", "B", "follow", "A"),
    ("offer", "C", "brittle", "B"), ("delete", "A"), ("delete", "B"), ("delete", "D"),
]
CORE = [
    ("offer", "A", "ok", ""), ("offer", "B", "ok", "A"), ("offer", "B", "fail", "A"),
    ("offer", "C", "ok", "B"), ("delete", "A"), ("delete", "B"), ("delete", "C"),
]
STARTS = {
    "empty": [],
    "chain": [("offer", "A", "ok", ""), ("offer", "B", "ok", "A"), ("offer", "C", "ok", "B")],
    "diamond": [("offer", "D", "ok", ""), ("offer", "A", "ok", "D"), ("offer", "B", "ok", "D"),
                ("offer", "C", "ok", "AB")],
    "reversed": [("offer", "C", "ok", "B"), ("offer", "B", "ok", "A"), ("offer", "A", "ok", "")],
    "brittle": [("offer", "A", "ok", ""), ("offer", "B", "brittle", "A"), ("offer", "C", "ok", "B")],
    "follow": [("offer", "A", "fail", ""), ("offer", "B", "follow", "A"), ("offer", "C", "brittle", "B"),
               ("offer", "D", "ok", "")],
}
SLOW = {  # population -> operations on its roots
    "chain": [("offer", "A", "ok", ""), ("offer", "A", "fail", ""), ("delete", "A")],
    "diamond": [("offer", "D", "ok", ""), ("delete", "D")],
}
SLOW_GAPS = [0, 1, 2, 3, 5]
PACES = [(0, 0), (1, 0), (0, 2)]  # turns before / after reading


def bounds():
    return {
        "history_length_wide": 3,
        "history_length_core": 5 if THOROUGH else 4,
        "placements": len(GAPS), "placements_core": len(FEW_GAPS),
        "starting_populations": len(STARTS),
        "slow_history_length": 4 if THOROUGH else 3, "preparer_turns": 2,
        "real_kinds_history_length": 3 if THOROUGH else 2,
    }


REAL_OPS = (
    [("offer", "vf", s) for s in ("v1", "v2", "bad")] + [("delete", "vf")]
    + [("offer", "rt", s) for s in ("v1", "v2")] + [("delete", "rt")]
    + [("offer", "rf", s) for s in ("inline", "tmpl", "bad")] + [("delete", "rf")]
    + [("offer", "sub", s) for s in ("vf", "rf")] + [("delete", "sub")]
    + [("offer", "wf", s) for s in ("sub", "switch")] + [("delete", "wf")]
    + [("offer", "ft", "t")] + [("offer", "ftv", "t")] + [("delete", "ft")]
)


def cases():
    for start in ("brittle", "follow"):
        for op in REACTIVE:
            for gap in FEW_GAPS:
                yield {"k": "hist", "start": start, "settled": True,
                       "prefix": [[op, gap]], "alpha": "reactive", "len": 3}
    for start in STARTS:
        if start in ("brittle", "follow"):
            continue
        for settled in ((True, False) if start != "empty" else (True,)):
            for op in ALPHA:
                for gap in GAPS:
                    yield {"k": "hist", "start": start, "settled": settled,
                           "prefix": [[op, gap]], "alpha": "wide", "len": 3}
    for start in ("empty", "chain"):
        for op in CORE:
            for gap in FEW_GAPS:
                for op2 in CORE:
                    yield {"k": "hist", "start": start, "settled": True,
                           "prefix": [[op, gap], [op2, ("await", 0)]], "alpha": "core",
                           "len": bounds()["history_length_core"]}
                    yield {"k": "hist", "start": start, "settled": True,
                           "prefix": [[op, gap], [op2, ("await", 1)]], "alpha": "core",
                           "len": bounds()["history_length_core"]}
    for start, alpha in SLOW.items():
        for roots, watchers in itertools.product(PACES, repeat=2):
            for op in alpha:
                for gap in SLOW_GAPS:
                    yield {"k": "slow", "start": start, "paces": [roots, watchers],
                           "prefix": [[op, gap]], "len": bounds()["slow_history_length"]}
    for order in ("forward", "backward"):
        for op in REAL_OPS:
            for gap in FEW_GAPS:
                yield {"k": "real", "order": order, "prefix": [[op, gap]]}


def check(stats, case):
    if case["k"] == "real":
        return check_real(stats, case)
    if case["k"] == "slow":
        return check_slow(stats, case)
    if "whole" in case:
        tails = [()]
    else:
        alpha, gaps = {"wide": (ALPHA, GAPS), "core": (CORE, FEW_GAPS),
                       "reactive": (REACTIVE, FEW_GAPS)}[case["alpha"]]
        n = case["len"] - len(case["prefix"])
        moves = list(itertools.product(alpha, gaps))
        # the placement after the last operation is immaterial
        parts = [moves] * (n - 1) + [[(a, ("await", 0)) for a in alpha]]
        tails = itertools.product(*parts)
    prefix = [(tuple(o), tuple(g)) for o, g in case["prefix"]]
    for tail in tails:
        history = prefix + list(tail)
        bad = one(stats, STARTS[case["start"]], case["settled"], history)
        stats.trace()
        if bad:
            stats.problem(bad, {**case, "prefix": history, "whole": True})
            return
    stats.sample({"start": case["start"], "history": history}, cap=2)
    heartbeat()


class Prepared:
    def __init__(self, name, gen, deps):
        self.name, self.gen, self.deps = name, gen, deps


def check_slow(stats, case):
    """Preparers which suspend; operations on one resource do not overlap."""
    if "whole" in case:
        tails = [()]
    else:
        n = case["len"] - len(case["prefix"])
        alpha = SLOW[case["start"]]
        parts = [list(itertools.product(alpha, SLOW_GAPS))] * (n - 1) + [[(a, 0) for a in alpha]]
        tails = itertools.product(*parts)
    prefix = [(tuple(o), g) for o, g in case["prefix"]]
    for tail in tails:
        history = prefix + list(tail)
        bad = one(stats, STARTS[case["start"]], True,
                  [(op, ("spawn", gap)) for op, gap in history], case["paces"])
        stats.trace()
        if bad:
            stats.problem(f"preparers suspend {case['paces']}: {bad}",
                          {**case, "prefix": history, "whole": True})
            return
    heartbeat()


class World:
    paces = ((0, 0), (0, 0))

    def __init__(self):
        self.busy = {}
        self.gen = 0
        self.specs = {}  # name -> (gen, behaviour, deps)
        self.prepares = 0

    async def preparer(self, name, spec):
        self.prepares += 1
        if self.prepares > 3000:
            raise loop.StepLimit("more than 3000 preparations")
        before, after = self.paces[1 if spec["deps"] else 0]
        self.busy[name] = self.busy.get(name, 0) + 1
        for _ in range(before):
            await asyncio.sleep(0)
        try:
            return self.build(name, spec)
        finally:
            for _ in range(after):
                await asyncio.sleep(0)
            self.busy[name] -= 1

    def build(self, name, spec):
        if spec["mode"] == "fail":
            return R.PermFail(message=f"{name}:{spec['gen']}")
        deps = {d: cache.get_resource_from_cache(CLS[d], d) for d in spec["deps"]}
        if spec["mode"] == "brittle" and not all(isinstance(d, Prepared) for d in deps.values()):
            return R.PermFail(message=f"{name}:{spec['gen']}")
        if spec["mode"] == "follow" and isinstance(deps["A"], Prepared):
            spec["deps"].append("D")
            deps["D"] = cache.get_resource_from_cache(CLS["D"], "D")
        # preparers own the copy they are given
        mode, gen = spec.pop("mode"), spec.pop("gen")
        return Prepared(name, gen, deps), [
            registry.Resource(resource_type=CLS[d], name=d) for d in spec.pop("deps")
        ]

    async def op(self, op):
        name = op[1]
        if op[0] == "delete":
            await cache.delete_from_cache(CLS[name], name)
        else:
            gen = self.specs[name][0]
            await cache.prepare_and_cache(
                CLS[name], self.preparer,
                {"name": name, "resourceVersion": f"v{gen}"},
                {"mode": op[2], "gen": gen, "deps": list(op[3])},
            )

    async def serialised(self, op, declare):
        while self.busy.get(op[1]):
            await asyncio.sleep(0)
        self.busy[op[1]] = 1
        try:
            declare(op)
            await self.op(op)
        finally:
            self.busy[op[1]] -= 1

    def declare(self, op):
        """The model's view, in the order the operations take effect."""
        if op[0] == "delete":
            self.specs.pop(op[1], None)
        else:
            self.gen += 1
            self.specs[op[1]] = (self.gen, op[2], op[3])

    def judge(self):
        live = {n: cache.get_resource_from_cache(CLS[n], n) for n in CLS}
        for n in CLS:
            res = registry.Resource(resource_type=CLS[n], name=n)
            spec = self.specs.get(n)
            got = live[n]
            if spec is None:
                if got is not None:
                    return f"{n} was deleted but is still cached"
                if registry.get_subscriptions(res):
                    return f"deleted {n} still watches {sorted(r.name for r in registry.get_subscriptions(res))}"
                for other in CLS:
                    subs = registry.get_subscribers(registry.Resource(resource_type=CLS[other], name=other))
                    if res in subs:
                        return f"deleted {n} is still a subscriber of {other}"
                continue
            gen, mode, deps = spec
            if got is None:
                return f"{n} (generation {gen}) is missing from the cache"
            data = cache.get_resource_system_data_from_cache(CLS[n], n)
            if data.resource_version != f"v{gen}":
                return f"{n}: cached under {data.resource_version}, latest is v{gen}"
            if mode == "fail":
                if not isinstance(got, R.PermFail) or got.message != f"{n}:{gen}":
                    return f"{n}: expected the failure of generation {gen}, got {got!r}"
                continue
            watch = {r.name for r in registry.get_subscriptions(res)}
            if mode == "brittle" and isinstance(got, R.PermFail) and got.message == f"{n}:{gen}":
                # it failed when it was last prepared, and so declared nothing
                if watch:
                    return f"{n} failed to prepare but watches {sorted(watch)}"
                continue
            if mode == "brittle" and not all(isinstance(live[d], Prepared) for d in deps):
                return f"{n} is ready although {deps} is not"
            if mode == "follow" and isinstance(live["A"], Prepared):
                deps = deps + "D"
            if not isinstance(got, Prepared) or got.gen != gen:
                return f"{n}: built from generation {getattr(got, 'gen', got)}, latest is {gen}"
            for d in deps:
                if got.deps.get(d) is not live[d]:
                    seen = got.deps.get(d)
                    return (f"{n} is stale: it observed {d}="
                            f"{getattr(seen, 'gen', seen)!r}, current is "
                            f"{getattr(live[d], 'gen', live[d])!r}"
                            f"{' rebuilt since' if seen is not None else ''}")
            if watch != set(deps):
                return f"{n} watches {sorted(watch)}, declared {sorted(deps)}"
        me = asyncio.current_task()
        watchers = [t for t in asyncio.all_tasks() if t is not me and not t.done()]
        with_deps = sum(1 for s in self.specs.values())
        if len(watchers) > with_deps:
            return f"{len(watchers)} background tasks for {with_deps} cached resources"
        return None


class Quiet:
    """idle hook: wakes the main coroutine when nothing else can run."""

    def __init__(self):
        self.fut = None

    def __call__(self, lp, has_timer):
        if self.fut is not None and not self.fut.done():
            self.fut.set_result(None)
            return True
        return False

    async def settle(self):
        self.fut = asyncio.get_running_loop().create_future()
        await self.fut
        self.fut = None


def one(stats, start, settled, history, paces=None):
    quiet = Quiet()
    world = World()

    async def perform(op):
        if paces:
            await world.serialised(op, world.declare)
        else:
            world.declare(op)
            await world.op(op)

    async def go():
        for op in start:
            await perform(op)
        if settled:
            await quiet.settle()
        if paces:
            world.paces = paces
        spawned = []
        for op, (how, turns) in history:
            stats.step()
            if how == "await":
                await perform(op)
            else:
                spawned.append(asyncio.create_task(perform(op)))
            for _ in range(turns):
                await asyncio.sleep(0)
        await quiet.settle()
        for t in spawned:
            t.result()
        bad = world.judge()
        if bad:
            return bad
        edges = sorted((n, d) for n, s in world.specs.items() for d in s[2])
        stats.state([sorted((n, s[1], s[2]) for n, s in world.specs.items()), edges])
        # probes: the system must still react after the history
        for op in (("offer", "A", "ok", ""), ("delete", "A"), ("offer", "B", "ok", "A"),
                   ("offer", "A", "ok", "")):
            if op[1] == "A" and op[0] == "offer" and "D" in world.specs:
                op = ("offer", "D", "ok", "")
            await perform(op)
            await quiet.settle()
            bad = world.judge()
            if bad:
                return f"probe {op}: {bad}"
        return None

    env.reset()
    try:
        bad = loop.run(go, idle=quiet, max_turns=20_000)
    except loop.StepLimit as err:
        bad = f"never becomes idle ({err})"
    except loop.Deadlock as err:
        bad = f"an operation never returns ({err})"
    stats.step(world.prepares)
    return bad and f"{start and 'after ' + str(start)} {history}: {bad}"


# ---- the five real kinds --------------------------------------------------

API = defs.api_config()
REAL_SPECS = {
    ("vf", "v1"): ("ValueFunction", {"return": {"v": "one"}}),
    ("vf", "v2"): ("ValueFunction", {"return": {"v": "two"}}),
    ("vf", "bad"): ("ValueFunction", {"return": {"v": "=1 +"}}),
    ("rt", "v1"): ("ResourceTemplate", {"template": {
        "apiVersion": defs.VERSION, "kind": defs.NS_KIND, "spec": {"t": "one"}}}),
    ("rt", "v2"): ("ResourceTemplate", {"template": {
        "apiVersion": defs.VERSION, "kind": defs.NS_KIND, "spec": {"t": "two"}}}),
    ("rf", "inline"): ("ResourceFunction", {
        "apiConfig": API, "resource": {"spec": {"a": 1}},
        "overlays": [{"overlayRef": {"kind": "ValueFunction", "name": "vf"}}]}),
    ("rf", "tmpl"): ("ResourceFunction", {
        "apiConfig": API, "resourceTemplateRef": {"name": "='rt'"}}),
    ("rf", "bad"): ("ResourceFunction", {"apiConfig": API, "resource": {"spec": "=1 +"}}),
    ("sub", "vf"): ("Workflow", {"steps": [
        {"label": "inner", "ref": {"kind": "ValueFunction", "name": "vf"}}]}),
    ("sub", "rf"): ("Workflow", {"steps": [
        {"label": "inner", "ref": {"kind": "ResourceFunction", "name": "rf"}}]}),
    ("wf", "sub"): ("Workflow", {"steps": [
        {"label": "outer", "ref": {"kind": "Workflow", "name": "sub"}}]}),
    ("wf", "switch"): ("Workflow", {"steps": [
        {"label": "choose", "refSwitch": {"switchOn": "='b'", "cases": [
            {"case": "a", "kind": "Workflow", "name": "sub"},
            {"case": "b", "kind": "ValueFunction", "name": "vf"}]}}]}),
    ("ft", "t"): ("FunctionTest", {
        "functionRef": {"kind": "ResourceFunction", "name": "rf"},
        "testCases": [{"expectResource": {
            "apiVersion": defs.VERSION, "kind": defs.NS_KIND,
            "metadata": {"name": "thing", "namespace": "ns1"}, "spec": {"a": 1}}}]}),
    ("ftv", "t"): ("FunctionTest", {
        "functionRef": {"kind": "ValueFunction", "name": "vf"},
        "testCases": [{"expectReturn": {"v": "one"}}]}),
}
FORWARD = [("vf", "v1"), ("rt", "v1"), ("rf", "inline"), ("sub", "rf"), ("wf", "sub"),
           ("ft", "t"), ("ftv", "t")]
REAL_NAMES = {"vf": "ValueFunction", "rt": "ResourceTemplate", "rf": "ResourceFunction",
              "sub": "Workflow", "wf": "Workflow", "ft": "FunctionTest", "ftv": "FunctionTest"}


async def observe():
    """Behaviour of every cached entry."""
    out = {}
    for name, kind in REAL_NAMES.items():
        entry = defs.lookup(kind, name)
        if entry is None:
            out[name] = None
            continue
        if not R.is_unwrapped_ok(entry):
            out[name] = ["not ready", defs.outcome_class(entry)]
            continue
        if kind == "ValueFunction":
            out[name] = defs.outcome(await defs.run_vf(entry, {}))
        elif kind == "ResourceTemplate":
            out[name] = defs.uncel(entry.template)
        elif kind == "ResourceFunction":
            cluster = Cluster()
            res = await defs.run_rf(cluster, entry, {})
            out[name] = [defs.outcome(res.outcome), [c._asdict() for c in cluster.log]]
        elif kind == "Workflow":
            cluster = Cluster()
            res = await defs.run_wf(cluster, entry, {})
            out[name] = [
                defs.outcome(res.result.data if isinstance(res.result, R.Ok) else res.result),
                [(c["type"], c["reason"]) for c in res.conditions],
                [c._asdict() for c in cluster.log]]
        else:
            res = await defs.run_function_test("loc", entry)
            out[name] = [defs.outcome_class(res.function_healthy), res.fatal_error,
                         [(t.test_pass, t.message) for t in res.test_results or ()]]
    return out


def check_real(stats, case):
    if "whole" in case:
        tails = [()]
    else:
        n = bounds()["real_kinds_history_length"] - 1
        moves = list(itertools.product(REAL_OPS, FEW_GAPS))
        parts = [moves] * (n - 1) + [[(a, ("await", 0)) for a in REAL_OPS]]
        tails = itertools.product(*parts)
    prefix = [(tuple(o), tuple(g)) for o, g in case["prefix"]]
    start = FORWARD if case["order"] == "forward" else FORWARD[::-1]
    for tail in tails:
        history = prefix + list(tail)
        specs = dict(start)
        for op, _ in history:
            if op[0] == "offer":
                specs[op[1]] = op[2]
            else:
                specs.pop(op[1], None)
        got = loop_real(stats, start, history)
        key = repr(sorted(specs.items()))
        if key not in _REFERENCE:
            order = [n for n in REAL_NAMES if n in specs]
            _REFERENCE[key] = loop_real(stats, [(n, specs[n]) for n in order], [])
        want = _REFERENCE[key]
        stats.trace()
        stats.state(["real", key])
        heartbeat()
        if got != want:
            diff = got if isinstance(got, str) else {
                n: (got[n], want[n]) for n in got if got[n] != want[n]}
            stats.problem(f"real kinds {history}: entry behaves differently from a fresh "
                          f"preparation of the current specs: {str(diff)[:500]}",
                          {**case, "prefix": history, "whole": True},
                          key=f"real:{sorted(diff) if isinstance(diff, dict) else diff}")
            return


_REFERENCE = {}


def loop_real(stats, start, history):
    quiet = Quiet()
    version = [0]

    async def perform(op):
        stats.step()
        if op[0] == "offer":
            kind, spec = REAL_SPECS[(op[1], op[2])]
            version[0] += 1
            await defs.offer(kind, op[1], spec, f"r{version[0]}")
        else:
            await cache.delete_from_cache(defs.KINDS[REAL_NAMES[op[1]]][0], op[1])

    async def go():
        for name, spec in start:
            await perform(("offer", name, spec))
        await quiet.settle()
        for op, (_, turns) in history:
            await perform(op)
            for _ in range(turns):
                await asyncio.sleep(0)
        await quiet.settle()
        return await observe()

    defs.fresh()
    try:
        return loop.run(go, idle=quiet, max_turns=20_000)
    except loop.StepLimit as err:
        return f"never becomes idle ({err})"
