"""C02 Workflow result is independent of step completion order."""
import asyncio
import itertools
import math

from .. import defs, env, explore, loop, wfgen
from ..cluster import Cluster
from ..report import THOROUGH, heartbeat
from koreo import result as R

LEVEL = "model_checking"
RULE = (
    "every bounded workflow (all DAGs over 2-3 steps x step kinds incl. creating/"
    "patching/reading ResourceFunctions, forEach, refSwitch, sub-workflows, kind "
    "lookups; wider parallel programs) from an empty, a converged and a drifted "
    "cluster: every API call parks and *every* completion order is explored "
    "depth-first on the real code (stateless search), also completing several calls "
    "in one loop turn. All executions of a program must return the same description "
    "(overall outcome with message, per-step conditions, state, resource ids) and "
    "leave the same cluster; values are also compared with the reference "
    "interpreter (forEach order, own item, state merged in listed order). A state is "
    "a distinct (program, start, completion order prefix); a transition is one API "
    "call completed."
)
ASSUMPTIONS = [
    "steps manage distinct objects (two steps writing one object conflict by design)",
    "API calls succeed; virtual time does not reach the step timeout",
]
CAP = 30_000 if THOROUGH else 400


def bounds():
    return {"max_orders_per_program": CAP, "steps_all_dags": 3, "parallel_steps": 5 if THOROUGH else 4,
            "forEach_items": 5 if THOROUGH else 4}


CHAINS = {  # kind -> calls per independent chain, when mutation is needed / not
    "make": ([2], [1]), "rf": ([1], [1]), "vf": ([], []), "switch": ([1], [1]),
    "each-rf": ([1] * 2, [1] * 2), "each-make": ([2, 2], [1, 1]), "sub-make": ([2], [2]),
    "sub": ([2], [2]), "each-sub": ([2, 2], [2, 2]), "each-vf": ([], []),
}


def estimate(steps, start):
    chains = []
    for s in steps:
        per = CHAINS[s["kind"]][0 if start != "converged" else 1]
        if s["kind"].startswith("each") and per:
            per = [per[0]] * len(s["what"])
        chains += per
    total = math.factorial(sum(chains))
    for c in chains:
        total //= math.factorial(c)
    return total


def programs():
    kinds = ["make", "rf", "each-make", "each-rf", "sub-make", "switch"]
    for n in (2, 3):
        for edges in itertools.product((0, 1), repeat=n * (n - 1) // 2):
            for ks in itertools.product(kinds, repeat=n):
                if n == 3 and not THOROUGH and list(ks) != sorted(ks, key=kinds.index):
                    continue
                yield dag(n, edges, ks)
    # outcome classes in parallel: messages and conditions must not depend on order
    for whats in itertools.product(["ok", "skip", "retry", "permFail"], repeat=3):
        yield dag(3, (0, 0, 0), ("rf", "rf", "rf"), whats)
        yield dag(3, (0, 0, 0), ("rf", "sub", "vf"), whats)
        yield [{"label": "st0", "kind": "each-rf", "what": list(whats)}]
        yield [{"label": "st0", "kind": "each-rf", "what": list(whats)},
               {"label": "st1", "kind": "rf", "what": "ok", "deps": {"st0": "dot"}}]
    for k in range(1, bounds()["parallel_steps"] + 1):
        for kind in ("make", "rf", "switch"):
            yield [{"label": f"st{i}", "kind": kind, "what": "ok"} for i in range(k)]
    for k in range(1, bounds()["forEach_items"] + 1):
        for kind in ("each-make", "each-rf", "each-sub", "each-switch"):
            yield [{"label": "st0", "kind": kind, "what": ["ok"] * k}]
            yield [{"label": "st0", "kind": kind, "what": ["ok"] * k},
                   {"label": "st1", "kind": "vf", "what": "ok", "deps": {"st0": "dot"}}]
    # a diamond and an hourglass
    for ks in (("rf",) * 4, ("make", "rf", "each-rf", "vf"), ("vf", "make", "make", "rf")):
        yield dag(4, (1, 1, 0, 0, 1, 1), ks)
    for ks in (("rf", "rf", "vf", "rf", "rf"), ("make", "rf", "vf", "make", "rf")):
        yield dag(5, (0, 1, 1, 0, 0, 1, 0, 0, 1, 0), ks)


CHAINS["each-switch"] = ([1] * 2, [1] * 2)


def dag(n, edges, kinds, whats=None):
    it = iter(edges)
    steps = []
    for i in range(n):
        deps = {f"st{j}": "dot" for j in range(i) if next(it)}
        w = whats[i] if whats else "ok"
        steps.append({"label": f"st{i}", "kind": kinds[i],
                      "what": [w, "ok"] if kinds[i].startswith("each") else w, "deps": deps})
    return steps


def cases():
    for steps in programs():
        mutating = any("make" in s["kind"] for s in steps)
        for start in ("empty", "drifted", "converged") if mutating else ("converged",):
            if estimate(steps, start) > CAP:
                continue
            yield {"steps": steps, "start": start, "mode": "orders"}
            if estimate(steps, start) <= (90 if THOROUGH else 24):
                yield {"steps": steps, "start": start, "mode": "batches"}
    # many items or steps: every single early or late call, and both directions
    for kind in ("each-rf", "each-vf", "each-make", "each-sub", "rf", "make"):
        for n in (11, 12) if kind.startswith("each") else (11, 20):
            steps = ([{"label": "st0", "kind": kind, "what": ["ok"] * n},
                      {"label": "st1", "kind": "vf", "what": "ok", "deps": {"st0": "dot"}}]
                     if kind.startswith("each") else
                     [{"label": f"st{i}", "kind": kind, "what": "ok"} for i in range(n)])
            for start in ("converged", "empty") if "make" in kind else ("converged",):
                yield {"steps": steps, "start": start, "mode": "patterns"}
    # plural lookup shared by concurrent steps
    for steps in ([{"label": f"st{i}", "kind": k, "what": "ok"} for i, k in enumerate(ks)]
                  for ks in (("rf", "rf"), ("make", "rf"), ("make", "make"), ("rf", "rf", "rf"))):
        yield {"steps": steps, "start": "empty" if steps[0]["kind"] == "make" else "converged",
               "mode": "orders", "lookup": True}
        yield {"steps": steps, "start": "converged", "mode": "batches", "lookup": True}


def patterns(case):
    n = max(len(case["steps"]), *(len(s["what"]) for s in case["steps"] if isinstance(s["what"], list)), 0)
    yield "first"
    yield "last"
    for k in range(n):
        yield f"early {k}"
        yield f"late {k}"


class Fixed:
    choices = ()

    def __init__(self, pattern):
        self.pattern = pattern


class Pattern:
    """A fixed completion order: one call's object is served first or last."""

    def __init__(self, cluster, pattern):
        self.parked, self.done, self.seen = [], [], []
        self.kind, _, k = pattern.partition(" ")
        self.k = int(k) if k else None
        cluster.gate = self.gate

    async def gate(self, call):
        fut = asyncio.get_running_loop().create_future()
        if call.name not in self.seen:
            self.seen.append(call.name)
        self.parked.append((fut, call))
        await fut

    def idle(self, lp, has_timer):
        self.parked = [p for p in self.parked if not p[0].done()]
        if not self.parked:
            return False
        rank = [self.seen.index(c.name) == self.k for _, c in self.parked]
        at = {"first": 0, "last": len(self.parked) - 1,
              "early": rank.index(True) if True in rank else 0,
              "late": rank.index(False) if False in rank else 0}[self.kind]
        fut, call = self.parked.pop(at)
        self.done.append(f"{call.op}:{call.name}")
        fut.set_result(None)
        return True


class Orders:
    def __init__(self, cluster, chooser, batches):
        self.cluster, self.ch, self.batches = cluster, chooser, batches
        self.parked = []
        self.done = []
        cluster.gate = self.gate

    async def gate(self, call):
        fut = asyncio.get_running_loop().create_future()
        self.parked.append((fut, call))
        await fut

    def idle(self, lp, has_timer):
        self.parked = [p for p in self.parked if not p[0].done()]
        n = len(self.parked)
        if not n:
            return False
        k = self.ch.choose(n + (2 if self.batches and n > 1 else 0), "complete")
        if k < n:
            release = [self.parked.pop(k)]
        else:
            release = self.parked if k == n else self.parked[::-1]
            self.parked = []
        for fut, call in release:
            self.done.append(f"{call.op}:{call.name}")
            fut.set_result(None)
        return True


TRIGGER = {"t": {"u": 1}}


def lookup_variant(spec):
    extra = {k: v for k, v in spec["apiConfig"].items() if k in ("readonly", "deleteIfExists")}
    return {**spec, "apiConfig": defs.lookup_config(name=spec["apiConfig"]["name"], **extra)}


async def prepare(case):
    if case.get("lookup"):
        defs.fresh()
        for kind, name, spec in wfgen.LIBRARY:
            if kind == "ResourceFunction":
                spec = lookup_variant(spec)
            await defs.offer(kind, name, spec)
        wfgen._ready.clear()
    wf = await defs.prepare("Workflow", "w", wfgen.spec_of(case["steps"]))
    if not R.is_unwrapped_ok(wf) or not R.is_ok(wf[0].steps_ready):
        raise wfgen.CodeProblem(f"valid workflow not ready: {getattr(wf, 'message', wf)}")
    return wf[0]


def fresh_cluster(store):
    cluster = Cluster()
    cluster.lookups[defs.LK_KIND] = defs.LK_PLURAL
    for (v, plural, ns, name), obj in store.items():
        cluster.put(plural, obj, namespace=ns)
    return cluster


def start_store(case):
    """Cluster contents before the pass."""
    steps = case["steps"]
    cluster = fresh_cluster({})
    _, calls = wfgen.reference(steps, TRIGGER)
    makers = [s["label"] for s in steps if "make" in s["kind"]]
    wfgen.populate(cluster, {k: v for k, v in calls.items() if k not in makers})
    if case["start"] == "empty":
        return cluster.snapshot()

    async def converge():
        for _ in range(12):
            before = len(cluster.mutations())
            await defs.run_wf(cluster, await prepare(case), TRIGGER)
            if len(cluster.mutations()) == before:
                return

    loop.run(converge)
    if case["start"] == "drifted":
        for (v, p, ns, name), obj in cluster.store.items():
            if any(name.startswith(m) for m in makers):
                obj["spec"]["list"] = [2]
    return cluster.snapshot()


def normal(store):
    out = {}
    for k, v in store.items():
        v = dict(v, metadata={a: b for a, b in v["metadata"].items() if a != "uid"})
        out["/".join(map(str, k))] = v
    return out


def execute(case, store, chooser, wf):
    cluster = fresh_cluster(store)
    if case["mode"] == "patterns":
        sched = Pattern(cluster, chooser.pattern)
    else:
        sched = Orders(cluster, chooser, case["mode"] == "batches")

    async def go():
        w = wf or await prepare(case)
        return await defs.run_wf(cluster, w, TRIGGER)

    res = loop.run(go, idle=sched.idle)
    return wfgen.describe(res, case["steps"]), normal(cluster.store), sched.done


def check(stats, case):
    if case.get("lookup"):
        wfgen._ready.clear()
    else:
        wfgen.ensure()
    steps = case["steps"]
    store = start_store(case)
    wf = None if case.get("lookup") else loop.run(lambda: prepare(case))
    first = None
    n = 0
    if case["mode"] == "patterns":
        runs = (Fixed(p) for p in patterns(case))
    else:
        runs = explore.executions(limit=CAP * 2, prefix=case.get("choices", ()))
    for ch in runs:
        desc, final, done = execute(case, store, ch, wf)
        n += 1
        stats.trace()
        stats.step(len(done))
        stats.state([str(steps), case["start"], done])
        if n % 50 == 0:
            heartbeat()
        if first is None:
            first = (desc, final, done)
            bad = against_reference(case, desc)
            if bad:
                stats.problem(bad, {**case, "choices": ch.choices})
                return
            # API calls that never suspend at all
            cluster = fresh_cluster(store)

            async def go():
                return await defs.run_wf(cluster, wf or await prepare(case), TRIGGER)

            other = (wfgen.describe(loop.run(go), steps), normal(cluster.store), "no suspension")
        else:
            other = (desc, final, done)
        for what, a, b in (("result", first[0], other[0]), ("cluster", first[1], other[1])):
            if a != b:
                diff = {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}
                stats.problem(
                    f"{what} depends on completion order: {first[2]} vs {other[2]}: {str(diff)[:700]}",
                    {**case, "choices": ch.choices})
                return
        if "choices" in case and case["mode"] != "patterns":
            break
    else:
        if n >= CAP * 2:
            stats.exhaustive = False
    stats.count("completion_orders", n)
    stats.sample({"steps": [(s["label"], s["kind"], s.get("deps")) for s in steps],
                  "start": case["start"], "orders": n})


def against_reference(case, desc):
    if case["start"] != "converged":
        return None
    steps = case["steps"]
    done, _ = wfgen.reference(steps, TRIGGER)
    merged = {}
    reasons = wfgen.reasons(desc)
    for s in steps:
        label = s["label"]
        cls, value = done[label]
        if reasons.get(f"C{label}") != [wfgen.REASON[cls]]:
            return f"step {label} reported {reasons.get('C' + label)}, expected {cls}"
        if cls == "Ok":
            merged[label] = value
            merged["last"] = label
    if not (merged == desc["state"]):
        return f"state {desc['state']}, expected {merged} (source-list and listed-step order)"
    order = [c["type"] for c in desc["conditions"]]
    want = [f"C{s['label']}" for s in steps] + ["Ready"]
    if order != want:
        return f"conditions {order}, expected {want}"
    if list(desc["resource_ids"].get("resources", {})) != [s["label"] for s in steps]:
        return f"resource ids {desc['resource_ids']} not per listed step"
    return None
