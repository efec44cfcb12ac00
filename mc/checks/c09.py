"""C09 Workflow reconcile contains faults, stays truthful, and recovers."""
import asyncio
import itertools

import kr8s

from .. import defs, env, explore, loop, report, wfgen
from ..cluster import Cluster, FaultError, server_error
from ..report import THOROUGH, CodeProblem, heartbeat
from koreo import result as R

LEVEL = "model_checking"
RULE = (
    "fault-point enumeration on the real reconcilers: for every bounded workflow "
    "(DAG shapes x step kinds incl. create/patch/recreate/delete/readonly, forEach, "
    "refSwitch, sub-workflow, kind lookup) and start state (empty, drifted) every API "
    "call index of every pass of the fault-free convergence history is faulted with "
    "every fault kind (exception before/after effect, foreign BaseException, "
    "cancellation, timeout error, ValueError, HTTP 404/409/422/500/503, hang before/"
    "after effect), with API calls taking effect before or after they suspend; plus "
    "all two-fault sequences in one pass or in consecutive passes, and every "
    "completion order around one fault, on small programs. After each faulted pass: "
    "it returned within 10 virtual seconds; overall not Ok; affected step Wait/"
    "Failure; nothing transitively depending on it made a call, published state or is "
    "Ready; no Ready condition for a step that did not succeed. Then fault-free "
    "passes must reach the cluster and result of the never-faulted run."
)
ASSUMPTIONS = [
    "a hung call honours cancellation; KeyboardInterrupt/SystemExit are not API faults",
    "a 404 answer to the GET of a deleteIfExists resource is a truthful 'absent'",
    "passes run one after another (crash-restart between passes changes nothing: no durable state outside the cluster)",
]

KINDS = ["before", "after", "base", "cancel", "timeout", "value", "noresp", "404", "409", "422",
         "500", "503", "hang", "hang-after"]
FEW = ["before", "after", "cancel", "404", "409", "500", "hang-after"]
TRIGGER = {"t": {"u": 1}}
LIMIT = 10.0


def bounds():
    return {"fault_kinds": KINDS, "steps": 3, "two_fault_programs_steps": 2,
            "convergence_passes": 14, "order_programs_calls": 4 if THOROUGH else 3}


class OddFault(BaseException):
    pass


def step(label, kind, deps=(), what="ok", **extra):
    each = kind.startswith("each")
    return {"label": label, "kind": kind, "what": [what, "ok"] if each else what,
            "deps": {d: "dot" for d in deps}, **extra}


def programs():
    kinds = ["make", "rf", "re", "del", "nop", "each-make", "each-rf", "sub-make", "sub", "switch",
             "each-sub"]
    for k in kinds:
        yield [step("st0", k)]
        yield [step("st0", k), step("st1", "make", ["st0"])]
        yield [step("st0", k), step("st1", "vf", ["st0"]), step("st2", "make", ["st1"])]
    pairs = itertools.product(kinds, repeat=2) if THOROUGH else itertools.combinations(kinds, 2)
    for a, b in pairs:
        yield [step("st0", a), step("st1", b), step("st2", "vf", ["st0"])]
    for a, b, c in itertools.product(["make", "rf", "nop", "each-make"], repeat=3):
        if THOROUGH or len({a, b, c}) == 3 or a == b == "make":
            yield [step("st0", a), step("st1", b, ["st0"]), step("st2", c)]
    yield [step("st0", "rf", what="skip"), step("st1", "make", ["st0"]), step("st2", "make")]
    yield [step("st0", "make"), step("st1", "each-make", ["st0"]), step("st2", "each-vf", ["st1"])]
    yield [step("st0", "make"), step("st1", "make"), step("st2", "vf", ["st0", "st1"]),
           step("st3", "make", ["st2"])]
    yield [step("st0", "nop"), step("st1", "nop"), step("st2", "nop")]


def smalls():
    for a in ("make", "re", "nop", "each-make", "sub-make", "del"):
        yield [step("st0", a)]
    for a, b in (("make", "make"), ("rf", "make"), ("nop", "make")):
        yield [step("st0", a), step("st1", b, ["st0"])]


def cases():
    for steps in programs():
        for start in ("empty", "drifted"):
            for late in (False, True):
                if late and not THOROUGH and len(steps) == 3:
                    continue
                yield {"steps": steps, "start": start, "late": late, "mode": "one"}
    for steps in smalls():
        for start in ("empty", "drifted"):
            for k in KINDS if THOROUGH else FEW[:5] + FEW[6:]:
                yield {"steps": steps, "start": start, "late": False, "mode": "two", "first": k}
    for a, b in itertools.product(["make", "rf", "nop", "each-rf"], repeat=2):
        for deps in ((), ("st0",)):
            yield {"steps": [step("st0", a), step("st1", b, deps)], "start": "drifted",
                   "late": False, "mode": "orders"}


async def setup():
    await wfgen.setup()


class World:
    """One scenario: a cluster, a fault plan {(pass, index): kind}, and time."""

    def __init__(self, store, plan, late, chooser=None):
        self.cluster = Cluster()
        self.cluster.lookups[defs.LK_KIND] = defs.LK_PLURAL
        for (v, plural, ns, name), obj in store.items():
            self.cluster.put(plural, obj, namespace=ns)
        self.plan, self.late, self.ch = plan, late, chooser
        self.number, self.arrivals = 0, 0
        self.parked, self.pending, self.hit = [], {}, []
        self.active = False
        self.cluster.gate, self.cluster.gate_after = self.gate, self.gate_after

    async def park(self):
        fut = asyncio.get_running_loop().create_future()
        self.parked.append(fut)
        await fut

    async def gate(self, call):
        index = self.arrivals
        self.arrivals += 1
        fault = self.plan.get((self.number, index))
        if fault:
            self.hit.append((index, fault, call))
        self.pending[id(call)] = fault
        if not self.late or call.op == "LOOKUP":
            await self.park()
        if fault == "before":
            raise FaultError("injected before effect")
        if fault == "base":
            raise OddFault("injected")
        if fault == "cancel":
            raise asyncio.CancelledError()
        if fault == "timeout":
            raise TimeoutError("injected timeout")
        if fault == "value":
            raise ValueError("injected value error")
        if fault == "noresp":
            raise kr8s.ServerError("injected", status=None, response=None)
        if fault and fault.isdigit():
            if fault == "404" and call.op == "GET":
                raise kr8s.NotFoundError("injected 404")
            raise server_error(int(fault))
        if fault == "hang":
            await asyncio.get_running_loop().create_future()

    async def gate_after(self, call):
        if self.late:
            await self.park()
        fault = self.pending.pop(id(call), None)
        if fault == "after":
            raise FaultError("injected after effect")
        if fault == "hang-after":
            await asyncio.get_running_loop().create_future()

    def idle(self, lp, has_timer):
        self.parked = [f for f in self.parked if not f.done()]
        if not self.parked:
            return False
        k = self.ch.choose(len(self.parked), "order") if self.ch and self.number == self.active else 0
        self.parked.pop(k).set_result(None)
        return True

    async def one_pass(self, wf, number):
        self.number, self.arrivals, self.hit = number, 0, []
        self.pending = {}
        lp = asyncio.get_running_loop()
        t0, mark = lp.time(), len(self.cluster.log)
        try:
            res = await defs.run_wf(self.cluster, wf, TRIGGER)
        except BaseException as err:
            raise CodeProblem(f"pass raised {type(err).__name__}: {err}"[:300])
        took = lp.time() - t0
        return wfgen.describe(res, None), self.cluster.log[mark:], took


def normal(store):
    out = {}
    for k, v in store.items():
        v = dict(v, metadata={a: b for a, b in v["metadata"].items() if a not in ("uid", "resourceVersion")})
        out["/".join(map(str, k))] = v
    return out


def start_store(case):
    steps = case["steps"]
    cluster = Cluster()
    _, calls = wfgen.reference(steps, TRIGGER)
    makers = [s["label"] for s in steps if "make" in s["kind"] or s["kind"] in ("re", "nop")]
    if case["start"] == "empty":
        calls = {k: v for k, v in calls.items() if k not in makers}
    wfgen.populate(cluster, calls)
    return cluster.snapshot()


def label_of(call):
    name = name_of(call)
    return name.split("_")[0] if name else None


def name_of(call):
    if call.op == "POST":
        return ((call.payload or {}).get("metadata") or {}).get("name")
    return call.name


def closure(steps, label):
    out = set()
    for s in steps:
        if any(d == label or d in out for d in s["deps"]):
            out.add(s["label"])
    return out


def judge(case, desc, log, took, hits):
    """What must hold of a pass in which the calls in `hits` were faulted."""
    steps = case["steps"]
    if took > LIMIT + 0.001:
        return f"the pass took {took} s of virtual time (step timeout is 10 s)"
    reasons = wfgen.reasons(desc)
    final = desc["conditions"][-1:] or [{}]
    if desc["outcome"]["class"] not in ("Retry", "PermFail"):
        return f"overall outcome {desc['outcome']} although a call faulted"
    for c in desc["conditions"]:
        if c["type"] == "Ready" and (c["reason"] == "Ready"):
            return f"condition claims readiness: {c}"
    affected = {label_of(c) for _, _, c in hits}
    if None in affected:  # a kind lookup: any step of that kind
        affected.discard(None)
        nops = {s["label"] for s in steps if s["kind"] == "nop"}
        if not any(set(reasons.get(f"C{n}", ["Wait"])) <= {"Wait", "Failure"} for n in nops):
            return f"kind lookup faulted but no step of that kind reports it: {desc['conditions']}"
    for label in affected:
        own = reasons.get(f"C{label}", [])
        if set(own) - {"Wait", "Failure"}:
            return f"affected step {label} reported {own}"
        if not own and not any(c["reason"] in ("Wait", "Failure") and not c["type"].startswith("Cst")
                               for c in desc["conditions"][:-1]):
            return f"affected step {label} is not reported as Retry/PermFail: {desc['conditions']}"
        if label in desc["state"]:
            return f"affected step {label} published state {desc['state'][label]}"
        after = closure(steps, label)
        for call in log:
            if label_of(call) in after:
                return f"step {label_of(call)} needs failed step {label} but ran {call.op} {name_of(call)}"
        for dep in after:
            if "Ready" in reasons.get(f"C{dep}", []):
                return f"step {dep} needs failed step {label} but reports Ready"
            if dep in desc["state"]:
                return f"step {dep} needs failed step {label} but published state"
    # a step that is Ready must have published the state it would publish
    for s in steps:
        ready = "Ready" in reasons.get(f"C{s['label']}", [])
        if ready != (s["label"] in desc["state"]):
            return f"step {s['label']}: reported {reasons.get('C' + s['label'])}, state {sorted(desc['state'])}"
    if final[0].get("reason") == "Ready":
        return "overall condition claims readiness"
    return None


PASSES = 14


async def converge(world, wf, first):
    """Fault-free passes until nothing changes any more."""
    desc = None
    for n in range(first, first + PASSES):
        before = len(world.cluster.mutations())
        last = desc
        desc, log, took = await world.one_pass(wf, n)
        if len(world.cluster.mutations()) == before and desc == last:
            return desc, n + 1 - first
    return desc, None


def baseline(case, store, wf):
    """Never-faulted history: calls of each pass, final result and cluster."""

    async def go():
        history, desc = [], None
        for n in range(PASSES):
            last, before = desc, len(world.cluster.mutations())
            desc, log, took = await world.one_pass(wf, n)
            history.append([(c.op, name_of(c)) for c in log])
            if len(world.cluster.mutations()) == before and desc == last:
                return desc, history
        raise CodeProblem(f"fault-free passes do not converge: {case['steps']} {desc}")

    world = World(store, {}, case["late"])
    fresh()
    desc, history = loop.run(go, idle=world.idle)
    return desc, normal(world.cluster.store), history


def fresh():
    env.forget_kinds()
    defs.reset_classes()


def scenario(case, store, wf, plan, base, chooser=None, active=None, memo=None):
    """-> problem or None, number of calls faulted"""
    world = World(store, plan, case["late"], chooser)
    world.active = active
    last = max(p for p, _ in plan)
    facts = {"hits": 0, "calls": 0}

    async def go():
        for n in range(last + 1):
            desc, log, took = await world.one_pass(wf, n)
            facts["calls"] += len(log)
            facts["hits"] += len(world.hit)
            if world.hit:
                bad = judge(case, desc, log, took, world.hit)
                if bad:
                    return f"pass {n}: {bad}"
            elif took > LIMIT + 0.001:
                return f"pass {n} took {took} s"
        seen = None
        if memo is not None:
            seen = report.canon(sorted(normal(world.cluster.store).items()))
            if seen in memo:
                return None
        desc, used = await converge(world, wf, last + 1)
        if memo is not None:
            memo.add(seen)
        if used is None:
            return f"does not converge within {PASSES} fault-free passes: {desc['conditions']}"
        final = normal(world.cluster.store)
        if desc != base[0]:
            return f"recovered result differs: {diff(desc, base[0])}"
        if final != base[1]:
            return f"recovered cluster differs: {diff(final, base[1])}"
        return None

    fresh()
    return loop.run(go, idle=world.idle), facts


def diff(a, b):
    return str({k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)})[:600]


def check(stats, case):
    wfgen.ensure()
    steps = case["steps"]
    store = start_store(case)

    async def prep():
        wf = await defs.prepare("Workflow", "w", wfgen.spec_of(steps))
        if not R.is_unwrapped_ok(wf) or not R.is_ok(wf[0].steps_ready):
            raise CodeProblem(f"valid workflow not ready: {getattr(wf, 'message', wf)}")
        return wf[0]

    wf = loop.run(prep)
    base = baseline(case, store, wf)
    history = base[2]
    kind_of = {s["label"]: s["kind"] for s in steps}

    def truthful_absent(op, name, kind):
        return (kind == "404" and op == "GET"
                and kind_of.get((name or "").split("_")[0]) == "del")

    # Recovery starts from the cluster alone: in the larger programs recover once
    # per distinct cluster content (the small ones recover after every history,
    # so state hidden in the process is seen there).
    memo = None
    if len(steps) > (2 if THOROUGH else 1) and "nop" not in kind_of.values() and not case.get("plan"):
        memo = set()

    def run(plan, chooser=None, active=None):
        bad, facts = scenario(case, store, wf, plan, base, chooser, active, memo)
        stats.trace()
        stats.step(facts["calls"])
        stats.state([str(steps), case["start"], case["late"], str(sorted(plan.items())),
                     chooser.choices if chooser else None])
        stats.count("faults_injected", facts["hits"])
        heartbeat()
        if bad:
            stats.problem(f"fault {sorted(plan.items())}: {bad}",
                          {**case, "plan": [[list(k), v] for k, v in sorted(plan.items())],
                           "choices": chooser.choices if chooser else None})
        return facts

    if case.get("plan"):
        plan = {tuple(k): v for k, v in case["plan"]}
        ch = explore.Chooser(case["choices"]) if case.get("choices") is not None else None
        run(plan, ch, min(p for p, _ in plan))
        return

    points = [(p, i, op, name) for p, calls in enumerate(history) for i, (op, name) in enumerate(calls)]
    if case["mode"] == "one":
        # the last two passes of the history are identical
        for p, i, op, name in points:
            if p == len(history) - 1:
                continue
            for kind in KINDS if THOROUGH or len(steps) < 3 else ["before", "after", "cancel", "409", "hang-after"]:
                if not truthful_absent(op, name, kind):
                    run({(p, i): kind})
    elif case["mode"] == "two":
        k1 = case["first"]
        for p, i, op, name in points:
            if truthful_absent(op, name, k1) or p >= 2:
                continue
            # the second fault may hit any call of the same or the next pass
            for q in (p, p + 1):
                for j in range(8):
                    if q == p and j <= i:
                        continue
                    hits = 0
                    for k2 in FEW if THOROUGH else FEW[:5] + FEW[6:]:
                        if k2 == "404" and any(k == "del" for k in kind_of.values()):
                            continue
                        hits = run({(p, i): k1, (q, j): k2})["hits"]
                        if hits < 2:
                            break
                    if hits < 2:
                        break
    else:
        for p, i, op, name in points:
            if p > 1:
                continue
            for kind in KINDS if THOROUGH else FEW:
                if truthful_absent(op, name, kind):
                    continue
                for ch in explore.executions(limit=4000):
                    run({(p, i): kind}, ch, p)
                    if len(stats.problems) > 3:
                        return
    stats.sample({"steps": [(s["label"], s["kind"], list(s["deps"])) for s in steps],
                  "start": case["start"], "history": history})
