"""C17 Subscription registry: explicit-state model + conformance on every edge.

The model is enumerated exhaustively (every reachable abstract state, every
operation in it); each model transition is replayed on koreo.registry and the
two are compared after every operation."""
import asyncio
import itertools

from .. import env, loop
from ..env import registry
from ..report import THOROUGH

LEVEL = "model_checking"
RULE = (
    "breadth-first enumeration of every reachable model state (subscription edges x "
    "per-resource queue status none/live/killed x pending event count up to the stated cap x default or "
    "bounded queue) and every operation in each, replayed on the real registry and "
    "compared on both views, acyclicity, refusal, deliveries and queue identity; "
    "every operation history up to the stated depth; in every state with a queue, "
    "deregistration (with and without a prior kill) with getters, joiners and "
    "putters waiting. A state is a model state; a transition is one operation "
    "executed on the implementation."
)
ASSUMPTIONS = [
    "a full bounded queue may drop an event (the code documents this); it never raises",
    "unsubscribing something not subscribed may raise but changes nothing",
    "re-registering a killed resource may return its dead queue or a new live one",
]


CAP = 2 if THOROUGH else 1  # pending events tracked per queue


class Thing:
    pass


def bounds():
    return {
        "resources": 3, "pending_events_tracked": CAP,
        "bfs": "all reachable states",
        "extra_resources_bfs": 4 if THOROUGH else 0,
        "history_depth": 4 if THOROUGH else 3,
    }


def operations(n):
    rs = range(n)
    ops = []
    for r in rs:
        ops += [("register", r, 0), ("register", r, 1)]
    for a in rs:
        for b in rs:
            ops += [("subscribe", a, b), ("unsubscribe", a, b)]
        for k in range(n + 1):
            for sub in itertools.combinations(rs, k):
                ops.append(("only", a, sub))
        ops.append(("only", a, ((a + 1) % n, (a + 1) % n)))
        ops += [("notify", a), ("kill", a), ("deregister", a), ("drain", a)]
    return ops


# ---- model -------------------------------------------------------------
# state: (frozenset of (subscriber, resource), tuple per resource of
#         None | (bounded?, killed?, pending events capped at CAP))


def initial(n):
    return (frozenset(), (None,) * n)


def reaches(edges, start, goal):
    seen, todo = set(), [start]
    while todo:
        x = todo.pop()
        if x == goal:
            return True
        if x not in seen:
            seen.add(x)
            todo += [b for a, b in edges if a == x]
    return False


def deliver(edges, queues, notifier):
    """-> (new queues, set of subscribers that must receive one event,
    set that may have it dropped because their queue is full)"""
    must, may = set(), set()
    qs = list(queues)
    for a, b in edges:
        if b != notifier or qs[a] is None or qs[a][1]:
            continue
        bounded, killed, size = qs[a]
        if bounded and size >= 1:
            may.add(a)
        else:
            must.add(a)
            qs[a] = (bounded, killed, min(size + 1, CAP))
    return tuple(qs), must, may


def apply(state, op):
    """-> (state', dict of expectations)"""
    edges, queues = state
    kind, r = op[0], op[1]
    exp = {"must": set(), "may": set(), "refuse": False}
    if kind == "register":
        if queues[r] is None:
            qs = list(queues)
            qs[r] = (bool(op[2]), False, 0)
            queues, exp["must"], exp["may"] = deliver(edges, tuple(qs), r)
        elif queues[r][1]:
            exp["dead_register"] = True
    elif kind in ("subscribe", "only"):
        targets = set(op[2]) if kind == "only" else {op[2]}
        if any(reaches(edges, t, r) for t in targets):
            exp["refuse"] = True
        else:
            if kind == "only":
                edges = frozenset(e for e in edges if e[0] != r)
            edges = edges | {(r, t) for t in targets}
    elif kind == "unsubscribe":
        if (r, op[2]) in edges:
            edges = edges - {(r, op[2])}
        else:
            exp["noop_may_raise"] = True
    elif kind == "notify":
        queues, exp["must"], exp["may"] = deliver(edges, queues, r)
    elif kind == "kill":
        if queues[r] is not None:
            qs = list(queues)
            qs[r] = (qs[r][0], True, qs[r][2])
            queues = tuple(qs)
    elif kind == "deregister":
        known = queues[r] is not None
        edges = frozenset(e for e in edges if e[0] != r)
        qs = list(queues)
        qs[r] = None
        queues, must, may = deliver(edges, tuple(qs), r)
        if known:
            exp["must"], exp["may"] = must, may
        else:
            exp["may"] = must | may  # deregistering an unknown resource
            exp["unknown"] = True
    elif kind == "drain":
        if queues[r] is not None:
            qs = list(queues)
            qs[r] = (qs[r][0], qs[r][1], 0)
            queues = tuple(qs)
    return (edges, queues), exp


# ---- implementation -----------------------------------------------------


class Impl:
    def __init__(self, n):
        env.reset()
        self.res = [registry.Resource(resource_type=Thing, name=f"r{i}") for i in range(n)]
        self.queues = [None] * n
        self.clock = 1000.0

    def events(self, i):
        q = self.queues[i]
        if q is None:
            return []
        return [x for x in list(q._queue) if isinstance(x, registry.ResourceEvent)]

    def views(self):
        n = len(self.res)
        ups = {(a, b) for a in range(n) for b in range(n)
               if self.res[b] in registry.get_subscriptions(self.res[a])}
        downs = {(a, b) for a in range(n) for b in range(n)
                 if self.res[a] in registry.get_subscribers(self.res[b])}
        extra = sum(len(registry.get_subscriptions(x)) for x in self.res)
        extra2 = sum(len(registry.get_subscribers(x)) for x in self.res)
        return ups, downs, extra, extra2

    def do(self, op):
        kind, r = op[0], op[1]
        res = self.res
        self.clock += 1
        if kind == "register":
            return registry.register(res[r], asyncio.Queue(maxsize=1)) if op[2] else registry.register(res[r])
        if kind == "subscribe":
            return registry.subscribe(res[r], res[op[2]])
        if kind == "unsubscribe":
            return registry.unsubscribe(res[r], res[op[2]])
        if kind == "only":
            return registry.subscribe_only_to(res[r], [res[t] for t in op[2]])
        if kind == "notify":
            return registry.notify_subscribers(res[r], self.clock)
        if kind == "kill":
            return registry.kill_resource(res[r])
        if kind == "deregister":
            return registry.deregister(res[r], self.clock)
        if kind == "drain":
            q = self.queues[r]
            while q is not None and not q.empty():
                q.get_nowait()
                q.task_done()


def step(impl, state, op):
    """Apply op to both; -> (state', complaint or None)."""
    new, exp = apply(state, op)
    n = len(impl.res)
    kind, r = op[0], op[1]
    before = [impl.events(i) for i in range(n)]
    handles = list(impl.queues)
    raised = None
    value = None
    try:
        value = impl.do(op)
    except registry.SubscriptionCycle as err:
        raised = err
    except Exception as err:
        raised = err
    if exp["refuse"]:
        if not isinstance(raised, registry.SubscriptionCycle):
            return new, f"{op} closes a cycle but was not refused ({raised!r})"
    elif raised is not None and not exp.get("noop_may_raise"):
        return new, f"{op} raised {type(raised).__name__}: {raised}"
    if kind == "register":
        if value is None:
            return new, f"{op} returned no queue"
        if exp.get("dead_register"):
            if value is not handles[r]:
                new = _revive(new, r)
                impl.queues[r] = value
        elif handles[r] is not None:
            if value is not handles[r]:
                return new, f"{op}: repeated registration returned another queue"
        else:
            impl.queues[r] = value
    if kind == "deregister":
        q = handles[r]
        if q is not None and not q.empty():
            return new, f"{op} left items in the queue"
        impl.queues[r] = None
    ups, downs, extra, extra2 = impl.views()
    if ups != downs:
        return new, f"{op}: views disagree, subscriptions {sorted(ups)} vs subscribers {sorted(downs)}"
    if ups != set(new[0]):
        return new, f"{op}: subscriptions {sorted(ups)}, expected {sorted(new[0])}"
    if extra != len(ups) or extra2 != len(ups):
        return new, f"{op}: foreign resources appear in the views"
    must, may = exp["must"], exp["may"]
    for i in range(n):
        if kind == "deregister" and i == r:
            continue
        if kind == "drain" and i == r:
            continue
        fresh = list(impl.events(i))
        for e in before[i]:
            if e in fresh:
                fresh.remove(e)
            else:
                return new, f"{op}: r{i} lost a pending event"
        want = 1 if i in must else 0
        if not (len(fresh) == want or (i in may and len(fresh) <= 1)):
            return new, f"{op}: r{i} received {len(fresh)} event(s), expected {want}"
        for e in fresh:
            if e.resource != impl.res[r]:
                return new, f"{op}: r{i} was told about {e.resource}"
            if kind in ("notify", "deregister") and e.event_time != impl.clock:
                return new, f"{op}: r{i} got event time {e.event_time}, sent {impl.clock}"
    if kind == "deregister" and exp.get("unknown"):
        # optional delivery: bring the model in line with what was delivered
        qs = list(new[1])
        for i in range(n):
            if qs[i] is not None:
                qs[i] = (qs[i][0], qs[i][1], min(len(impl.events(i)), CAP))
        new = (new[0], tuple(qs))
    return new, None


def _revive(state, r):
    qs = list(state[1])
    qs[r] = (qs[r][0], False, 0)
    return (state[0], tuple(qs))


def replay(n, path):
    impl = Impl(n)
    state = initial(n)
    for op in path:
        state, bad = step(impl, state, op)
        if bad:
            return impl, state, bad
    return impl, state, None


def reachable(n, cap=None):
    """BFS over the model: [(state, shortest path)]."""
    start = initial(n)
    paths = {start: ()}
    frontier = [start]
    ops = operations(n)
    while frontier:
        nxt = []
        for s in frontier:
            for op in ops:
                t, _ = apply(s, op)
                if t not in paths:
                    paths[t] = paths[s] + (op,)
                    nxt.append(t)
        frontier = nxt
        if cap and len(paths) >= cap:
            break
    return paths


def reachable_small(n):
    """Four resources: default queues, pending count not tracked beyond 1."""
    keep = [op for op in operations(n)
            if not (op[0] == "register" and op[2]) and not (op[0] == "only" and len(op[2]) > 2)]
    paths = {initial(n): ()}
    frontier = [initial(n)]
    while frontier:
        nxt = []
        for s in frontier:
            for op in keep:
                if op[0] == "notify":
                    continue
                t, _ = apply(s, op)
                t = (t[0], tuple(q and (q[0], q[1], 0) for q in t[1]))
                if t not in paths:
                    paths[t] = paths[s] + (op,)
                    nxt.append(t)
        frontier = nxt
    return paths


def cases():
    n = 3
    for path in reachable(n).values():
        yield {"k": "state", "n": n, "path": path}
    ops = operations(n)
    for a in ops:
        for b in ops:
            yield {"k": "history", "n": n, "path": (a, b)}
    if THOROUGH:
        for path in reachable_small(4).values():
            yield {"k": "state", "n": 4, "path": path}


def tup(x):
    return tuple(tup(i) for i in x) if isinstance(x, (list, tuple)) else x


def check(stats, case):
    path = tup(case["path"])
    n = case["n"]
    if case["k"] == "history":
        return check_history(stats, case, n, path)

    async def go():
        impl, state, bad = replay(n, path)
        if bad:
            stats.problem(bad, case)
            return
        stats.state(repr((sorted(state[0]), state[1])))
        for op in operations(n):
            impl, s, bad = replay(n, path)
            _, bad = step(impl, s, op)
            stats.step(len(path) + 1)
            stats.trace()
            if bad:
                stats.problem(bad, {**case, "op": op})
                return
        for r in range(n):
            if state[1][r] is None:
                continue
            for kill in (None, "before", "between"):
                await check_waiters(stats, case, n, path, r, kill)

    loop.run(go, max_turns=10**9)
    if len(path) > 5:
        stats.sample({"path": path})


def check_history(stats, case, n, path):
    depth = bounds()["history_depth"]
    ops = operations(n)

    async def go():
        for tail in itertools.product(ops, repeat=depth - len(path)):
            full = path + tail
            impl, state, bad = replay(n, full)
            stats.step(len(full))
            stats.trace()
            if bad:
                stats.problem(bad, {"k": "state", "n": n, "path": full})
                return

    loop.run(go, max_turns=10**9)


async def check_waiters(stats, case, n, path, r, kill):
    impl, state, bad = replay(n, path)
    q = impl.queues[r]
    if kill == "before":
        impl.do(("kill", r))
    tasks = {}

    async def getter():
        try:
            # only a get on an empty queue waits
            await q.get()
            q.task_done()
        except asyncio.QueueShutDown:
            pass

    async def putter():
        try:
            await q.put(registry.Kill())
        except asyncio.QueueShutDown:
            pass

    if q.empty():
        tasks["get"] = asyncio.create_task(getter())
        tasks["get2"] = asyncio.create_task(getter())
    else:
        tasks["join"] = asyncio.create_task(q.join())
    if q.full():
        tasks["put"] = asyncio.create_task(putter())
        tasks["put2"] = asyncio.create_task(putter())
    for _ in range(3):
        await asyncio.sleep(0)
    if kill == "between":
        impl.do(("kill", r))
        await asyncio.sleep(0)
    try:
        impl.do(("deregister", r))
    except Exception as err:
        stats.problem(f"deregister with waiters raised {err!r}", {**case, "r": r})
    for _ in range(8):
        await asyncio.sleep(0)
    stats.step()
    stats.trace()
    stuck = [k for k, t in tasks.items() if not t.done()]
    failed = [f"{k}: {t.exception()!r}" for k, t in tasks.items()
              if t.done() and not t.cancelled() and t.exception()]
    for t in tasks.values():
        t.cancel()
    await asyncio.sleep(0)
    if stuck or failed:
        stats.problem(
            f"deregister(kill={kill}) did not release {stuck} {failed}",
            {**case, "r": r, "kill": kill},
        )
