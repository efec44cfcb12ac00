"""C13 The first false assertion decides the outcome; unevaluable ones fail safe."""
import itertools

from celpy import celtypes

from .. import defs, krm, loop
from ..cluster import Cluster
from ..report import THOROUGH

LEVEL = "model_checking"
RULE = (
    "every list of assertions up to the length bound x every tuple of outcome kinds x every truth assignment, "
    "with a non-boolean, missing or failing assertion or message at every position, lists of 20 with every pair "
    "of false positions, at ValueFunction preconditions, ResourceFunction preconditions and postconditions and "
    "overlay functions; the truth values arrive as inputs, so each prepared function runs every assignment. The "
    "oracle is the first false of the list. The body (locals, name, resource, overlays, return) both fails when "
    "evaluated and is watched through a recording inputs map; every API call is logged. A state is a distinct "
    "(site, kinds, assignment), a transition one evaluated assertion."
)
ASSUMPTIONS = [
    "a failing message of an assertion that does not decide may give PermFail or be ignored",
    "a message that evaluates to something other than a string may give PermFail or the deciding outcome",
]

KINDS = ("skip", "depSkip", "retry", "permFail", "ok")
CLASS = {"skip": "Skip", "depSkip": "DepSkip", "retry": "Retry", "permFail": "PermFail"}
BAD = [1, 0, "x", "", "true", "false", None, [], {}, [True], [False], {"a": False}, 1.5, 0.0]
NOINPUT = "__absent__"
# failing or non-boolean assertions written as expressions
EXPRS = [
    "=1", "=0", "='true'", "='false'", "=''", "=null", "=[]", "={}", "=[true]", "=1.5", "=2u", "=b''", "=b'x'",
    "=timestamp('2024-01-01T00:00:00Z')", "=duration('0s')", "=1/0", "=1/0 == 1", "=[1/0]", "={'a': 1/0}",
    "=inputs.nope", "=inputs.nope == 1", "=inputs.nope.deeper", "=nope", "=nope.x == 1", "=unknownFn(1)",
    "=inputs.m.size() > 'x'", "=!5", "=!'x'", "=5 ? true : false", "=int('x') == 1", "=['a'][3] == 'a'",
    "={'a': 1}.b == 1", "=[1, 2].map(x, x / 0) == [1]", "=[1].filter(x, x)", "=[1].exists(x, x / 0 == 1)",
    "=timestamp('nope') == timestamp('nope')", "=duration('nope')", "=inputs.m", "=inputs", "=to_ref({})",
    "=inputs.m.split('x')", "=inputs.m == 1 && 5", "=1 > 'a'", "=-true", "=inputs.m + 1 == 2",
    "false", "true", "", "x",
]
GOOD = [
    ("=true", True), ("=false", False), ("=!true", False), ("=1 == 1", True), ("=1 != 1", False),
    ("=inputs.m == 'mm'", True), ("=has(inputs.nope)", False), ("=!has(inputs.nope)", True),
    ("=[1, 2].exists(x, x == 2)", True), ("=[].exists(x, x)", False), ("=[].all(x, x)", True),
    ("=true || false", True), ("=true && false", False), ("=true ? false : true", False), ("='a' in ['a']", True),
    ("=  inputs.m.startsWith('m') ", True), ("=!inputs.m.startsWith('m')", False),
]
MESSAGES = [
    ("plain", "plain"), ("=inputs.m", "mm"), ("='a' + inputs.m", "amm"), ("", ""), ("it's \"q\" {x} %s\n\\n", None),
    ("=inputs.nope", "fail"), ("=1/0", "fail"), ("=nope", "fail"), ("='a' + 1", "fail"), ("=[1/0]", "fail"),
    ("={'a': 1/0}", "fail"), ("=inputs.m[1/0]", "fail"),
    ("=5", "odd"), ("=null", "odd"), ("=[1]", "odd"), ("={'a': 1}", "odd"), ("=true", "odd"), ("=b'x'", "odd"),
    ("=timestamp('2024-01-01T00:00:00Z')", "odd"), ("7", "odd"), ("1.50", "odd"),
]
DELAYS = [0, 1, 7, 3600, 10**9]

SITES = ("vf.pre", "rf.pre", "rf.post")
# the same lists where the rest of the function differs
VARIANTS = ("vf.bare", "rf.pre.ro", "rf.pre.del", "rf.pre.bare", "rf.pre.both", "rf.post.ro", "rf.post.bare",
            "rf.post.never", "rf.post.gone", "rf.post.both", "ovf.pre")


def bounds():
    n = 6 if THOROUGH else 5
    return {"length": {"vf.pre": n, "rf.pre": n - 1, "rf.post": n - 2}, "long_lists": 20, "kinds": KINDS,
            "bad_values": len(BAD) + 1, "bad_expressions": len(EXPRS), "sites": SITES + VARIANTS,
            "variant_length": 3 if THOROUGH else 2}


def depth(site):
    if site in VARIANTS:
        return bounds()["variant_length"]
    return bounds()["length"][site]


def cases():
    for site in SITES + VARIANTS:
        for n in range(0, depth(site) + 1):
            if site in VARIANTS and n > 1 and not THOROUGH:
                for kinds in itertools.product(KINDS, repeat=n):
                    yield {"site": site, "kinds": kinds, "mode": "mix"}
            elif n <= 3:
                for kinds in itertools.product(KINDS, repeat=n):
                    yield {"site": site, "kinds": kinds, "mode": "all"}
            else:
                for kinds in itertools.product(KINDS, repeat=n):
                    yield {"site": site, "kinds": kinds, "mode": "bools" if n == depth(site) else "mix"}
        if site in VARIANTS and not THOROUGH:
            yield {"site": site, "mode": "long", "at": [0, 19]}
            for expr in EXPRS[::5]:
                yield {"site": site, "mode": "expr", "expr": expr}
            yield {"site": site, "mode": "message"}
            continue
        for i, j in itertools.combinations(range(20) if THOROUGH else (0, 1, 9, 10, 18, 19), 2):
            yield {"site": site, "mode": "long", "at": [i, j]}
        for expr in EXPRS:
            yield {"site": site, "mode": "expr", "expr": expr}
        yield {"site": site, "mode": "good"}
        yield {"site": site, "mode": "message"}
        yield {"site": site, "mode": "delay"}


def outcome_spec(kind, i, message=None, delay=None):
    message = f"msg-{i}" if message is None else message
    if kind == "ok":
        return {"ok": {}}
    if kind == "retry":
        return {"retry": {"message": message, "delay": 10 + i if delay is None else delay}}
    return {kind: {"message": message}}


def assertion(i, kind, expr=None, **kw):
    return {"assert": expr or f"=inputs.a{i}", **outcome_spec(kind, i, **kw)}


def expected(kinds, values, delays=None):
    """('PermFail', None), ('go', None) or (class, message, delay)."""
    if any(not isinstance(v, bool) for v in values):
        return ("bad",)
    for i, (kind, v) in enumerate(zip(kinds, values)):
        if v is False:
            if kind == "ok":
                return ("go",)
            return (CLASS[kind], f"msg-{i}", 10 + i if kind == "retry" else None)
    return ("go",)


class Spy(celtypes.MapType):
    """Inputs that record which members are read."""

    seen = ()

    def __getitem__(self, key):
        self.seen.add(str(key))
        return super().__getitem__(key)

    def get(self, key, default=None):
        self.seen.add(str(key))
        return super().get(key, default)


BODY = "=inputs.boom + 'body'"


class Fn:
    """One function with these assertions at the site."""

    def __init__(self, site, assertions):
        defs.fresh()
        self.site = site
        self.post = site.startswith("rf.post")
        variant = site.rsplit(".", 1)[-1]
        if site in ("vf.pre", "vf.bare"):
            spec = {"preconditions": assertions, "locals": {"l": BODY}, "return": {"r": "=locals.l", "q": BODY}}
            if site == "vf.bare":
                spec = {"preconditions": assertions}
            if not assertions:
                del spec["preconditions"]
            self.fn = loop.run(lambda: defs.offer("ValueFunction", "fn", spec or {"return": {}}))
        elif site == "ovf.pre":
            got = loop.run(lambda: defs.offer("ValueFunction", "ovf", {
                **({"preconditions": assertions} if assertions else {}), "locals": {"l": BODY},
                "return": {"spec": {"r": "=locals.l"}}}))
            self.fn = got if defs.outcome_class(got) != "Ok" else loop.run(
                lambda: defs.offer("ResourceFunction", "fn", {
                    "apiConfig": defs.api_config(), "resource": {"spec": {"x": "fine"}}, "return": {"r": "bbody"},
                    "overlays": [{"overlayRef": {"kind": "ValueFunction", "name": "ovf"}, "inputs": {
                        "m": "=inputs.m", **{f"a{i}": f"=has(inputs.a{i}) ? inputs.a{i} : 'absent'" for i in range(len(assertions))},
                        "boom": "=has(inputs.boom) ? inputs.boom : 5"}}]}))
        else:
            post = self.post
            spec = {"apiConfig": defs.api_config(name="thing" if post else f"=inputs.boom == 'b' ? 'thing' : inputs.zzz"),
                    "locals": {"l": "fine" if post else BODY},
                    "resource": {"spec": {"x": "fine" if post else BODY}},
                    "return": {"r": BODY}}
            if not post:
                spec["overlays"] = [{"overlay": {"spec": {"y": BODY}}}]
            if assertions:
                spec["postconditions" if post else "preconditions"] = assertions
            if variant == "ro":
                spec["apiConfig"]["readonly"] = True
            elif variant in ("del", "gone"):
                spec["apiConfig"]["deleteIfExists"] = True
            elif variant == "bare":
                del spec["return"]
            elif variant == "never":
                spec["update"] = {"never": {}}
            elif variant == "both" and post:
                # an ok precondition stops the preconditions only
                spec["preconditions"] = [{"assert": "=false", "ok": {}}, {"assert": "=false", "permFail": {"message": "PRE"}}]
            elif variant == "both":
                spec["postconditions"] = [{"assert": "=false", "permFail": {"message": "POST"}}]
            self.fn = loop.run(lambda: defs.offer("ResourceFunction", "fn", spec))
        self.refused = defs.outcome(self.fn) if defs.outcome_class(self.fn) != "Ok" else None
        self.live = None

    def run(self, inputs, boom):
        spy = Spy({celtypes.StringType(k): defs.cel(v) for k, v in inputs.items()})
        if boom:
            spy[celtypes.StringType("boom")] = celtypes.StringType("b")
        spy.seen = set()
        if self.site in ("vf.pre", "vf.bare"):
            got = loop.run(lambda: defs.reconcile_value_function(
                location="loc", function=self.fn, inputs=spy))
            return defs.outcome(got), "boom" in spy.seen, []
        cluster = Cluster()
        if self.site in ("rf.post", "rf.post.bare", "rf.post.both"):
            if self.live is None:  # create once, then start every run from that object
                self.live = Cluster()
                loop.run(lambda: defs.run_rf(self.live, self.fn, {"boom": "b"}))
            cluster.store = self.live.snapshot()
        elif self.site in ("rf.post.ro", "rf.post.never", "rf.pre.ro", "rf.pre.del", "rf.pre.both"):
            cluster.put(defs.NS_PLURAL, {
                "apiVersion": defs.VERSION, "kind": defs.NS_KIND, "spec": {"x": "drifted"},
                "metadata": {"name": "thing", "namespace": "ns1", "uid": "u1",
                             "ownerReferences": [defs.owner_ref()]}}, namespace="ns1")
        got = loop.run(lambda: defs.reconcile_resource_function(
            api=cluster, location="loc", function=self.fn, owner=("ns1", defs.owner_ref()), inputs=spy))
        return defs.outcome(got.outcome), "boom" in spy.seen, cluster.log

    def judge(self, stats, want, inputs, case, either=None):
        """Compare one run (body able to evaluate, and not) with the reference."""
        stats.evaluated()
        if self.refused is not None:
            stats.trace()
            if want == ("bad",) and self.refused["class"] == "PermFail":
                return
            return stats.problem(f"prepare refused the assertions: {self.refused}", case)
        # going on is visible with either body, stopping only matters with a failing one
        # and an unevaluable assertion shows best when the body would succeed
        for boom in {"go": (True, False), "bad": (True,)}.get(want[0], (False,) if either is None else (True, False)):
            got, body, log = self.run(inputs, boom)
            stats.trace()
            problem = self.compare(want, got, body, log, boom)
            if problem and either is not None:
                problem = self.compare(either, got, body, log, boom)
            if problem:
                return stats.problem(
                    f"{self.site}: {problem}; got {got}, wanted {want}, body {'usable' if boom else 'failing'}", case)

    def compare(self, want, got, body, log, boom):
        ops = [c.op for c in log]
        if want == ("go",):
            return self.went_on(got, ops, boom)
        if self.site.startswith("rf.pre") and log:
            return f"the cluster was touched: {ops}"
        if set(ops) - {"GET"}:
            return f"unexpected calls {ops}"
        if body and self.site != "ovf.pre":  # (there the inputs are mapped before the assertions)
            return "the body was evaluated"
        if want == ("bad",):
            return None if got["class"] == "PermFail" else "an unevaluable assertion did not give PermFail"
        cls, message, delay = want
        if got["class"] != cls:
            return f"outcome class is not {cls}"
        if message is not None and got["message"] != message:
            return f"message is not {message!r}"
        if delay is not None and got["delay"] != delay:
            return f"delay is not {delay}"
        return None


    def went_on(self, got, ops, boom):
        """The body ran and nothing after it was cut short."""
        site = self.site
        calls = {"rf.pre": ["GET", "POST"], "rf.pre.bare": ["GET", "POST"], "ovf.pre": ["GET", "POST"],
                 "rf.pre.ro": ["GET"], "rf.pre.del": ["GET", "DELETE"], "rf.pre.both": ["GET", "PATCH"]}.get(site)
        if not boom:
            if site in ("vf.bare", "rf.post.bare"):
                return None if got["class"] == "Ok" else "evaluation did not continue"
            return None if got["class"] == "PermFail" else "evaluation did not continue into the failing body"
        if calls:
            if ops != calls:
                return f"the body did not run: {ops}"
            if site == "rf.pre.ro" and got["class"] != "Ok":
                return "evaluation did not continue"
            return None
        if site in ("vf.bare", "rf.post.bare"):
            return None if got["class"] == "Ok" else "evaluation did not continue"
        if got["class"] != "Ok" or got["value"].get("r") != "bbody":
            return "evaluation did not continue"
        return None


def assignments(n, mode):
    bools = list(itertools.product((True, False), repeat=n))
    for b in bools:
        yield b
    if mode == "bools":
        return
    bad = BAD + [NOINPUT]
    if mode == "mix":
        bad = [0, NOINPUT]
    for at in range(n):
        for value in bad:
            for rest in itertools.product((True, False), repeat=n - 1):
                yield rest[:at] + (value,) + rest[at:]
    if n <= 2 and mode == "all":
        for pair in itertools.product(bad, repeat=n):
            yield pair


def inputs_for(values):
    return {"m": "mm", **{f"a{i}": v for i, v in enumerate(values) if v is not NOINPUT and v != NOINPUT}}


def check(stats, case):
    mode, site = case["mode"], case["site"]
    if mode in ("all", "mix", "bools"):
        kinds = tuple(case["kinds"])
        fn = Fn(site, [assertion(i, k) for i, k in enumerate(kinds)])
        todo = [tuple(case["values"])] if "values" in case else assignments(len(kinds), mode)
        for values in todo:
            stats.state([site, kinds, list(values)])
            stats.step(len(values))
            fn.judge(stats, expected(kinds, values), inputs_for(values),
                     {**case, "values": list(values)})
        stats.sample({"site": site, "kinds": kinds})
    elif mode == "long":
        i, j = case["at"]
        pairs = [tuple(case["pair"])] if "pair" in case else itertools.product(KINDS, repeat=2)
        for a, b in pairs:
            kinds = [KINDS[k % 4] for k in range(20)]
            kinds[i], kinds[j] = a, b
            fn = Fn(site, [assertion(k, kind) for k, kind in enumerate(kinds)])
            for falses in ([i, j], [i], [j]):
                values = [k not in falses for k in range(20)]
                stats.state([site, kinds, values])
                stats.step(20)
                fn.judge(stats, expected(kinds, values), inputs_for(values), {**case, "pair": [a, b]})
            values = [True] * 20
            values[i], values[j] = False, "nonbool"
            fn.judge(stats, ("bad",), inputs_for(values), {**case, "pair": [a, b]})
    elif mode == "expr":
        # a bad expression alone, before/after/between true and false ones
        for kind in KINDS:
            if case.get("kind", kind) != kind:
                continue
            for n in (1, 2, 3):
                for at in range(n):
                    for rest in itertools.product((True, False), repeat=n - 1):
                        values = list(rest[:at]) + ["bad"] + list(rest[at:])
                        fn = Fn(site, [assertion(i, kind, expr=case["expr"] if i == at else None)
                                       for i in range(n)])
                        stats.state([site, case["expr"], kind, values])
                        stats.step(n)
                        fn.judge(stats, ("bad",), inputs_for(["_" if v == "bad" else v for v in values]),
                                 {**case, "kind": kind})
                    if case["expr"][:1] != "=" and n > 1:
                        break
    elif mode == "good":
        for expr, truth in GOOD:
            if case.get("expr", expr) != expr:
                continue
            for kind in KINDS:
                for n, at in ((1, 0), (2, 0), (2, 1)):
                    for other in (True, False):
                        kinds = [kind] * n
                        values = [other] * n
                        values[at] = truth
                        fn = Fn(site, [assertion(i, kind, expr=expr if i == at else None) for i in range(n)])
                        stats.state([site, expr, kind, values])
                        stats.step(n)
                        fn.judge(stats, expected(kinds, values), inputs_for(values), {**case, "expr": expr})
    elif mode == "message":
        for text, meaning in MESSAGES:
            if case.get("text", text) != text:
                continue
            for kind in KINDS[:4]:
                for n, at in ((1, 0), (2, 0), (2, 1), (3, 1)):
                    for values in itertools.product((True, False), repeat=n):
                        kinds = [kind] * n
                        fn = Fn(site, [assertion(i, kind, message=text if i == at else None) for i in range(n)])
                        want, either = expected(kinds, values), None
                        decides = values[at] is False and all(values[:at])
                        if decides and meaning == "fail":
                            want = ("bad",)
                        elif decides and meaning == "odd":
                            want, either = (want[0], None, want[2]), ("bad",)
                        elif decides:
                            want = (want[0], text if meaning is None else meaning, want[2])
                        elif meaning in ("fail", "odd"):
                            either = ("bad",)
                        stats.state([site, text, kind, list(values), at])
                        stats.step(n)
                        fn.judge(stats, want, inputs_for(values), {**case, "text": text}, either=either)
    elif mode == "delay":
        for delay in DELAYS:
            if case.get("delay", delay) != delay:
                continue
            for n, at in ((1, 0), (2, 0), (2, 1)):
                for values in itertools.product((True, False), repeat=n):
                    fn = Fn(site, [assertion(i, "retry", delay=delay if i == at else None) for i in range(n)])
                    want = expected(["retry"] * n, values)
                    if values[at] is False and all(values[:at]):
                        want = ("Retry", f"msg-{at}", delay)
                    stats.state([site, delay, list(values), at])
                    stats.step(n)
                    fn.judge(stats, want, inputs_for(values), {**case, "delay": delay})
