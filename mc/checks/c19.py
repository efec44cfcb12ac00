"""C19 A FunctionTest case passes exactly when its assertion holds."""
import copy
import itertools
import json

from .. import defs, krm, loop
from ..krm import AS_MAP, AS_SET, DIRECTIVES
from ..report import THOROUGH
from . import c18

LEVEL = "model_checking"
RULE = (
    "for every behaviour of a function (every outcome class, create, patch, recreate, delete, no-op, rejected, failing; "
    "found by running the real function on an in-memory API server) the assertion derived from it and every one-step "
    "(for small values every two-step) perturbation of it: every leaf changed or retyped, every member missing, extra, "
    "renamed, every list shortened, extended, reordered, every container swapped for another, with and without compare "
    "directives; every outcome class x message fragment x delay; both delete assertions; every assertion kind against "
    "every behaviour. Oracle: a comparator of its own. A state is a distinct (behaviour, assertion), a transition one "
    "executed test case."
)
ASSUMPTIONS = [
    "not judged: 1 against 1.0; repeated members of set-directed lists; set-directed lists of containers; order among "
    "map-directed members with the same key; the last-applied annotation inside expectResource",
    "nulls in patches are not used; messages which name the test itself are compared without that part",
    "patches carry the same members as the live object below the top-level keys they set",
]


# ------------------------------------------------------------------- oracle

def exact(e, a, how=None):
    """Does value a equal the expectation e?  True, False or None (not judged)."""
    if isinstance(e, dict) and isinstance(a, dict):
        ek, ak = set(e) - DIRECTIVES, set(a) - DIRECTIVES
        if ek != ak:
            return False
        as_map = e.get(AS_MAP) if isinstance(e.get(AS_MAP), dict) else {}
        as_set = e.get(AS_SET) if isinstance(e.get(AS_SET), list) else []
        return krm.fold(
            exact(e[k], a[k], ("map", as_map[k]) if k in as_map else ("set",) if k in as_set else None) for k in ek)
    if isinstance(e, list) and isinstance(a, list):
        if how and how[0] == "set":
            if any(krm.container(x) for x in e + a):
                if not any(krm.container(x) for x in e) or not any(krm.container(x) for x in a):
                    return False if e or a else None
                return None if ordered(e, a) is not False or len(e) == len(a) else None
            se, sa = {typed(x) for x in e}, {typed(x) for x in a}
            if se != sa:
                return False
            return None if len(e) != len(a) or len(se) != len(e) and sorted(map(repr, e)) != sorted(map(repr, a)) \
                else True
        if how and how[0] == "map" and all(isinstance(x, dict) for x in e + a):
            return keyed(e, a, how[1])
        return ordered(e, a)
    if krm.container(e) or krm.container(a):
        return False
    if e is None or a is None:
        return e is a
    if isinstance(e, bool) or isinstance(a, bool):
        return isinstance(e, bool) and isinstance(a, bool) and e == a
    if krm.number(e) and krm.number(a):
        if e != a:
            return False
        return True if type(e) is type(a) else None
    return type(e) is type(a) and e == a


def ordered(e, a):
    return len(e) == len(a) and krm.fold(exact(x, y) for x, y in zip(e, a))


def typed(x):
    return (isinstance(x, bool), isinstance(x, str), x is None, x)


def keyed(e, a, fields):
    def key(o):
        return json.dumps([o.get(f) for f in fields])

    def groups(rows):
        out = {}
        for row in rows:
            out.setdefault(key(row), []).append(row)
        return out

    ge, ga = groups(e), groups(a)
    if set(ge) != set(ga):
        return False
    verdicts = []
    for k in ge:
        if len(ge[k]) != len(ga[k]):
            return False
        if len(ge[k]) == 1:
            verdicts.append(exact(ge[k][0], ga[k][0]))
        elif ordered(ge[k], ga[k]) is True:
            verdicts.append(True)
        elif any(ordered(list(p), ga[k]) is not False for p in itertools.permutations(ge[k])):
            verdicts.append(None)
        else:
            return False
    return krm.fold(verdicts)


# ----------------------------------------------------------- known findings

class Raises(Exception):
    pass


KNOWN = {
    "bool": "set-directed lists: true equals 1 and false equals 0",
    "last": "map-directed lists: of members with the same key only the last one counts",
    "rows": "map-directed values which are no lists of objects",
    "none": "expectResource with nothing but directives after a delete",
}


def today(e, a, flags, how=None):
    """The verdict of a comparator which is exact but for the flagged known findings."""
    if how and how[0] == "map" and (regular(e, a) and "last" in flags or not regular(e, a) and "rows" in flags):
        return today(named(e, how[1]), named(a, how[1]), flags)
    if isinstance(e, dict) and isinstance(a, dict):
        ek, ak = set(e) - DIRECTIVES, set(a) - DIRECTIVES
        as_map, as_set = e.get(AS_MAP) or {}, e.get(AS_SET) or []
        # every common member is compared, also when others are missing
        verdicts = [today(e[k], a[k], flags, ("map", as_map[k]) if k in as_map else ("set",) if k in as_set else None)
                    for k in ek & ak]
        return krm.fold(verdicts + [ek == ak])
    if isinstance(e, list) and isinstance(a, list):
        if how and how[0] == "set" and "bool" in flags and not any(krm.container(x) for x in e + a):
            return set(e) == set(a)
        if how:
            return exact(e, a, how)
        return len(e) == len(a) and krm.fold([today(x, y, flags) for x, y in zip(e, a)])
    return exact(e, a)


def regular(*lists):
    return all(isinstance(rows, list) and all(isinstance(row, dict) for row in rows) for rows in lists)


def named(rows, fields):
    try:
        return {"$".join(f"{row.get(f)}".strip() for f in fields): row for row in rows}
    except (TypeError, AttributeError):
        raise Raises from None


FLAGS = [f for n in (1, 2, 3) for f in itertools.combinations(("bool", "last", "rows"), n)]


def explained(e, a, observed):
    """The known finding because of which the verdict is ``observed``."""
    if not isinstance(e, dict) or not isinstance(a, dict):
        return None
    for flags in FLAGS:
        try:
            got = today(e, a, flags)
        except Raises:
            got = "raises"
        if got == observed:
            return KNOWN[flags[-1]]
    return None


# ------------------------------------------------------------ perturbations

def leaf_variants(x):
    if isinstance(x, bool):
        yield from (not x, int(x), str(x).lower(), str(x))
    elif isinstance(x, str):
        yield from (x + "x", x.upper() if x.upper() != x else x + " ", " " + x, x[:-1] if x else "0")
        if x.lstrip("-").isdigit():
            yield from (int(x), float(x))
        if x in ("true", "false"):
            yield x == "true"
        if x in ("null", "None", ""):
            yield None
    elif krm.number(x):
        yield from (x + 1, -x if x else 1, str(x), x + 0.5)
        if x in (0, 1):
            yield bool(x)
    elif x is None:
        yield from ("null", "None", 0, False, "")
    yield from (None, "", 0, False, [], {}, [x], {"k": x})


def perturb(e, path=()):
    """Every one-step deviation (value, description) of e."""
    if isinstance(e, dict):
        for k in e:
            if k in DIRECTIVES:
                continue
            yield {x: y for x, y in e.items() if x != k}, f"{path} without {k}"
            yield {(x + "_" if x == k else x): y for x, y in e.items()}, f"{path} renames {k}"
            for sub, how in perturb(e[k], path + (k,)):
                yield {**e, k: sub}, how
        for extra in ("zz", None, 0, {}, []):
            yield {**e, "extra": extra}, f"{path} extra {extra!r}"
        if path:
            for other in ([], [e], list(e), None, "x", {} if e else {"k": None}, True):
                yield other, f"{path} is {other!r}"
    elif isinstance(e, list):
        for i in range(len(e)):
            yield e[:i] + e[i + 1:], f"{path} without [{i}]"
            yield e[:i] + [e[i]] + e[i:], f"{path} repeats [{i}]"
            yield e[:i] + [None] + e[i:], f"{path} null before [{i}]"
            for sub, how in perturb(e[i], path + (i,)):
                yield e[:i] + [sub] + e[i + 1:], how
        for i, j in itertools.combinations(range(len(e)), 2):
            row = list(e)
            row[i], row[j] = row[j], row[i]
            yield row, f"{path} swaps {i} {j}"
        for extra in ("zz", None, 1, True, {}, {"name": "zz"}):
            yield e + [extra], f"{path} extra {extra!r}"
        yield e[::-1], f"{path} reversed"
        for other in ({}, {str(i): x for i, x in enumerate(e)}, None, "x", "", [e], len(e),
                      {"name": e[0]} if e else [{}]):
            yield other, f"{path} is {other!r}"
    else:
        seen = [e]
        for other in leaf_variants(e):
            if not any(type(other) is type(x) and other == x for x in seen):
                seen.append(other)
                yield other, f"{path} is {other!r}"


# ------------------------------------------------------------------- values

ROWS = [{"name": "a", "v": 1, "on": True}, {"name": "b", "v": 0, "sub": {"l": ["x", "y"]}}, {"name": "c"}]
VALUES = {
    "leaves": {"s": "a", "i": 1, "z": 0, "t": True, "f": False, "d": 1.5, "e": "", "m": -3, "big": 2**53},
    "strings": {"one": "1", "true": "true", "none": "None", "sp": " x ", "dot": "a.b", "u": "\u00e9\u4e2d", "q": "'\"\\"},
    "empty": {"l": [], "m": {}, "ll": [[]], "lm": [{}], "ml": {"l": []}},
    "nested": {"a": {"b": {"c": [1, [2, [3, {"d": "e"}]]]}}, "x": [[1, 2], [3]], "y": [{"k": [True]}, {"k": [1]}]},
    "null": {"n": None, "l": [None, 1], "m": {"n": None}},
    "set": {"l": ["x", "y", "z"], "n": [1, 2], "b": [True, "1", 2], "deep": {"l": ["p", "q"]}, "none": []},
    "map": {"l": ROWS, "deep": {"l": [{"a": 1, "b": "x"}, {"a": 1, "b": "y"}]}},
    "dupes": {"l": [{"name": "a", "v": 1}, {"name": "a", "v": 2}, {"name": "b", "v": 3}]},
    "keyish": {"l": [{"name": 1, "v": "x"}, {"name": "1", "v": "y"}, {"v": "z"}, {"name": "None", "v": "w"}]},
    "tiny": {"l": ["x", 1], "t": True},
    "tinymap": {"l": [{"name": "a", "v": 1}, {"name": "b", "v": False}]},
    "same": {"a": {"x": 1}, "b": {"x": 1}, "l": [1, 1], "s": ["x", "x"]},
    "wide": {f"k{i}": i for i in range(12)},
}
DIRECTED = {
    "tinymap": [{AS_MAP: {"l": ["name"]}}, {AS_SET: ["l"]}],
    "tiny": [{AS_SET: ["l"]}],
    "set": [{AS_SET: ["l", "n", "b", "none"]}, {AS_SET: ["b"]}, {AS_MAP: {"l": ["name"]}}, {AS_SET: ["l"], AS_MAP: {"n": ["k"]}},
            {"at": "deep", AS_SET: ["l"]}],
    "map": [{AS_MAP: {"l": ["name"]}}, {AS_MAP: {"l": ["name", "v"]}}, {AS_MAP: {"l": ["nope"]}}, {AS_SET: ["l"]},
            {"at": "deep", AS_MAP: {"l": ["a", "b"]}}, {"at": "deep", AS_MAP: {"l": ["b"]}}, {AS_MAP: {"deep": ["a"]}},
            {AS_SET: ["deep"]}],
    "dupes": [{AS_MAP: {"l": ["name"]}}, {AS_MAP: {"l": ["v"]}}],
    "keyish": [{AS_MAP: {"l": ["name"]}}],
    "leaves": [{AS_SET: ["s", "i", "t"]}, {AS_MAP: {"s": ["name"], "i": ["name"], "f": ["x"]}}, {AS_SET: ["absent"]}],
    "empty": [{AS_SET: ["l", "ll", "lm", "m"]}, {AS_MAP: {"l": ["a"], "lm": ["a"], "m": ["a"]}}],
    "null": [{AS_SET: ["l", "n"]}, {AS_MAP: {"n": ["name"]}}],
    "nested": [{AS_SET: ["x"]}, {AS_MAP: {"y": ["k"]}}],
}
ROUTES = ("vf", "rf-return", "rf-create", "rf-patch")
TWO_STEP = ("tiny", "tinymap") + (("set", "map", "dupes", "empty", "null", "leaves") if THOROUGH else ())

MSG = "It's BAD: {Widget} %s 42"
OUTCOMES = [
    {"assert": "=inputs.c != 'skip'", "skip": {"message": MSG}},
    {"assert": "=inputs.c != 'depSkip'", "depSkip": {"message": MSG}},
    {"assert": "=inputs.c != 'retry'", "retry": {"message": MSG, "delay": 42}},
    {"assert": "=inputs.c != 'retry0'", "retry": {"message": MSG, "delay": 0}},
    {"assert": "=inputs.c != 'permFail'", "permFail": {"message": MSG}},
    {"assert": "=inputs.c != 'empty'", "permFail": {"message": "=inputs.empty"}},
    {"assert": "=inputs.c != 'emptyskip'", "skip": {"message": "=inputs.empty"}},
    {"assert": "=inputs.c != 'broken'", "skip": {"message": "=1/0"}},
]
SITUATIONS = ("skip", "depSkip", "retry", "retry0", "permFail", "empty", "emptyskip", "broken", "fine")
DO = {
    "vf": ("ValueFunction", {"preconditions": OUTCOMES, "return": {"x": "=inputs.c"}}, ("absent",)),
    "vf-none": ("ValueFunction", {"preconditions": OUTCOMES}, ("absent",)),
    "vf-bad": ("ValueFunction", {"preconditions": OUTCOMES, "return": {"x": "=inputs.nope"}}, ("absent",)),
    "rf": ("ResourceFunction", {"preconditions": OUTCOMES, "return": {"x": "=inputs.c"}}, None),
    "rf-post": ("ResourceFunction", {"postconditions": OUTCOMES, "return": {"x": "=inputs.c"}}, None),
    "rf-recreate": ("ResourceFunction", {"update": {"recreate": {"delay": 7}}, "return": {"x": "=inputs.c"}}, None),
    "rf-never": ("ResourceFunction", {"update": {"never": {}}, "return": {"x": "=inputs.c"}}, None),
    "rf-nocreate": ("ResourceFunction", {"create": {"enabled": False}, "return": {"x": "=inputs.c"}}, None),
    "rf-noreturn": ("ResourceFunction", {"postconditions": OUTCOMES}, None),
    "rf-delete": ("ResourceFunction", {"apiConfig": {"deleteIfExists": True}, "return": {"x": "=inputs.c"}}, None),
    "rf-readonly": ("ResourceFunction", {"apiConfig": {"readonly": True}, "return": {"x": "=inputs.c"}}, None),
    "rf-delays": ("ResourceFunction", {"create": {"delay": 3, "overlay": {"spec": {"n": 1}}},
                                       "update": {"patch": {"delay": 5}}, "return": {"x": "=inputs.c"}}, None),
    "rf-nore": ("ResourceFunction", {"overlays": [{"overlay": {"spec": {"v": "=inputs.nope"}}}],
                                     "return": {"x": "=inputs.c"}}, None),
}
STATES = ("absent", "match", "drift")


def bounds():
    return {"values": sorted(VALUES), "routes": ROUTES, "two_step": TWO_STEP, "functions": sorted(DO),
            "situations": SITUATIONS, "resource_states": STATES}


def cases():
    for value in VALUES:
        for route in ROUTES:
            if value == "null" and route == "rf-patch":
                continue  # nulls in a patch: the patch itself or its effect
            for d in range(-1, len(DIRECTED.get(value, ()))):
                yield {"k": "value", "value": value, "route": route, "directed": d, "steps": 1}
                if value in TWO_STEP and route in (("vf", "rf-create") if value.startswith("tiny") else ("vf",)):
                    n = 8
                    for part in range(n):
                        yield {"k": "value", "value": value, "route": route, "directed": d, "steps": 2,
                               "part": [part, n]}
    for name, (_, _, states) in DO.items():
        for state in states or STATES:
            for c in SITUATIONS:
                yield {"k": "do", "fut": name, "state": state, "c": c}


def thing(body, labels=None):
    md = {"name": "thing", "namespace": "ns1"}
    if labels:
        md["annotations"] = dict(labels)
    return {"apiVersion": defs.VERSION, "kind": defs.NS_KIND, "metadata": md, "spec": body}


def shifted(value):
    """The same members as value with every leaf different."""
    if isinstance(value, dict):
        return {k: shifted(v) for k, v in value.items()}
    if isinstance(value, list):
        return ["was"] if not value else [shifted(v) for v in value]
    return "was" if value != "was" else "were"


def route_spec(route):
    target = {"metadata": {"labels": {"l": "=inputs.label"}}, "spec": "=inputs.value"}
    if route == "vf":
        return "ValueFunction", {"return": {"out": "=inputs.value", "plus": {"deep": ["=inputs.label"]}}}
    if route == "rf-return":
        return "ResourceFunction", {"apiConfig": defs.api_config(readonly=True), "resource": {},
                                    "return": {"out": "=resource.spec", "label": "=inputs.label"}}
    if route == "rf-patch":
        target["metadata"]["annotations"] = {"mine": "=inputs.label"}
    return "ResourceFunction", {"apiConfig": defs.api_config(), "resource": target}


def with_directives(expected, route, d):
    out = copy.deepcopy(expected)
    d = dict(d)
    spot = out["spec"] if route in ("rf-create", "rf-patch") else out["out"]
    at = d.pop("at", None)
    spot = spot[at] if at else spot
    spot.update(copy.deepcopy(d))
    return out


async def setup(kind, spec, fut="c19"):
    defs.fresh()
    world = c18.World.__new__(c18.World)
    world.fut, world.kind, world.spec, world.memo, world.seen = fut, kind, spec, {}, {}
    return world, await defs.offer(kind, "fut", spec)


async def judge(stats, world, inputs, resource, rows, ref, case):
    """rows: list of (assertion, truth, description, actual); each is a variant of its own."""

    async def outcomes(batch):
        spec = {"functionRef": {"kind": world.kind, "name": "fut"}, "inputs": inputs, "testCases": [
            {"variant": True, "label": f"variant {i}", **row[0]} for i, row in enumerate(batch)]}
        if resource:
            spec["currentResource"] = resource
        prepared = await defs.prepare("FunctionTest", "test", spec)
        if not isinstance(prepared, tuple):
            return f"not prepared: {defs.outcome(prepared)}"
        try:
            got = await defs.run_function_test("loc", prepared[0])
        except Exception as err:
            if len(batch) == 1:
                return [("raises", repr(err))]
            half = len(batch) // 2
            first, second = await outcomes(batch[:half]), await outcomes(batch[half:])
            return first if isinstance(first, str) else second if isinstance(second, str) else first + second
        if len(got.test_results) != len(batch):
            return f"{len(got.test_results)} results for {len(batch)} cases"
        return [(bool(r.test_pass), f"{r.message!r} {str(r.differences)[:200]}") for r in got.test_results]

    def would_raise(row):
        """Only orders the rows: raising ones share batches."""
        try:
            if row[3] is not None:
                today(next(iter(row[0].values())), row[3], ("rows",))
            return False
        except Raises:
            return True

    if "only" in case:
        rows = [rows[case["only"]]]
    order = sorted(range(len(rows)), key=lambda i: would_raise(rows[i]))
    for at in range(0, len(order), 20):
        batch = [rows[i] for i in order[at:at + 20]]
        got = await outcomes(batch)
        if isinstance(got, str):
            stats.problem(f"{ref}: {got}", case)
            return
        stats.step(len(batch))
        for i, (observed, detail), (claim, truth, what, actual) in zip(order[at:at + 20], got, batch):
            if truth is None and observed != "raises":
                stats.count("not_judged")
                continue
            stats.evaluated()
            if observed == truth:
                continue
            (word, e), = claim.items()
            key = explained(e, actual, observed)
            if word == "expectResource" and observed is True and actual is None and resource and not set(e) - DIRECTIVES:
                key = KNOWN["none"]
            said = {"raises": "makes the runner raise", True: "passes", False: "fails"}[observed]
            stats.problem(
                f"{ref}: {what}: {json.dumps(claim)[:400]} {said}; it {'holds' if truth else 'does not hold'} ({detail})",
                {**case, "only": case.get("only", i)}, key=key)
            if not key:
                return


def check(stats, case):
    loop.run(lambda: (values if case["k"] == "value" else doing)(stats, case), max_turns=10**9)


async def values(stats, case):
    route, value = case["route"], VALUES[case["value"]]
    world, function = await setup(*route_spec(route))
    inputs = {"value": value, "label": "lab"}
    resource = None
    if route == "rf-return":
        resource = thing(value)
    elif route == "rf-patch":
        resource = thing(shifted(value), {"mine": "was"})
        resource["metadata"]["labels"] = {"l": "lab"}
    out, sent, deleted, _ = await world.real(function, copy.deepcopy(inputs), copy.deepcopy(resource))
    if route in ("rf-create", "rf-patch"):
        if sent is None:
            raise ValueError(f"{case}: nothing was sent: {out}")
        actual, word = c18.without_la(sent), "expectResource"
    else:
        if out["class"] != "Ok":
            raise ValueError(f"{case}: {out}")
        actual, word = out["value"], "expectReturn"
    base = copy.deepcopy(actual)
    if case["directed"] >= 0:
        base = with_directives(actual, route, DIRECTED[case["value"]][case["directed"]])
    rows = [({word: base}, exact(base, actual), "derived assertion", actual)]

    def add(e, how):
        if e and isinstance(e, dict):
            rows.append(({word: e}, exact(e, actual), how, actual))

    for k, (e, how) in enumerate(perturb(base)):
        if case["steps"] == 1:
            add(e, how)
        elif k % case["part"][1] == case["part"][0]:
            for e2, how2 in perturb(e) if isinstance(e, dict) else ():
                add(e2, f"{how}; {how2}")
    stats.state([case["value"], route, case["directed"], case["steps"], len(rows)])
    await judge(stats, world, inputs, resource, rows, f"{route} {case['value']}", case)
    stats.trace()
    stats.sample({"behaviour": actual, "assertions": len(rows)})


def fragments(message):
    message = message or ""
    out = ["", message, message.upper(), message.lower(), message[:3], message[-3:], message[2:-2], message.swapcase()]
    out += [message + "x", "x" + message, "zz-not-there", message[:3] + "\u0001", " " + message, message[::-1] + "!",
            f"{message} {message}", ".*", "%", "\n"]
    return list(dict.fromkeys(out))


def outcome_claims(out):
    """Every expectOutcome of interest, with its truth."""
    yield {"expectOutcome": {"ok": {}}}, out["class"] == "Ok", "ok"
    for cls, word in (("Skip", "skip"), ("DepSkip", "depSkip"), ("PermFail", "permFail"), ("Retry", "retry")):
        for text in fragments(out.get("message")):
            truth = out["class"] == cls and text.lower() in (out["message"] or "").lower()
            if truth and "loc:" in text.lower():
                truth = None  # the location of the test case
            if cls != "Retry":
                yield {"expectOutcome": {word: {"message": text}}}, truth, f"{word} {text!r}"
                continue
            have = out.get("delay", 30)
            for delay in dict.fromkeys((0, have, have + 1, max(have - 1, 1), 1, 30, 10 * have + 5, 3600)):
                yield ({"expectOutcome": {word: {"message": text, "delay": delay}}},
                       truth and delay in (0, have), f"{word} {text!r} {delay}")


async def doing(stats, case):
    kind, spec, _ = DO[case["fut"]]
    spec = copy.deepcopy(spec)
    body = {"v": 1, "l": ["x", {"y": True}]}
    if kind == "ResourceFunction":
        extra = spec.get("apiConfig", {})
        spec["apiConfig"] = defs.api_config(**extra)
        spec["resource"] = {} if extra.get("readonly") else {"spec": body}
    world, function = await setup(kind, spec)
    inputs = {"c": case["c"], "empty": ""}
    resource = {"absent": None, "match": thing(body), "drift": thing({"v": 2, "l": ["x", {"y": True}]})}[case["state"]]
    out, sent, deleted, _ = await world.real(function, copy.deepcopy(inputs), copy.deepcopy(resource))
    rows = [(*claim, None) for claim in outcome_claims(out)]
    value = out["value"] if out["class"] == "Ok" else None
    for e in ({"x": case["c"]}, {"x": case["c"], "y": None}, {"x": "zz"}, {"y": 1}, thing(body), {AS_SET: ["x"]}):
        truth = out["class"] == "Ok" and isinstance(value, dict) and exact(e, value)
        rows.append(({"expectReturn": e}, truth, "return", value))
    if kind == "ResourceFunction":
        for flag in (True, False):
            rows.append(({"expectDelete": flag}, deleted == flag, f"delete {flag}", None))
        object_sent = c18.without_la(sent) if sent is not None else None
        claims = [thing(body), thing({"v": 2, "l": ["x", {"y": True}]}), {"x": case["c"]}, {AS_SET: ["x"]},
                  {"metadata": {}}]
        if object_sent is not None:
            claims.append(object_sent)
            claims += [e for e, _ in perturb(object_sent) if e]
        for e in claims:
            rows.append(({"expectResource": e}, object_sent is not None and exact(e, object_sent), "resource", object_sent))
    stats.state([case["fut"], case["state"], case["c"]])
    ref = f"{case['fut']} ({case['state']}, {case['c']}) gave {out}, sent {sent is not None}, deleted {deleted}"
    await judge(stats, world, inputs, resource, rows, ref, case)
    stats.trace()
