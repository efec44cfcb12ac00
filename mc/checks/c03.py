"""C03 Outcome aggregation: every sequence over an outcome alphabet."""
import itertools

from .. import env, defs, loop
from ..report import THOROUGH, digest
from koreo import result as R

LEVEL = "model_checking"
RULE = (
    "every sequence (hence every permutation) over an alphabet of outcomes of all "
    "five classes (with/without message, location; falsy, container and null Ok "
    "values; delays 0/5/60) up to the length bound, through combine and "
    "unwrapped_combine given as list/tuple/dict view/generator; every assignment of "
    "outcome classes to the steps of workflows and the items of a forEach; every "
    "readiness assignment to refSwitch cases and overlays. A state is a distinct "
    "(entry point, class multiset signature, result class); a transition is one "
    "element folded or one step/item executed."
)
ASSUMPTIONS = [
    "the empty sequence has no most severe class and is only required not to raise",
    "messages are required to be contained in the combined message, in any joining style",
]

SEVERITY = {"DepSkip": 0, "Skip": 1, "Ok": 2, "Retry": 3, "PermFail": 4}

# (class, message kind, location?, delay / value)
ALPHABET = [
    ("DepSkip", None, False, None),
    ("DepSkip", "m", True, None),
    ("Skip", None, False, None),
    ("Skip", "m", True, None),
    ("Ok", None, False, "pos"),
    ("Ok", None, True, "none"),
    ("Ok", None, False, "list"),
    ("Ok", None, True, "zero"),
    ("Retry", None, False, 0),
    ("Retry", "m", False, 5),
    ("Retry", "m", True, 60),
    ("Retry", "", True, 5),
    ("PermFail", None, False, None),
    ("PermFail", "m", False, None),
    ("PermFail", "m", True, None),
]
SMALL = [1, 3, 4, 6, 9, 10, 13]
VALUES = {"none": lambda p: None, "list": lambda p: [p, [p]], "zero": lambda p: 0,
          "pos": lambda p: {"v": p}, "empty": lambda p: [], "str": lambda p: ""}


def bounds():
    return {
        "sequence_length_full_alphabet": 4 if THOROUGH else 3,
        "alphabet": len(ALPHABET),
        "sequence_length_small_alphabet": 6 if THOROUGH else 5,
        "workflow_steps": 4 if THOROUGH else 3,
        "forEach_items": 4 if THOROUGH else 3,
    }


def build(code, pos):
    cls, message, loc, extra = code
    text = f"msg<{pos}>" if message == "m" else message
    location = f"loc<{pos}>" if loc else None
    if cls == "Ok":
        return R.Ok(VALUES[extra](pos), location=location)
    if cls == "Retry":
        return R.Retry(message=text, delay=extra, location=location)
    return getattr(R, cls)(message=text, location=location)


def expected(codes):
    top = max((c[0] for c in codes), key=SEVERITY.get)
    out = {"class": top}
    if top == "Ok":
        out["values"] = [VALUES[c[3]](i) for i, c in enumerate(codes) if c[0] == "Ok"]
    elif top in ("Retry", "PermFail"):
        out["messages"] = [
            f"msg<{i}>" for i, c in enumerate(codes) if c[0] == top and c[1] == "m"
        ]
    if top == "Retry":
        out["delay"] = max(c[3] for c in codes if c[0] == "Retry")
    return out


def judge(exp, cls, values, message, delay):
    if cls != exp["class"]:
        return f"class {cls}, most severe present is {exp['class']}"
    if "values" in exp and not (
        isinstance(values, list) and defs.uncel(values) == exp["values"]
        and [type(v) for v in defs.uncel(values)] == [type(v) for v in exp["values"]]
    ):
        return f"values {values!r}, expected {exp['values']!r} in order"
    for text in exp.get("messages", ()):
        if text not in (message or ""):
            return f"message {text!r} lost from {message!r}"
    if "delay" in exp and delay != exp["delay"]:
        return f"delay {delay}, longest is {exp['delay']}"
    return None


def describe(outcome):
    if isinstance(outcome, R.Ok):
        return "Ok", outcome.data, None, None
    cls = defs.outcome_class(outcome)
    if cls == "Ok":
        return "Ok", outcome, None, None
    return cls, None, outcome.message, getattr(outcome, "delay", None)


FORMS = {
    "list": list,
    "tuple": tuple,
    "view": lambda xs: {i: x for i, x in enumerate(xs)}.values(),
    "generator": lambda xs: (x for x in xs),
}


def cases():
    full = bounds()["sequence_length_full_alphabet"]
    small = bounds()["sequence_length_small_alphabet"]
    # prefixes; each case extends its prefix to every sequence
    for n in range(0, 3):
        for seq in itertools.product(range(len(ALPHABET)), repeat=n):
            if n == 2:
                yield {"k": "seq", "prefix": seq, "alpha": "full", "len": full}
            else:
                yield {"k": "seq", "prefix": seq, "alpha": "full", "len": n}
    for seq in itertools.product(SMALL, repeat=2):
        yield {"k": "seq", "prefix": seq, "alpha": "small", "len": small}
    n = bounds()["workflow_steps"]
    for k in range(1, n + 1):
        for seq in itertools.product(STEP_ALPHABET, repeat=k):
            yield {"k": "wf", "seq": seq}
    for k in range(1, bounds()["forEach_items"] + 1):
        for seq in itertools.product(STEP_ALPHABET, repeat=k):
            yield {"k": "each", "seq": seq}
    for k in (1, 2, 3):
        for seq in itertools.product(("ready", "missing", "broken"), repeat=k):
            yield {"k": "switch", "seq": seq}
        for seq in itertools.product(("inline", "ready", "missing", "broken", "badexpr"), repeat=k):
            yield {"k": "overlays", "seq": seq}


STEP_ALPHABET = ["ok", "skip", "depSkip", "retry5", "retry60", "permFail"]


def check(stats, case):
    return {"seq": check_seq, "wf": check_wf, "each": check_each,
            "switch": check_switch, "overlays": check_overlays}[case["k"]](stats, case)


def check_seq(stats, case):
    prefix = tuple(case["prefix"])
    alpha = range(len(ALPHABET)) if case["alpha"] == "full" else SMALL
    if "only" in case:
        tails = [tuple(case["only"])]
    else:
        tails = itertools.chain.from_iterable(
            itertools.product(alpha, repeat=k)
            for k in range(0, case["len"] - len(prefix) + 1)
        )
    for tail in tails:
        codes = [ALPHABET[i] for i in prefix + tail]
        stats.step(len(codes))
        outs = [build(c, i) for i, c in enumerate(codes)]
        before = [vars(o).copy() for o in outs]
        unwrapped = [o.data if isinstance(o, R.Ok) else o for o in outs]
        exp = expected(codes) if codes else None
        forms = FORMS if len(codes) <= 2 else {"list": list}
        for form, make in forms.items():
            for entry, seq in ((R.combine, outs), (R.unwrapped_combine, unwrapped)):
                got = entry(make(seq))
                stats.evaluated()
                if not codes:
                    continue
                stats.trace()
                bad = judge(exp, *describe(got))
                if entry is R.combine and not bad and exp["class"] == "Ok" and not isinstance(got, R.Ok):
                    bad = "combine did not return an Ok"
                if bad:
                    stats.problem(
                        f"{entry.__name__}({form} of {codes}): {bad}",
                        {**case, "only": tail},
                    )
                    return
        if [vars(o) for o in outs] != before:
            stats.problem(f"combining modified its inputs: {codes}", {**case, "only": tail})
            return
        stats.state([sorted(c[0] for c in codes), exp and exp["class"]])
    stats.sample({"prefix": [ALPHABET[i] for i in prefix], "up_to_length": case["len"]})


OUTCOME_SPEC = {
    "preconditions": [
        {"assert": "=inputs.what != 'skip'", "skip": {"message": "='M-' + inputs.id"}},
        {"assert": "=inputs.what != 'depSkip'", "depSkip": {"message": "='M-' + inputs.id"}},
        {"assert": "=inputs.what != 'retry5'", "retry": {"delay": 5, "message": "='M-' + inputs.id"}},
        {"assert": "=inputs.what != 'retry60'", "retry": {"delay": 60, "message": "='M-' + inputs.id"}},
        {"assert": "=inputs.what != 'permFail'", "permFail": {"message": "='M-' + inputs.id"}},
    ],
    "return": {"id": "=inputs.id"},
}
CLASS_OF = {"ok": "Ok", "skip": "Skip", "depSkip": "DepSkip", "retry5": "Retry",
            "retry60": "Retry", "permFail": "PermFail"}


def step_expect(seq, ids):
    top = max((CLASS_OF[s] for s in seq), key=SEVERITY.get)
    out = {"class": top}
    if top == "Ok":
        out["values"] = [{"id": i} for s, i in zip(seq, ids) if s == "ok"]
    if top in ("Retry", "PermFail"):
        out["messages"] = [f"M-{i}" for s, i in zip(seq, ids) if CLASS_OF[s] == top]
    if top == "Retry":
        out["delay"] = max(int(s[5:]) for s in seq if s.startswith("retry"))
    return out


def run(stats, case, spec_steps):
    async def go():
        defs.fresh()
        await defs.offer("ValueFunction", "f", OUTCOME_SPEC)
        wf = await defs.offer("Workflow", "w", {"steps": spec_steps})
        return await defs.run_wf(None, wf, {})

    return loop.run(go)


def check_wf(stats, case):
    seq = case["seq"]
    ids = [f"st{i}" for i in range(len(seq))]
    steps = [
        {"label": i, "ref": {"kind": "ValueFunction", "name": "f"},
         "inputs": {"what": s, "id": i}}
        for s, i in zip(seq, ids)
    ]
    res = run(stats, case, steps)
    stats.trace()
    stats.step(len(seq))
    exp = step_expect(seq, ids)
    stats.state(["wf", sorted(seq), exp["class"]])
    bad = judge(exp, *describe(res.result))
    if bad:
        stats.problem(f"workflow with step outcomes {seq}: {bad}", case)
    stats.sample({"workflow step outcomes": seq, "result": exp["class"]})


def check_each(stats, case):
    seq = case["seq"]
    ids = [f"i{i}" for i in range(len(seq))]
    items = [{"what": s, "id": i} for s, i in zip(seq, ids)]
    steps = [
        {"label": "each", "ref": {"kind": "ValueFunction", "name": "g"},
         "forEach": {"itemIn": "=" + str(items).replace('"', "'"), "inputKey": "item"},
         "inputs": {"fixed": 1}}
    ]
    g = {
        "preconditions": [
            {**p, "assert": p["assert"].replace("inputs.", "inputs.item."),
             **{k: {kk: (vv.replace("inputs.", "inputs.item.") if isinstance(vv, str) else vv)
                    for kk, vv in v.items()} for k, v in p.items() if k != "assert"}}
            for p in OUTCOME_SPEC["preconditions"]
        ],
        "return": {"id": "=inputs.item.id"},
    }

    async def go():
        defs.fresh()
        await defs.offer("ValueFunction", "g", g)
        wf = await defs.offer("Workflow", "w", {"steps": steps})
        return await defs.run_wf(None, wf, {})

    res = loop.run(go)
    stats.trace()
    stats.step(len(seq))
    errors = [s for s in seq if CLASS_OF[s] in ("Retry", "PermFail")]
    cls, values, message, delay = describe(res.result)
    stats.state(["each", sorted(seq), cls])
    if not errors:
        if cls != "Ok":
            stats.problem(f"forEach items {seq}: workflow is {cls}, nothing waits or failed", case)
            return
        got = defs.uncel(values)
        want = [{"id": i} if s == "ok" else None for s, i in zip(seq, ids)]
        if len(got) != 1 or len(got[0]) != len(seq) or any(
            w is not None and g_ != w for g_, w in zip(got[0], want)
        ):
            stats.problem(f"forEach items {seq}: values {got}, expected {want}", case)
        return
    exp = step_expect(errors, [i for s, i in zip(seq, ids) if s in errors])
    bad = judge(exp, cls, values, message, delay)
    if bad:
        stats.problem(f"forEach items {seq}: {bad}", case)


async def _functions(seq):
    defs.fresh()
    for i, s in enumerate(seq):
        if s == "ready":
            await defs.offer("ValueFunction", f"fn{i}", {"return": {"r": i}})
        elif s == "broken":
            await defs.offer("ValueFunction", f"fn{i}", {"return": {"r": "=1 +"}})


def check_switch(stats, case):
    seq = case["seq"]

    async def go():
        await _functions(seq)
        wf = await defs.offer("Workflow", "w", {"steps": [{
            "label": "sel",
            "refSwitch": {"switchOn": "=parent.which", "cases": [
                {"case": f"c{i}", "kind": "ValueFunction", "name": f"fn{i}"}
                for i in range(len(seq))]},
        }]})
        return await defs.run_wf(None, wf, {"which": "c0"})

    res = loop.run(go)
    stats.trace()
    stats.step(len(seq))
    cls, values, message, delay = describe(res.result)
    stats.state(["switch", sorted(seq), cls])
    want = "Retry" if set(seq) != {"ready"} else "Ok"
    if cls != want:
        stats.problem(f"refSwitch over {seq} functions: {cls}, expected {want}", case)
        return
    if want == "Retry":
        for i, s in enumerate(seq):
            if s != "ready" and f"fn{i}" not in (message or ""):
                stats.problem(f"refSwitch over {seq}: message about fn{i} lost: {message}", case)


def check_overlays(stats, case):
    seq = case["seq"]

    async def go():
        await _functions(seq)
        overlays = []
        for i, s in enumerate(seq):
            if s == "inline":
                overlays.append({"overlay": {"spec": {f"k{i}": i}}})
            elif s == "badexpr":
                overlays.append({"overlay": {"spec": {f"k{i}": f"=1 + + bad{i}("}}})
            else:
                overlays.append({"overlayRef": {"kind": "ValueFunction", "name": f"fn{i}"}})
        f = await defs.offer("ResourceFunction", "rf", {
            "apiConfig": defs.api_config(), "resource": {"spec": {"a": 1}},
            "overlays": overlays})
        if not R.is_unwrapped_ok(f):
            return f, None
        from ..cluster import Cluster
        c = Cluster()
        r = await defs.run_rf(c, f, {})
        return r.outcome, c

    got, cluster = loop.run(go)
    stats.trace()
    stats.step(len(seq))
    cls, values, message, delay = describe(got)
    stats.state(["overlays", sorted(seq), cls])
    if "badexpr" in seq:
        want, needed = "PermFail", [f"bad{i}" for i, s in enumerate(seq) if s == "badexpr"]
    elif {"missing", "broken"} & set(seq):
        want = "Retry"
        needed = [f"fn{i}" for i, s in enumerate(seq) if s in ("missing", "broken")]
    else:
        want, needed = "Retry", []  # created
    if cls != want or (cluster and bool(cluster.mutations()) != (not needed)):
        stats.problem(f"overlays {seq}: {cls} ({message}), expected {want}", case)
        return
    for text in needed:
        if text not in (message or ""):
            stats.problem(f"overlays {seq}: message about {text} lost: {message}", case)
