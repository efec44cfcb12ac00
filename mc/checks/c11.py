"""C11: literal values of a definition reach results and resources unchanged."""
import itertools

from .. import defs, krm, loop
from ..cluster import Cluster, plain
from ..report import THOROUGH

LEVEL = "model_checking"
RULE = ("every string over an adversarial alphabet up to the length bound, every numeral-like string up to the "
        "length bound and every bounded JSON structure, written literally (as a value, list member, map key and "
        "nested) at every literal site of every definition kind; delivered value compared type-exactly")
ASSUMPTIONS = [
    "Numbers outside CEL's 64-bit integers and finite doubles, and the forms '.5' and '1.', may arrive as the "
    "string or as the number; anything else must match exactly.",
    "Map keys are strings (definitions come from the Kubernetes API).",
    "ResourceTemplate.template is a static object: its numeral strings may stay strings.",
]

ALPHABET = ['"', "\\", "'", "\n", "\r", "n", "x", "0", "=", " ", "/", "{", "\t", "\u00e9"]
NUMERIC = "019-+.eE_ "
WORDS = [
    "true", "false", "null", "True", "None", "inf", "-inf", "nan", "NaN", "infinity", "Infinity", "0x1F", "0b1",
    "0o7", "1u", "10U", "1_000", "-1_0.5", " 12 ", "12\n", "\t7", "+5", "+5.5", "--5", "- 5", "1e5", "1E-3", "-1.5e+2",
    "1e+22", "007", "-0", "-0.0", "0.1", "1.10", "3.0", "٣", "１２", "²", "1.5.2", "1.", ".5", "-.5", "1e", "e1", "1e+",
    "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551616",
    "-9223372036854775809", "123456789012345678901234567890", "12e4567", "-1e999", "1e-400", "0.1234567890123456789",
    "C:\\new\\table", "\\u0041", "\\x41", "\\101", "\\U0001F600", "a\\", "\\\\", 'say "hi"', '"""', "'''", '"\\"',
    "line1\nline2", 'multi\n"quoted"\nline\\', "\r\n", "\n", "trailing\n", "//comment", "a // b", "# no", "r\"raw\"",
    "b'x'", "{\"a\": 1}", "{{ .Values.x }}", "${VAR}", "$(cmd)", "%s", "{0}", "{", "}", "[", "]", "(", ",", ":", "1 + 1",
    "inputs.x", "'", "''", "a=b", " =x", "x=", "é", "\u2028", "\u2029", "\x00", "\x0b", "\x0c", "\x1c", "\x85", "\x7f",
    "😀", "\ufeff", "tab\tq", "#!/bin/sh\nset -e\necho \"$HOME\" | sed 's/\\//x/g'\n", "^\\d+\\.\\d*$",
    "-----BEGIN KEY-----\nab+/=\n-----END KEY-----\n", "a" * 3000, '"' * 40, "\\" * 41,
]
KEYS = ["a", "a.b/c", "\"", "\\", "a\\", "'", "a\nb", "\r", "1", "1.5", "-1", "true", "null", "=x", "", " ", "a\"b\"",
        "\"\"\"", "é", "if", "in", "package", "//", "{", "\\n", "\t", "\u2028"]
LEAVES = [None, True, False, 0, 1, -1, 2**63 - 1, -(2**63), 2**53 + 1, 0.0, 1.0, -0.0, 1.5, -2.5e-7, 1e22, 1e16, 1e-5,
          1e100, 1.7976931348623157e308, 5e-324, 0.1, 123456789.123456789, "", "a", [], {}]
SMALL = [None, True, False, 0, 1.5, "", "a", "7", [], {}]

FULL = ("vf.return",)
SITES = ("vf.return", "vf.locals", "rf.resource", "rf.template", "rf.overlay", "rf.create", "rf.locals", "rf.return",
         "rf.ref-inputs", "rf.patch", "wf.inputs", "wf.state", "wf.each", "wf.sub", "wf.empty", "rf.annotation", "vf.deep")
# what the steps of site wf.empty return: literal state is published whatever the value
EMPTY = {"null": "=null", "false": "=false", "zero": "=0", "text": "=''", "list": "=[]", "map": "={}", "none": None}


def chunks(items, size):
    items = list(items)
    for i in range(0, len(items), size):
        yield items[i:i + size]


def strings(length):
    for n in range(0, length + 1):
        for combo in itertools.product(ALPHABET, repeat=n):
            s = "".join(combo)
            if not s.startswith("="):
                yield s


def numerics(length):
    for n in range(1, length + 1):
        for combo in itertools.product(NUMERIC, repeat=n):
            yield "".join(combo)


def trees():
    """Every map/list of at most two children, two levels deep."""
    level = list(SMALL)
    level += [[a] for a in SMALL] + [{"k": a} for a in SMALL]
    yield from ([a, b] for a in level for b in level)
    yield from ({"p": a, "q": b} for a in level for b in level)
    yield from ([[x]] for x in level)
    yield from ({"p": {"q": x}} for x in level)


def bounds():
    return {"alphabet": len(ALPHABET), "string_length": {s: 3 if s in FULL else 2 for s in SITES},
            "string_length_thorough": {s: 4 if s in FULL else 3 for s in SITES},
            "numeric_alphabet": NUMERIC, "numeric_length": 5 if THOROUGH else 4, "sites": len(SITES),
            "words": len(WORDS), "keys": len(KEYS)}


def cases():
    for site in SITES:
        for part in chunks(WORDS, 24):
            yield {"site": site, "values": part}
        yield {"site": site, "values": LEAVES}
        for part in chunks(({k: i} for i, k in enumerate(KEYS)), 14):
            yield {"site": site, "values": part}
        if site != "rf.annotation":
            for part in chunks(trees(), 100):
                yield {"site": site, "values": part}
        for part in chunks(strings((4 if THOROUGH else 3) if site in FULL else (3 if THOROUGH else 2)), 60):
            yield {"site": site, "values": part}
    for part in chunks(numerics(5 if THOROUGH else 4), 100):
        yield {"site": "vf.return", "values": part}
    for site in SITES:
        for part in chunks(numerics(2), 60):
            yield {"site": site, "values": part}
    for part in chunks(strings(3 if THOROUGH else 2), 60):
        yield {"site": "vf.return", "values": [{k: 1} for k in part], "keys": True}




# --- the reference: what the property says must arrive -------------------------

def digits(s, i):
    j = i
    while j < len(s) and s[j] in "0123456789":
        j += 1
    return j


def numeral(s):
    """'int', 'float', 'edge' or None, for a whole string, decided by hand."""
    i = 1 if s[:1] == "-" else 0
    j = digits(s, i)
    whole = j - i
    kind, frac = "int", None
    if s[j:j + 1] == ".":
        k = digits(s, j + 1)
        frac = k - j - 1
        j, kind = k, "float"
    if not whole and not frac:
        return None
    if s[j:j + 1] in ("e", "E"):
        k = j + 1 + (s[j + 1:j + 2] in ("+", "-"))
        m = digits(s, k)
        if m == k:
            return None
        j, kind = m, "float"
    if j != len(s):
        return None
    if not whole or frac == 0:
        return "edge"
    if kind == "int" and not -(2**63) <= int(s) < 2**63:
        return "edge"
    if kind == "float" and float(s) in (float("inf"), float("-inf")):
        return "edge"
    return kind


def same(want, got, template=False):
    if isinstance(want, dict):
        return (isinstance(got, dict) and set(want) == set(got)
                and all(same(want[k], got[k], template) for k in want))
    if isinstance(want, list):
        return isinstance(got, list) and len(want) == len(got) and all(
            same(a, b, template) for a, b in zip(want, got))
    if isinstance(want, str):
        kind = numeral(want)
        if isinstance(got, str):
            return got == want and (template or kind in (None, "edge"))
        if isinstance(got, bool) or kind is None or not isinstance(got, (int, float)):
            return False
        if kind == "int":
            return isinstance(got, int) and got == int(want)
        return float(got) == float(want)
    if want is None or got is None:
        return want is got
    return type(want) is type(got) and repr(want) == repr(got)


# --- delivery ----------------------------------------------------------------

def block_of(values):
    """One literal block with every value at several kinds of position."""
    return {
        "m": {f"k{i}": v for i, v in enumerate(values)},
        "l": list(values),
        "n": {"d": [{"e": {"f": [v]}} for v in values]},
        "end": "stop",
    }


IDENT = {"return": {"got": "=inputs.b"}}


async def offer(kind, name, spec):
    got = await defs.offer(kind, name, spec)
    if defs.outcome_class(got) != "Ok":
        raise Refused(f"{kind} {name} was not prepared: {got.message}")
    return got


class Refused(Exception):
    pass


def ok(outcome):
    d = defs.outcome(outcome)
    if d["class"] != "Ok":
        raise Refused(f"outcome {d}")
    return d["value"]


async def deliver(site, block):
    """Run the site; returns the block as it arrived."""
    if site in ("vf.return", "vf.locals", "vf.deep"):
        spec = {"vf.return": {"return": block},
                "vf.locals": {"locals": {"b": block}, "return": {"b": "=locals.b"}},
                "vf.deep": {"return": {"x": {"y": {"z": block}}, "after": 1}}}[site]
        value = ok(await defs.run_vf(await offer("ValueFunction", "fn", spec), {}))
        if site == "vf.deep":
            return value["x"]["y"]["z"]
        return value if site == "vf.return" else value["b"]
    if site.startswith("wf."):
        await offer("ValueFunction", "ident", IDENT)
        if site == "wf.inputs":
            step = {"ref": {"kind": "ValueFunction", "name": "ident"}, "label": "one", "inputs": {"b": block},
                    "state": {"s": "=value.got"}}
        elif site == "wf.state":
            step = {"ref": {"kind": "ValueFunction", "name": "ident"}, "label": "one", "inputs": {"b": 1},
                    "state": {"s": block}}
        elif site == "wf.each":
            step = {"ref": {"kind": "ValueFunction", "name": "ident"}, "label": "one",
                    "inputs": {"b": block}, "forEach": {"itemIn": "=[1]", "inputKey": "item"},
                    "state": {"s": "=value[0].got"}}
        elif site == "wf.empty":
            steps = []
            for label, value in EMPTY.items():
                await offer("ValueFunction", f"empty-{label}",
                            {"preconditions": [{"assert": "=true", "skip": {"message": "no"}}]} if value is None
                            else {"return": {"got": value}})
                steps.append({"ref": {"kind": "ValueFunction", "name": f"empty-{label}"}, "label": label,
                              "state": {f"s_{label}": block}})
            steps.append({"ref": {"kind": "ValueFunction", "name": "ident"}, "label": "noitems",
                          "inputs": {"b": 1}, "forEach": {"itemIn": "=[]", "inputKey": "item"},
                          "state": {"s_noitems": block}})
            res = await defs.run_wf(Cluster(), await offer("Workflow", "wf", {"steps": steps}), {})
            state = defs.uncel(res.state)
            want = {f"s_{step['label']}" for step in steps}
            if set(state) != want:
                raise Refused(f"state has {sorted(state)}, written {want} ({res.result}, {res.state_errors})")
            parts = list(state.values())
            if any(not krm.strict(part) == krm.strict(parts[0]) for part in parts):
                raise Refused(f"the same literal arrived differently: {state}")
            return parts[0]
        else:
            await offer("Workflow", "inner", {"steps": [
                {"ref": {"kind": "ValueFunction", "name": "ident"}, "label": "inr",
                 "inputs": {"b": "=parent.b"}, "state": {"s": "=value.got"}}]})
            step = {"ref": {"kind": "Workflow", "name": "inner"}, "label": "one", "inputs": {"b": block},
                    "state": {"s": "=value.s"}}
        wf = await offer("Workflow", "wf", {"steps": [step]})
        res = await defs.run_wf(Cluster(), wf, {})
        return defs.uncel(res.state)["s"] if "s" in (res.state or {}) else explain(res)
    spec = {"apiConfig": defs.api_config(), "resource": {"spec": {"other": 1}},
            "return": {"r": "=resource.spec"}}
    if site == "rf.resource":
        spec["resource"] = {"spec": {"b": block}}
    elif site == "rf.annotation":
        notes = {f"k{i}": v for i, v in enumerate(block["l"]) if isinstance(v, str)}
        spec["resource"] = {"spec": {"b": 1}, "metadata": {"annotations": notes, "labels": notes}}
    elif site == "rf.template":
        await offer("ResourceTemplate", "tpl", {"template": {
            "apiVersion": defs.VERSION, "kind": defs.NS_KIND, "spec": {"b": block}}})
        del spec["resource"]
        spec["resourceTemplateRef"] = {"name": "tpl"}
    elif site in ("rf.overlay", "rf.patch"):
        spec["overlays"] = [{"overlay": {"spec": {"b": block}}}]
    elif site == "rf.create":
        spec["create"] = {"overlay": {"spec": {"b": block}}}
    elif site == "rf.ref-inputs":
        await offer("ValueFunction", "ovf", {"return": {"spec": {"b": "=inputs.b"}}})
        spec["overlays"] = [{"overlayRef": {"kind": "ValueFunction", "name": "ovf"}, "inputs": {"b": block}}]
    elif site == "rf.locals":
        spec["locals"] = {"b": block}
        spec["resource"] = {"spec": {"b": "=locals.b"}}
    elif site == "rf.return":
        spec["return"] = {"b": block}
    fn = await offer("ResourceFunction", "fn", spec)
    cluster = Cluster()
    if site == "rf.patch":
        obj = krm.forced()
        obj["spec"] = {"b": {"m": {"stale": 1}, "end": "go"}}
        cluster.put(defs.NS_PLURAL, obj)
    out, _ = await defs.run_rf(cluster, fn, {})
    sent = [c for c in cluster.log if c.op in ("POST", "PATCH")]
    if not sent:
        raise Refused(f"nothing was sent: {defs.outcome(out)}")
    if why := krm.audit(sent[0]):
        raise Refused(why)
    if site == "rf.return":
        out, _ = await defs.run_rf(cluster, fn, {})
        return ok(out)["b"]
    if site == "rf.annotation":
        meta = sent[0].payload["metadata"]
        notes = {k: v for k, v in meta.get("annotations", {}).items() if k != krm.LA}
        if not krm.strict(notes) == krm.strict(meta.get("labels", {})):
            raise Refused(f"labels {meta.get('labels')} differ from annotations {notes}")
        return {"notes": notes}
    return sent[0].payload["spec"]["b"]


def explain(res):
    raise Refused(f"workflow result {res.result} with errors {res.state_errors}")


def once(site, values):
    """Problem found when these values are written at the site, or None."""
    defs.fresh()
    block = block_of(values)
    want = block
    if site == "rf.annotation":
        want = {"notes": {f"k{i}": v for i, v in enumerate(block["l"]) if isinstance(v, str)}}
    try:
        got = loop.run(lambda: deliver(site, block))
    except Refused as why:
        return str(why)
    if not same(want, got, template=site == "rf.template"):
        return f"arrived as {difference(want, got, site == 'rf.template')}"
    return None


def difference(want, got, template):
    if isinstance(want, dict) and isinstance(got, dict) and set(want) == set(got):
        for k in want:
            if not same(want[k], got[k], template):
                return difference(want[k], got[k], template)
    if isinstance(want, list) and isinstance(got, list) and len(want) == len(got):
        for a, b in zip(want, got):
            if not same(a, b, template):
                return difference(a, b, template)
    return f"{want!r} -> {got!r}"


def check(stats, case):
    values, site = case["values"], case["site"]
    stats.trace()
    stats.evaluated(len(values) * 3)
    stats.step(len(values))
    for v in values:
        stats.state([site, v])
    why = once(site, values)
    if why is None:
        stats.sample({"site": site, "values": values[:3]})
        return
    if len(values) > 1:
        for v in values:  # narrow down
            if alone := once(site, [v]):
                stats.problem(f"{site}: literal {v!r}: {alone[:300]}", {"site": site, "values": [v]})
                return
    stats.problem(f"{site}: literals {values!r}: {why[:300]}", case)
