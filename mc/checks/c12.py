"""C12 Targets and returns are ordered deep merges; evaluation is pure."""
import copy
import itertools

from celpy import celtypes

from .. import defs, env, krm, loop
from ..cluster import Cluster, plain
from ..report import THOROUGH, CodeProblem

LEVEL = "model_checking"
RULE = (
    "every ordered tree shape up to the leaf and depth bound with distinct leaves (all index arithmetic), every pair "
    "of base and overlay documents over two keys, two levels and {absent, scalar, list, null, empty map, map}, every "
    "sequence of overlays (inline or overlayRef, skipped or not, static or computed from inputs, locals and the "
    "current resource) over inline and template bases with create overlays, on created and patched objects. "
    "Reference: a ten-line deep merge of the same documents. Purity: type-exact snapshots of inputs, base, cached "
    "template and prepared overlay index before and after, and every evaluation repeated after others. A state is a "
    "distinct (base, overlays, skips), a transition one overlay application."
)
ASSUMPTIONS = [
    "a leaf expression that evaluates to a map over an existing map may replace it or be merged, consistently",
    "identity fields, owner references and the last-applied annotation are judged by C06 and C08",
]


def bounds():
    return {"leaves": 6 if THOROUGH else 5, "depth": 4, "pair_documents": len(DOCS), "sequence_documents": len(SEQ),
            "sequence_length": 4 if THOROUGH else 3}


# --- reference ---------------------------------------------------------------

class Fails(Exception):
    pass


class Open(Exception):
    """CEL leaves the result open (has() on something that is no map)."""


def spec_map(scope, otherwise):
    spec = lookup("resource", "spec")(scope)
    if not isinstance(spec, dict):
        raise otherwise
    return spec


def lookup(*path):
    def get(scope):
        value = scope
        for p in path:
            if not isinstance(value, dict) or p not in value:
                raise Fails(path)
            value = value[p]
        return copy.deepcopy(value)
    return get


EXPRS = {
    "=inputs.s": lookup("inputs", "s"),
    "=inputs.m": lookup("inputs", "m"),
    "=inputs.l": lookup("inputs", "l"),
    "=inputs.e": lookup("inputs", "e"),
    "=locals.v": lookup("locals", "v"),
    "=locals.m": lookup("locals", "m"),
    "=resource.spec.a": lookup("resource", "spec", "a"),
    "=resource.spec": lookup("resource", "spec"),
    "={'x': inputs.s}": lambda s: {"x": s["inputs"]["s"]},
    "={}": lambda s: {},
    "=has(resource.spec.a) ? resource.spec.a : 'none'": lambda s: copy.deepcopy(spec_map(s, Open).get("a", "none")),
    "=[resource.spec]": lambda s: [copy.deepcopy(s["resource"]["spec"])],
    "=overlay(resource.spec, {'z': 1})": lambda s: {**copy.deepcopy(spec_map(s, Fails)), "z": 1},
    "=resource.metadata.name": lookup("resource", "metadata", "name"),
}


def value_of(value, scope):
    """Evaluated leaf: expressions may sit inside lists too."""
    if isinstance(value, str) and value.startswith("="):
        return EXPRS[value](scope)
    if isinstance(value, list):
        return [value_of(v, scope) for v in value]
    if isinstance(value, dict):
        return {k: value_of(v, scope) for k, v in value.items()}
    return value


def merge(base, overlay, scope, computed):
    out = copy.deepcopy(base)
    for key, value in overlay.items():
        if isinstance(value, dict) and value:
            sub = out.get(key)
            out[key] = merge(sub if isinstance(sub, dict) else {}, value, scope, computed)
            continue
        got = value_of(value, scope)
        if computed == "merge" and isinstance(got, dict) and got and isinstance(out.get(key), dict):
            got = merge(out[key], got, {}, computed)
        out[key] = got
    return out


# --- documents ---------------------------------------------------------------

def docs(leaves, depth):
    """Every map over keys a, b (possibly empty) with these leaves."""
    subs = [None] if depth == 1 else [None] + [d for d in docs(leaves, depth - 1) if d]
    options = [("leaf", v) for v in leaves] + [("map", s) for s in subs if s]
    for a, b in itertools.product([None] + options, repeat=2):
        doc = {}
        if a:
            doc["a"] = copy.deepcopy(a[1])
        if b:
            doc["b"] = copy.deepcopy(b[1])
        yield doc


DOCS = list(docs([1, [2], {}], 2))
SMALL = list(docs([1, {}], 1)) + [{"a": {"b": 3}}, {"a": {"a": {"a": 4}}}, {"a": {"a": 1}, "b": {"b": []}}, {"b": {"a": None}},
                                  {"a": None}, {"a": [{"a": 1}]}]
SEQ = [
    {"spec": {"a": 1}}, {"spec": {"a": {"b": 2}}}, {"spec": {"a": {}}}, {"spec": {"b": [1, {"c": 2}]}},
    {"spec": {"a": {"b": {"c": 3}}, "b": 4}, "data": {"k": "v"}}, {"metadata": {"labels": {"l": "one"}}, "spec": {"c": None}},
    {"spec": "=inputs.m"}, {"spec": {"a": "=inputs.m"}}, {"spec": {"b": "=resource.spec"}},
    {"spec": {"b": "=has(resource.spec.a) ? resource.spec.a : 'none'", "a": "=locals.v"}},
    {"spec": {"d": "=overlay(resource.spec, {'z': 1})"}}, {"spec": {"a": "=inputs.e", "e": ["=inputs.s", {"f": "=inputs.l"}]}},
    {"metadata": {"name": "other"}, "spec": {"n": "=resource.metadata.name"}}, {"spec": {}}, {"spec": "s"},
]
INPUTS = {"s": "str", "m": {"a": {"q": 1}, "m": [1]}, "l": [1, [2], {"l": 3}], "e": {}}


def shapes(leaves, depth):
    """Ordered forests with exactly `leaves` leaves: None is a leaf, a list is a map."""
    if leaves == 0:
        yield []
        return
    for first in range(1, leaves + 1):
        heads = [None] if first == 1 else []
        if depth > 1:
            heads = heads + list(shapes(first, depth - 1))
        for head in heads:
            for rest in shapes(leaves - first, depth):
                yield [head] + rest


def spines():
    """Long sibling runs before and after a nested map, three levels down, then a second nest."""
    runs = (0, 1, 2, 3, 5, 8) if THOROUGH else (0, 1, 3, 5)
    for a, b, c, d, e in itertools.product(runs, repeat=5):
        inner = [None] * e + [[None, None]] + [None]
        yield [None] * a + [[None] * c + [inner] + [None] * d] + [None] * b + [[None, [None]]]


def realise(forest, leaf, names="abcdefgh"):
    out = {}
    for i, sub in enumerate(forest):
        out[f"{names[i % len(names)]}{i}"] = leaf() if sub is None else realise(sub, leaf, names)
    return out


def counter(make):
    n = itertools.count()
    return lambda: make(next(n))


WEIRD = ["a.b/c", "\"", "\\", "1", "true", "", " ", "=x", "é", "a\nb", "resource", "inputs", "values", "items", "get", "keys"]


def chunks(items, size):
    items = list(items)
    for i in range(0, len(items), size):
        yield items[i:i + size]


def cases():
    for i, base in enumerate(SMALL + [{"w": {w: i for i, w in enumerate(WEIRD)}}]):
        yield {"mode": "leaf", "base": base}
    for part in chunks(WEIRD, 6):
        yield {"mode": "keys", "keys": part}
    for depth in (2, 10, 40):
        yield {"mode": "deep", "depth": depth}
    for width in (50, 200):
        yield {"mode": "wide", "width": width}
    for part in chunks(range(len(DOCS)), 30):
        yield {"mode": "overlay-fn", "overlays": part}
    for name in FUNCTIONS:
        yield {"mode": "function", "name": name}
    for n in range(1, bounds()["leaves"] + 1):
        for part in chunks(shapes(n, 4), 24):
            yield {"mode": "shape", "shapes": part}
    for part in chunks(spines(), 64):
        yield {"mode": "shape", "shapes": part}
    for n in range(1, 5 if THOROUGH else 4):
        for part in chunks(shapes(n, 4), 12):
            yield {"mode": "shape-rf", "shapes": part}
    for i in range(len(DOCS)):
        if DOCS[i]:
            yield {"mode": "pair", "overlay": DOCS[i]}
    for doc in SMALL:
        if doc:
            for where in ("inline", "ref", "create"):
                yield {"mode": "pair-rf", "overlay": doc, "where": where}
    n = bounds()["sequence_length"]
    for k in (1, 2, n):
        for seq in itertools.product(range(len(SEQ)), repeat=k):
            if k >= 3 and (max(seq) - min(seq) > 6) and not THOROUGH and sum(seq) % 3:
                continue
            yield {"mode": "sequence", "overlays": list(seq)}
    for seq in itertools.product(range(len(SEQ)), repeat=2):
        yield {"mode": "chain", "overlays": list(seq)}


# --- running -----------------------------------------------------------------

def frozen(value):
    """Type-exact picture of CEL or plain data."""
    if isinstance(value, dict):
        return ("map", type(value).__name__, [(frozen(k), frozen(v)) for k, v in value.items()])
    if isinstance(value, (list, tuple)):
        return ("list", type(value).__name__, [frozen(v) for v in value])
    return (type(value).__name__, repr(value))


async def offer(kind, name, spec):
    got = await defs.offer(kind, name, spec)
    if defs.outcome_class(got) != "Ok":
        raise CodeProblem(f"{kind} was not prepared: {got.message} ({spec})")
    return got


def strict_equal(a, b):
    return krm.strict(a) == krm.strict(b)


def vf_run(fn, base, inputs):
    """Returned document, checking that nothing given was modified."""
    given = defs.cel(inputs)
    cel_base = None if base is None else defs.cel(base)
    before = (frozen(given), frozen(cel_base), repr(fn.return_value and fn.return_value.value_index))
    out = loop.run(lambda: defs.reconcile_value_function(
        location="loc", function=fn, inputs=given, value_base=cel_base))
    after = (frozen(given), frozen(cel_base), repr(fn.return_value and fn.return_value.value_index))
    if before != after:
        which = [n for n, x, y in zip(("inputs", "base", "function"), before, after) if x != y]
        return defs.outcome(out), f"evaluation modified {which}"
    return defs.outcome(out), None


def wanted(base, overlays, inputs, local=None, pre=None):
    """Allowed final documents (or 'PermFail')."""
    allowed = []
    for computed in ("replace", "merge"):
        doc = copy.deepcopy(base)
        try:
            for overlay in overlays:
                scope = {"inputs": inputs, "locals": local or {}, "resource": doc}
                doc = merge(doc, overlay, scope, computed)
                if pre:
                    pre(doc)
        except Fails:
            doc = "PermFail"
        except Open:
            doc = "anything"
        if doc not in allowed:
            allowed.append(doc)
    return allowed


def judge(stats, got, allowed, case, what):
    stats.evaluated()
    if "anything" in allowed or got["class"] == "PermFail" and "PermFail" in allowed:
        return True
    if got["class"] == "Ok" and any(not isinstance(a, str) and strict_equal(got["value"], a) for a in allowed):
        return True
    stats.problem(f"{what}: got {got}, wanted {allowed}", case)
    return False


def check(stats, case):
    globals()["check_" + case["mode"].replace("-", "_")](stats, case)
    stats.sample({k: v for k, v in case.items() if k != "shapes"})


def tuples(x):
    return x


def bases_for(shape):
    full = realise(shape, counter(lambda i: 1000 + i))
    yield "empty", {}
    yield "absent", None
    yield "same", full
    yield "other", {"zz": 1, "a0": {"zz": 2}, "b1": {"a0": {"zz": 3}}}
    yield "scalars", {k: "scalar" for k in full}
    yield "maps", realise(shape, counter(lambda i: {"deep": {"er": i}}))
    yield "lists", {k: [{"x": 1}] for k in full}


LEAVES = {
    "number": lambda i: i,
    "expr": lambda i: f"={i} + 100",
    "list": lambda i: [i, {"l": i}],
    "mixed": lambda i: [i, {}, [i], f"={i} + 100", f"s{i}"][i % 5],
}


def numbers(value):
    """Resolve the arithmetic leaf expressions."""
    if isinstance(value, dict):
        return {k: numbers(v) for k, v in value.items()}
    if isinstance(value, list):
        return [numbers(v) for v in value]
    if isinstance(value, str) and value.startswith("="):
        a, b = value[1:].split(" + ")
        return int(a) + int(b)
    return value


def check_shape(stats, case):
    for shape in case["shapes"]:
        size = str(shape).count("None")
        small = THOROUGH and size < 6 or size < 5
        for leaf, make in LEAVES.items():
            if not small and leaf != "mixed":
                continue
            doc = realise(shape, counter(make))
            defs.fresh()
            fn = loop.run(lambda: offer("ValueFunction", "fn", {"return": doc}))
            first = {}
            for again in (0, 1):
                for name, base in bases_for(shape):
                    if not small and (name not in ("same", "maps", "empty") or again and name != "same"):
                        continue
                    got, modified = vf_run(fn, base, {})
                    stats.trace()
                    stats.step()
                    stats.state([shape, leaf, name])
                    one = {"mode": "shape", "shapes": [shape]}
                    if modified:
                        return stats.problem(f"return over {name} base: {modified}", one)
                    want = merge(base or {}, numbers(doc), {}, "replace")
                    if not judge(stats, got, [want], one, f"return {doc} over {base}"):
                        return
                    if first.setdefault(name, got) != got:
                        return stats.problem(f"evaluating again gave {got}, first {first[name]}", one)


def fits(base, over, got):
    """got is over merged onto base; an empty map over a map may keep or replace it."""
    if not isinstance(got, dict) or set(got) != set(base) | set(over):
        return False
    for k in got:
        if k not in over:
            ok = strict_equal(got[k], base[k])
        elif isinstance(over[k], dict) and isinstance(base.get(k), dict):
            ok = fits(base[k], over[k], got[k]) or not over[k] and got[k] == {}
        else:
            ok = strict_equal(got[k], over[k])
        if not ok:
            return False
    return True


def check_overlay_fn(stats, case):
    """The overlay() function: same merge, and pure."""
    for form in ("=inputs.a.overlay(inputs.b)", "=overlay(inputs.a, inputs.b)",
                 "=overlay(overlay({}, inputs.a), inputs.b)"):
        defs.fresh()
        fn = loop.run(lambda: offer("ValueFunction", "fn", {"return": {"v": form, "a": "=inputs.a", "b": "=inputs.b"}}))
        for i in case["overlays"]:
            for j, base in enumerate(DOCS + [{"a": {"a": {"a": 1, "b": 2}}, "b": {"b": [3]}}]):
                if form.startswith("=overlay(") and (i + j) % 7:
                    continue
                given = {"a": base, "b": DOCS[i]}
                got, modified = vf_run(fn, None, given)
                stats.trace()
                stats.step()
                stats.evaluated()
                stats.state([form, i, j])
                if modified or got["class"] != "Ok" or not fits(base, DOCS[i], got["value"]["v"]) or not (
                        strict_equal({k: got["value"][k] for k in "ab"}, given)):
                    return stats.problem(f"{form} of {base} and {DOCS[i]}: {modified or got}",
                                         {"mode": "overlay-fn", "overlays": [i]})


REF = {"apiVersion": "g/v1", "kind": "K", "metadata": {"name": "n", "namespace": "s", "labels": {"a": "b"}},
       "name": "n", "namespace": "s", "apiGroup": "g",
       "status": {"conditions": [{"type": "Ready", "status": "True", "reason": "UpToDate"}, {"type": "Other"}]}}
POOL = [{}, REF, {"external": "x", "kind": "K"}, {"a": {"b": [1, {"c": 2}]}}, [], [[1], [2, [3]]], [["a"], []],
        [[{"x": 1}], [{"y": [2]}]], "a,b,c", "", " ab ", '{"a": [1]}', "YWJj", ["a", "b"], None, 3, True,
        {"status": {"conditions": []}}]
FUNCTIONS = {"to_ref": 1, "self_ref": 1, "group_ref": 1, "kindless_ref": 1, "config_connect_ready": 1, "overlay": 2,
             "lower": 1, "flatten": 1, "split": 2, "split_first": 2, "split_last": 2, "split_index": 3, "strip": 2,
             "rstrip": 2, "to_json": 1, "from_json": 1, "b64encode": 1, "b64decode": 1, "replace": 3, "size": 1,
             "string": 1, "type": 1, "contains": 2}
SECOND = {"split_index": [[",", 0], [",", 1], ["", 0]], "replace": [["a", "b"], ["", ","]]}


def check_function(stats, case):
    """Every function of the expression language is pure and repeatable."""
    name = case["name"]
    for receiver in (False, True):
        args = "inputs.a" + "".join(f", inputs.b[{i}]" for i in range(FUNCTIONS[name] - 1))
        first, _, rest = args.partition(", ")
        expr = f"={first}.{name}({rest})" if receiver else f"={name}({args})"
        defs.fresh()
        fn = loop.run(lambda: offer("ValueFunction", "fn", {
            "locals": {"first": expr}, "return": {"v": expr, "first": "=locals.first", "given": "=inputs"}}))
        others = SECOND.get(name) or ([[x] for x in POOL] if FUNCTIONS[name] == 2 else [[]])
        seen = []
        for a, b in itertools.product(POOL, others):
            if name == "type":
                b = []
            given = {"a": a, "b": b}
            got, modified = vf_run(fn, None, given)
            stats.trace()
            stats.step()
            stats.evaluated()
            stats.state([name, receiver, a, b])
            seen.append((given, frozen_outcome(got)))
            if got["class"] == "Ok" and (not strict_equal(got["value"]["given"], given) or name != "type" and not
                                         strict_equal(got["value"]["v"], got["value"]["first"])):
                modified = modified or f"inputs or results differ within one evaluation: {got}"
            if modified:
                return stats.problem(f"{expr} with {given}: {modified}", case)
        for given, was in reversed(seen):
            got, modified = vf_run(fn, None, given)
            if modified or frozen_outcome(got) != was:
                return stats.problem(f"{expr} with {given}: again {got}, first {was} ({modified})", case)


def frozen_outcome(out):
    return {k: krm.strict(v) if k == "value" else v for k, v in out.items() if k in ("class", "value")}


def rf_spec(base=None, overlays=(), create=None, local=None):
    spec = {"apiConfig": defs.api_config(owned=False), "return": {"n": "=resource.metadata.name"}}
    if base is not None:
        spec["resource"] = base
    if overlays:
        spec["overlays"] = list(overlays)
    if create is not None:
        spec["create"] = {"overlay": create}
    if local:
        spec["locals"] = local
    return spec


def clean(payload):
    """Payload without what C06 and C08 judge."""
    doc = plain(payload)
    for k in ("apiVersion", "kind"):
        doc.pop(k, None)
    meta = doc.get("metadata", {})
    for k in ("name", "namespace", "resourceVersion", "uid", "generation"):
        meta.pop(k, None)
    notes = meta.get("annotations")
    if notes:
        notes.pop(krm.LA, None)
        if not notes:
            del meta["annotations"]
    if meta == {}:
        doc.pop("metadata", None)
    return doc


def rf_run(fn, inputs, live=None, templates=()):
    given = defs.cel(inputs)
    before = [frozen(given)] + [frozen(t.template) for t in templates]
    cluster = Cluster()
    if live is not None:
        cluster.put(defs.NS_PLURAL, live, namespace="ns1")
    got = loop.run(lambda: defs.reconcile_resource_function(
        api=cluster, location="loc", function=fn, owner=("ns1", defs.owner_ref()), inputs=given))
    after = [frozen(given)] + [frozen(t.template) for t in templates]
    why = None
    if before != after:
        why = "evaluation modified " + ("inputs" if before[0] != after[0] else "the cached template")
    sent = [c for c in cluster.log if c.op in ("POST", "PATCH")]
    out = defs.outcome(got.outcome)
    if not sent:
        return {**out, "class": out["class"] if out["class"] == "PermFail" else "nothing sent"}, why
    return {"class": "Ok", "value": clean(sent[0].payload)}, why


def check_shape_rf(stats, case):
    for shape in case["shapes"]:
        doc = realise(shape, counter(LEAVES["mixed"]))
        for where in ("inline", "ref", "create"):
            defs.fresh()
            base = {"spec": "=inputs.base"}
            if where == "inline":
                spec = rf_spec(base, [{"overlay": {"spec": doc}}])
            elif where == "create":
                spec = rf_spec(base, create={"spec": doc})
            else:
                loop.run(lambda: offer("ValueFunction", "ovf", {"return": {"spec": doc}}))
                spec = rf_spec(base, [{"overlayRef": {"kind": "ValueFunction", "name": "ovf"}}])
            fn = loop.run(lambda: offer("ResourceFunction", "fn", spec))
            for name, start in bases_for(shape):
                if start is None:
                    continue
                got, modified = rf_run(fn, {"base": start})
                stats.trace()
                stats.step()
                stats.state([shape, where, name, "rf"])
                one = {"mode": "shape-rf", "shapes": [shape]}
                if modified:
                    return stats.problem(f"{where} over {name} base: {modified}", one)
                want = {"spec": merge(start, numbers(doc), {}, "replace")}
                if not judge(stats, got, [want], one, f"{where} {doc} over {start}"):
                    return


def check_pair(stats, case):
    overlay = case["overlay"]
    defs.fresh()
    fn = loop.run(lambda: offer("ValueFunction", "fn", {"return": overlay}))
    bases = DOCS if "base" not in case else [case["base"]]
    for base in bases:
        got, modified = vf_run(fn, base, {})
        stats.trace()
        stats.step()
        stats.state([overlay, base])
        one = {**case, "base": base}
        if modified:
            return stats.problem(modified, one)
        if not judge(stats, got, [merge(base, overlay, {}, "replace")], one, f"{overlay} over {base}"):
            return


def check_pair_rf(stats, case):
    doc, where = case["overlay"], case["where"]
    for template in (False, True):
        for start in SMALL:
            defs.fresh()
            templates = []
            spec = rf_spec({"spec": start, "data": {"keep": 1}})
            if template:
                loop.run(lambda: offer("ResourceTemplate", "tpl", {"template": {
                    "apiVersion": defs.VERSION, "kind": defs.NS_KIND, "spec": start, "data": {"keep": 1}}}))
                templates.append(defs.lookup("ResourceTemplate", "tpl"))
                del spec["resource"]
                spec["resourceTemplateRef"] = {"name": "tpl"}
            if where == "inline":
                spec["overlays"] = [{"overlay": {"spec": doc}}]
            elif where == "create":
                spec["create"] = {"overlay": {"spec": doc}}
            else:
                loop.run(lambda: offer("ValueFunction", "ovf", {"return": {"spec": doc}}))
                spec["overlays"] = [{"overlayRef": {"kind": "ValueFunction", "name": "ovf"}}]
            fn = loop.run(lambda: offer("ResourceFunction", "fn", spec))
            live = {**krm.forced(), "spec": {"a": "drift", "b": "drift"}}
            for again, at in ((0, None), (1, None), (2, live), (3, None)):
                got, modified = rf_run(fn, {}, live=at, templates=templates)
                stats.trace()
                stats.step()
                stats.state([doc, start, where, template, at is None])
                if modified:
                    return stats.problem(f"{where} over {start}: {modified}", case)
                want = {"spec": start, "data": {"keep": 1}}
                if where != "create" or at is None:
                    want = merge(want, {"spec": doc}, {}, "replace")
                if got["class"] == "nothing sent" and at is not None:
                    continue  # the live object already matches the (empty) target
                if not judge(stats, got, [want], case, f"{where} {doc} over {start} run {again}"):
                    return


def run_sequence(stats, case, picks, live=None, template=True):
    """All skip assignments and inline/ref placements of one overlay sequence."""
    n = len(picks)
    overlays = [SEQ[i] for i in picks]
    local = {"v": "=inputs.s", "m": {"a": "=inputs.l"}}
    local_value = {"v": INPUTS["s"], "m": {"a": INPUTS["l"]}}
    for kinds in itertools.product(("inline", "ref"), repeat=n):
        if n >= 3 and not THOROUGH and kinds not in (("inline",) * n, ("ref",) * n, ("ref", "inline", "ref")[:n]):
            continue
        defs.fresh()
        loop.run(lambda: offer("ResourceTemplate", "tpl", {"template": {
            "apiVersion": defs.VERSION, "kind": defs.NS_KIND, "spec": {"a": {"base": 1, "b": [0]}, "t": 1}}}))
        templates = [defs.lookup("ResourceTemplate", "tpl")]
        steps = []
        for i, (kind, overlay) in enumerate(zip(kinds, overlays)):
            if kind == "inline":
                steps.append({"skipIf": f"=inputs.skip{i}", "overlay": overlay})
            else:
                loop.run(lambda: offer("ValueFunction", f"ovf{i}", {"locals": local, "return": overlay}))
                steps.append({"skipIf": f"=inputs.skip{i}", "overlayRef": {"kind": "ValueFunction", "name": f"ovf{i}"},
                              "inputs": {k: f"=inputs.{k}" for k in INPUTS}})
        spec = rf_spec(None, steps, local=local)
        spec["resourceTemplateRef"] = {"name": "tpl"}
        fn = loop.run(lambda: offer("ResourceFunction", "fn", spec))
        first = {}
        for skips in list(itertools.product((False, True), repeat=n)) + [(False,) * n]:
            inputs = {**INPUTS, **{f"skip{i}": s for i, s in enumerate(skips)}}
            got, modified = rf_run(fn, inputs, templates=templates)
            stats.trace()
            stats.step(n)
            stats.state([picks, kinds, skips])
            if modified:
                return stats.problem(f"{kinds} skip {skips}: {modified}", case)
            base = {"spec": {"a": {"base": 1, "b": [0]}, "t": 1},
                    "metadata": {"name": "thing", "namespace": "ns1"}, "apiVersion": defs.VERSION, "kind": defs.NS_KIND}
            allowed = wanted(base, [o for o, s in zip(overlays, skips) if not s], INPUTS, local_value)
            allowed = [a if isinstance(a, str) else clean(a) for a in allowed]
            if not judge(stats, got, allowed, case, f"{kinds} skip {skips} of {overlays}"):
                return
            if first.setdefault(skips, got) != got:
                return stats.problem(f"evaluating again gave {got}, first {first[skips]}", case)


def check_sequence(stats, case):
    run_sequence(stats, case, case["overlays"])


def check_leaf(stats, case):
    """Every kind of leaf value, static and computed, over a base."""
    base = case["base"]
    scope_resource = {"spec": base}
    for expr in list(EXPRS) + [1, True, None, "s", "7", [], {}, [[]], [{}], ["=inputs.m", {"k": "=inputs.l"}], 1.5]:
        if expr == "=resource.metadata.name":
            continue
        for path in (["spec"], ["spec", "a"], ["spec", "a", "a"], ["spec", "new", "deep", "er"], ["w"]):
            doc = copy.deepcopy(expr)
            for p in reversed(path):
                doc = {p: doc}
            doc["other"] = {"after": "fixed"}
            defs.fresh()
            fn = loop.run(lambda: offer("ValueFunction", "fn", {
                "locals": {"v": "=inputs.s", "m": {"a": "=inputs.l"}}, "return": doc}))
            allowed = wanted(scope_resource, [doc], INPUTS, {"v": INPUTS["s"], "m": {"a": INPUTS["l"]}})
            allowed = [a if isinstance(a, str) else numeral(a) for a in allowed]
            for again in (0, 1):
                got, modified = vf_run(fn, scope_resource, INPUTS)
                stats.trace()
                stats.step()
                stats.state([base, expr, path])
                if modified:
                    return stats.problem(f"{doc} over {base}: {modified}", case)
                if not judge(stats, got, allowed, case, f"{doc} over {scope_resource}"):
                    return


def numeral(value):
    if isinstance(value, dict):
        return {k: numeral(v) for k, v in value.items()}
    if isinstance(value, list):
        return [numeral(v) for v in value]
    return 7 if value == "7" else value


def check_keys(stats, case):
    for key in case["keys"]:
        for base in ({}, {key: {"x": 1, "y": [1]}}, {key: "scalar"}, {key: {key: {key: 1}}}):
            for overlay in ({key: {"x": 2}}, {key: {key: {"n": 1}}}, {key: 5}, {"before": 1, key: {"x": {}}, "z": [1]}):
                defs.fresh()
                fn = loop.run(lambda: offer("ValueFunction", "fn", {"return": overlay}))
                got, modified = vf_run(fn, base, {})
                stats.trace()
                stats.step()
                stats.state([key, base, overlay])
                if modified:
                    return stats.problem(modified, case)
                if not judge(stats, got, [merge(base, overlay, {}, "replace")], case, f"{overlay} over {base}"):
                    return


def check_deep(stats, case):
    def nest(n, leaf):
        for i in range(n):
            leaf = {f"k{i % 3}": leaf, f"s{i}": i}
        return leaf
    n = case["depth"]
    overlay, base = nest(n, {"leaf": 1}), nest(n, {"old": 2, "leaf": {"m": 1}})
    for b in (base, {}, nest(n // 2, {"odd": 1})):
        defs.fresh()
        fn = loop.run(lambda: offer("ValueFunction", "fn", {"return": overlay}))
        got, modified = vf_run(fn, b, {})
        stats.trace()
        stats.step()
        stats.state([n, b])
        if modified:
            return stats.problem(modified, case)
        judge(stats, got, [merge(b, overlay, {}, "replace")], case, f"depth {n}")


def check_wide(stats, case):
    n = case["width"]
    overlay = {f"k{i}": {"v": i, "w": {"x": [i]}} if i % 3 else i for i in range(n)}
    base = {f"k{i}": {"v": -i, "w": {"y": i}, "z": 1} for i in range(0, n, 2)}
    defs.fresh()
    fn = loop.run(lambda: offer("ValueFunction", "fn", {"return": overlay}))
    got, modified = vf_run(fn, base, {})
    stats.trace()
    stats.step()
    stats.state([n])
    if modified:
        return stats.problem(modified, case)
    judge(stats, got, [merge(base, overlay, {}, "replace")], case, f"width {n}")


def check_chain(stats, case):
    """Two functions over one template and shared inputs, in a workflow, run twice, created then patched."""
    picks = case["overlays"]
    defs.fresh()
    loop.run(lambda: offer("ResourceTemplate", "tpl", {"template": {
        "apiVersion": defs.VERSION, "kind": defs.NS_KIND, "spec": {"a": {"base": 1}}}}))
    tpl = defs.lookup("ResourceTemplate", "tpl")
    local = {"v": "=inputs.s", "m": {"a": "=inputs.l"}}
    for i, pick in enumerate(picks):
        spec = rf_spec(None, [{"overlay": SEQ[pick]}], local=local)
        spec["apiConfig"]["name"] = f"thing{i}"
        spec["apiConfig"]["owned"] = True
        spec["resourceTemplateRef"] = {"name": "tpl"}
        loop.run(lambda: offer("ResourceFunction", f"fn{i}", spec))
    loop.run(lambda: offer("ValueFunction", "src", {"return": {"s": "=inputs.s", "m": "=inputs.m", "l": "=inputs.l",
                                                              "e": "=inputs.e"}}))
    steps = [{"ref": {"kind": "ValueFunction", "name": "src"}, "label": "src", "inputs": "=parent"}]
    steps = [{"ref": {"kind": "ValueFunction", "name": "src"}, "label": "src",
              "inputs": {k: f"=parent.{k}" for k in INPUTS}}]
    for i in range(2):
        steps.append({"ref": {"kind": "ResourceFunction", "name": f"fn{i}"}, "label": f"step{i}",
                      "inputs": {k: f"=steps.src.{k}" for k in INPUTS}, "state": {f"s{i}": "=value.n"}})
    steps.append({"ref": {"kind": "ValueFunction", "name": "src"}, "label": "last",
                  "inputs": {k: f"=steps.src.{k}" for k in INPUTS}, "state": {"src": "=value"}})
    wf = loop.run(lambda: offer("Workflow", "wf", {"steps": steps}))
    before = frozen(tpl.template)
    given = defs.cel(INPUTS)
    given_before = frozen(given)
    for rerun in range(2):
        cluster = Cluster()
        for turn in range(2):
            mark = len(cluster.log)
            res = loop.run(lambda: defs.reconcile_workflow(
                api=cluster, workflow_key="wf", owner=("ns1", defs.owner_ref()), trigger=given, workflow=wf))
            stats.trace()
            stats.step(2)
            stats.state([picks, turn])
            if frozen(tpl.template) != before:
                return stats.problem("the cached template was modified", case)
            if frozen(given) != given_before:
                return stats.problem("the trigger was modified", case)
            src = defs.uncel(res.state).get("src")
            if src != INPUTS:
                return stats.problem(f"a step's value was modified: {src}", case)
            sent = [c for c in cluster.log[mark:] if c.op in ("POST", "PATCH")]
            for i, pick in enumerate(picks):
                base = {"spec": {"a": {"base": 1}}, "metadata": {"name": f"thing{i}", "namespace": "ns1"}}
                allowed = wanted(base, [SEQ[pick]], INPUTS, {"v": "str", "m": {"a": INPUTS["l"]}})
                allowed = [a if isinstance(a, str) else clean(a) for a in allowed]
                mine = [c for c in sent if c.payload["metadata"]["name"] == f"thing{i}"]
                if turn == 0:
                    got = {"class": "PermFail"}
                    if mine:
                        doc = clean(mine[0].payload)
                        doc.get("metadata", {}).pop("ownerReferences", None)
                        if doc.get("metadata") == {}:
                            del doc["metadata"]
                        got = {"class": "Ok", "value": doc}
                    if not judge(stats, got, allowed, case, f"step{i} run {rerun}"):
                        return
