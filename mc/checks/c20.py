"""C20 Preparing any definition never crashes; schema violations are rejected."""
import copy
import itertools

import celpy
import koreo.schema
import yaml
from koreo import result as R

from . import c13, c14
from .. import defs, env, loop
from ..env import cache
from ..report import THOROUGH, CodeProblem

LEVEL = "model_checking"
RULE = (
    "valid definitions of all five kinds which together use every schema path; every path is deleted, replaced by each "
    "of the listed JSON values and given extra members (one deviation everywhere, two deviations over schema paths), "
    "whole specs of every JSON type, nesting and size bounds; every CEL token sequence up to the length bound, and "
    "every primary in every syntactic context (composed to depth two) in every expression-bearing field; with "
    "dependencies ready, failed, missing or malformed. Reference: an independent JSON-schema evaluator over the "
    "bundled CRDs. Preparing (directly and through the cache) must return a prepared resource or a PermFail/Retry "
    "with a message; a schema violation must be a PermFail before any compilation or cache lookup. A state is a "
    "distinct (kind, deviation), a transition one preparation."
)
ASSUMPTIONS = [
    "CRD rules outside JSON schema (x-kubernetes-*) are the API server's; a null where the CRD says nullable may "
    "still be rejected",
    "specs are JSON values: object keys are strings, no NaN or infinities",
    "nesting beyond the bound, where CPython itself gives up, is not explored",
]

KINDS = ("ValueFunction", "ResourceFunction", "ResourceTemplate", "Workflow", "FunctionTest")
CRD = {"ValueFunction": "value-function", "ResourceFunction": "resource-function", "ResourceTemplate": "resource-template",
       "Workflow": "workflow", "FunctionTest": "function-test"}

OUTCOMES = [{"ok": {}}, {"skip": {"message": "m"}}, {"depSkip": {"message": "m"}}, {"retry": {"message": "m", "delay": 5}},
            {"permFail": {"message": "m"}}]
PREDICATES = [{"assert": "=inputs.a == 1", **o} for o in OUTCOMES]
API = {"apiVersion": defs.VERSION, "kind": defs.NS_KIND, "plural": defs.NS_PLURAL, "name": "=inputs.name", "namespace": "ns",
       "namespaced": True, "owned": True, "readonly": False, "deleteIfExists": False}
OBJECT = {"apiVersion": defs.VERSION, "kind": defs.NS_KIND, "metadata": {"name": "n", "labels": {"a": "b"}}, "spec": {"a": [1, {"b": 2}]}}
BASES = {
    "ValueFunction": [
        {"preconditions": PREDICATES, "locals": {"a": "=inputs.a", "b": {"c": [1]}},
         "return": {"a": "=locals.a", "b": {"c": "=inputs.l[0]", "d": {}}, "e": [1, "=1"], "f": None}},
        {"preconditions": PREDICATES[:1]},
    ],
    "ResourceFunction": [
        {"preconditions": PREDICATES[1:2], "locals": {"a": "=inputs.a"}, "apiConfig": API,
         "resource": {"spec": {"a": "=locals.a"}},
         "overlays": [{"skipIf": "=inputs.a == 1", "overlay": {"spec": {"b": "=resource.spec.a"}}},
                      {"overlayRef": {"kind": "ValueFunction", "name": "vf"}, "inputs": {"x": "=inputs.a"}},
                      {"overlayRef": {"kind": "ValueFunction", "name": "needy"}, "inputs": {"needed": 1}, "skipIf": "=false"}],
         "create": {"enabled": True, "delay": 5, "overlay": {"spec": {"c": "=inputs.a"}}},
         "update": {"patch": {"delay": 5}}, "delete": {"destroy": {}},
         "postconditions": PREDICATES, "return": {"a": "=resource.spec.a", "b": {"c": [1]}}},
        {"apiConfig": {"apiVersion": "v1", "kind": "Secret", "name": "n", "namespaced": False},
         "resourceTemplateRef": {"name": "=inputs.t"}, "update": {"recreate": {"delay": 1}}, "delete": {"abandon": {}},
         "create": {"enabled": False}},
        {"apiConfig": API, "resource": {}, "update": {"never": {}}},
    ],
    "ResourceTemplate": [{"template": OBJECT, "context": {"a": {"b": [1, None]}}}, {"template": OBJECT}],
    "Workflow": [
        {"crdRef": {"apiGroup": "g.io", "version": "v1", "kind": "K"}, "steps": [
            {"label": "first", "ref": {"kind": "ValueFunction", "name": "vf"}, "inputs": {"x": "=parent.x", "l": [1]},
             "skipIf": "=parent.y == 1", "condition": {"type": "Cond", "name": "cond"}, "state": {"a": "=value.a", "b": {"c": 1}}},
            {"label": "second", "refSwitch": {"switchOn": "=steps.first.x", "cases": [
                {"case": "a", "kind": "ResourceFunction", "name": "rf"},
                {"case": "b", "default": True, "kind": "Workflow", "name": "wf"}]},
             "forEach": {"itemIn": "=steps.first.l", "inputKey": "item", "condition": {"type": "Each", "name": "each"}},
             "inputs": {"y": "=steps.first"}},
        ]},
    ],
    "FunctionTest": [
        {"functionRef": {"kind": "ResourceFunction", "name": "rft"}, "inputs": {"a": 1, "l": [1, {"b": None}], "t": "tpl"},
         "currentResource": OBJECT, "testCases": [
            {"label": "one", "expectResource": OBJECT, "inputOverrides": {"a": 2}},
            {"variant": True, "label": "two", "expectReturn": {"a": 1}, "currentResource": OBJECT},
            {"skip": True, "expectDelete": True},
            {"overlayResource": {"spec": {"a": "=template.spec.a"}}, "expectDelete": False}]
            + [{"expectOutcome": o} for o in OUTCOMES]},
        {"functionRef": {"kind": "ValueFunction", "name": "vf"}, "testCases": [{"expectReturn": {"a": 1}}]},
    ],
}


def nest(n, leaf, kind):
    for _ in range(n):
        leaf = {"a": leaf} if kind == "map" else [leaf]
    return leaf


DEEP = 40
VALUES = {
    "null": None, "true": True, "false": False, "0": 0, "1": 1, "-1": -1, "5.0": 5.0, "1.5": 1.5, "2**31": 2**31, "2**63-1": 2**63 - 1,
    "2**63": 2**63, "-2**63-1": -2**63 - 1, "2**64": 2**64, "10**30": 10**30, "10**400": 10**400, "1e308": 1e308, "5e-324": 5e-324,
    "-0.0": -0.0, "empty": "", "x": "x", "space": " ", "7": "7", "=": "=", "==": "==", "= ": "= ", "=1 +": "=1 +", "=)": "=)", "=a.true": "=a.true",
    "=x": "=inputs.x", "='": "='", "=1/0": "=1 / 0", "=steps": "=steps.nope.x", "=(true?1:2)[0]": "=(true ? 1 : 2)[0]",
    "=f(1)[0]": "=f(1)[0]", "=lambda": "=[1].map(x, x)[0].y", "={}": "={}", "=list": "=[]", "=null": "=null", "nul": "a\x00b", "=nul": "=\x00",
    "surrogate": "\ud800", "=surrogate": "='\ud800'", "accent": "\u00e9\U0001f600", "=accent": "=\u00e9", "newline": "a\nb\r\"'\\", "quotes": '"""', "slash": "a/b/c",
    "dots": "a.b", "dunder": "__class__", "percent": "%s {0} {x}", "long": "x" * 100_000, "=long": "=" + "1 + " * 200 + "1", "regex": "=inputs.x.matches('[')",
    "numeric": "99999999999999999999", "float": "1e999", "hex": "0x1F", "under": "1_000", "list": [], "[1]": [1], "[null]": [None],
    "[[]]": [[[]]], "[map]": [{}], "[maps]": [{"a": 1}, {"b": 2}], "[str]": ["=1", "x"], "51": [1] * 51, "51maps": [{"assert": "=true", "ok": {}}] * 51,
    "map": {}, "{'a':1}": {"a": 1}, "{'':1}": {"": 1}, "{'a':null}": {"a": None}, "weird-keys": {"=1": 1, "a\x00": 2, "\ud800": 3, "\"": 4, "1": 5, "a.b/c": 6, "\n": 7},
    "{'assert'}": {"assert": "=true", "ok": {}}, "big-map": {f"k{i}": i for i in range(60)}, "deep-map": nest(DEEP, 1, "map"),
    "deep-list": nest(DEEP, "=inputs.x", "list"), "expr-map": {"a": "=1 +", "b": "=1"}, "bigints": {"a": [2**70, {"b": -2**70}]},
    "object": OBJECT, "true-s": "true", "ref": {"kind": "ValueFunction", "name": "vf"}, "badref": {"kind": "ValueFunction", "name": "bad-vf"},
    "message": {"message": "=1 / 0"}, "retry": {"message": "m", "delay": 2**70}, "retry.0": {"message": "m", "delay": 7.0},
}
FEW = ["null", "true", "0", "2**64", "5.0", "empty", "=1 +", "=(true?1:2)[0]", "list", "[1]", "[maps]", "map", "{'a':1}"]


def bounds():
    return {"values": len(VALUES), "nesting": DEEP, "tokens": len(TOKENS), "token_length": 4 if THOROUGH else 3,
            "paths": {k: sum(1 for b in BASES[k] for _ in paths(b)) for k in KINDS}, "fields": len(FIELDS),
            "contexts": len(c14.CONTEXTS), "primaries": len(PRIMARIES), "deviations": 2}


# --- an independent schema evaluator -----------------------------------------

def is_type(value, name):
    if name == "object":
        return isinstance(value, dict)
    if name == "array":
        return isinstance(value, list)
    if name == "string":
        return isinstance(value, str)
    if name == "boolean":
        return isinstance(value, bool)
    if name == "integer":
        return not isinstance(value, bool) and (isinstance(value, int) or isinstance(value, float) and value.is_integer())
    if name == "number":
        return not isinstance(value, bool) and isinstance(value, (int, float))
    raise RuntimeError(f"schema type {name}")


ANNOTATIONS = {"description", "default", "nullable"}


def violates(schema, value):
    """Why the value violates the schema, or None."""
    for key, rule in schema.items():
        if key in ANNOTATIONS or key.startswith("x-kubernetes-"):
            continue
        if key == "type":
            if not is_type(value, rule):
                return f"not {rule}"
        elif key == "properties":
            if isinstance(value, dict):
                for name, sub in rule.items():
                    if name in value:
                        why = violates(sub, value[name])
                        if why:
                            return f"{name}: {why}"
        elif key == "additionalProperties":
            if rule is False and isinstance(value, dict) and set(value) - set(schema.get("properties", {})):
                return "extra members"
        elif key == "required":
            if isinstance(value, dict) and any(r not in value for r in rule):
                return f"requires {rule}"
        elif key == "items":
            if isinstance(value, list):
                for i, item in enumerate(value):
                    why = violates(rule, item)
                    if why:
                        return f"{i}: {why}"
        elif key == "enum":
            if value not in rule:
                return f"none of {rule}"
        elif key in ("maxItems", "minItems"):
            if isinstance(value, list) and (len(value) > rule if key[1] == "a" else len(value) < rule):
                return key
        elif key in ("maxProperties", "minProperties"):
            if isinstance(value, dict) and (len(value) > rule if key[1] == "a" else len(value) < rule):
                return key
        elif key in ("maxLength", "minLength"):
            if isinstance(value, str) and (len(value) > rule if key[1] == "a" else len(value) < rule):
                return key
        elif key == "oneOf":
            if sum(violates(r, value) is None for r in rule) != 1:
                return "oneOf"
        elif key == "anyOf":
            if all(violates(r, value) is not None for r in rule):
                return "anyOf"
        else:
            raise CodeProblem(f"the schema uses {key}, which this check does not know")
    return None


_schemas = {}


def schema_of(kind):
    if kind not in _schemas:
        import pathlib
        path = pathlib.Path(koreo.schema.__file__).parent / f"{CRD[kind]}.yaml"
        doc = yaml.safe_load(path.read_text())
        (version,) = [v for v in doc["spec"]["versions"] if v["name"] == "v1beta1"]
        _schemas[kind] = version["schema"]["openAPIV3Schema"]["properties"]["spec"]
    return _schemas[kind]


# --- offering ----------------------------------------------------------------

LIBRARY = [
    ("ValueFunction", "vf", {"return": {"a": 1, "b": "=inputs.x"}}),
    ("ValueFunction", "needy", {"return": {"a": "=inputs.needed"}}),
    ("ValueFunction", "bad-vf", {"return": {"a": "=1 +"}}),
    ("ResourceFunction", "rf", {"apiConfig": API, "resource": {"a": 1}}),
    ("ResourceFunction", "rft", {"apiConfig": API, "locals": {"t": "=inputs.t", "u": "=inputs.l[0] / inputs.a"},
                                 "resourceTemplateRef": {"name": "=locals.t"}}),
    ("ResourceFunction", "rfb", {"apiConfig": API, "locals": {"t": "=1 / 0"}, "resourceTemplateRef": {"name": "=locals.t"}}),
    ("ResourceFunction", "rfc", {"apiConfig": API, "resourceTemplateRef": {"name": "=inputs.t.u[0] + 1"}}),
    ("ResourceFunction", "rfd", {"apiConfig": API, "locals": {"t": "=to_ref(inputs)", "u": "=split('a', inputs.t)"},
                                 "resourceTemplateRef": {"name": "=1 / 0"}}),
    ("ResourceFunction", "rfm", {"apiConfig": API, "locals": {"t": "=string([1].map(x, x / inputs.a)[0])"},
                                 "resourceTemplateRef": {"name": "=locals.t"}}),
    ("ResourceFunction", "bad-rf", {"apiConfig": API, "resource": "x"}),
    ("Workflow", "wf", {"steps": [{"label": "one", "ref": {"kind": "ValueFunction", "name": "vf"}, "inputs": {"x": "=parent.x"}}]}),
    ("Workflow", "bad-wf", {"steps": []}),
    ("ResourceTemplate", "tpl", {"template": OBJECT}),
]
spy = []


class SpyDict(dict):
    on = False

    def get(self, *a):
        if SpyDict.on:
            spy.append(("lookup", str(a[0])))
        return super().get(*a)

    def __getitem__(self, key):
        if SpyDict.on:
            spy.append(("lookup", str(key)))
        return super().__getitem__(key)

    def __contains__(self, key):
        if SpyDict.on:
            spy.append(("lookup", str(key)))
        return super().__contains__(key)


_installed = []


def start():
    defs.fresh()
    if not _installed:
        original = celpy.Environment.compile

        def compile(self, text, *a, **k):
            if SpyDict.on:
                spy.append(("compile", text[:60]))
            return original(self, text, *a, **k)

        celpy.Environment.compile = compile
        _installed.append(True)
    for kind, name, spec in LIBRARY:
        loop.run(lambda: defs.offer(kind, name, spec))


def spied(on):
    """Watch lookups: the cache is a plain dict held by the module."""
    for name, value in vars(cache).items():
        if isinstance(value, dict) and name.endswith("CACHE"):
            if not isinstance(value, SpyDict):
                setattr(cache, name, SpyDict(value))
    SpyDict.on = on


def show(value):
    text = repr(value)
    return text if len(text) < 200 else text[:200] + "..."


def too_big(value):
    if isinstance(value, dict):
        return any(too_big(v) for v in value.values())
    if isinstance(value, list):
        return any(too_big(v) for v in value)
    return isinstance(value, int) and not isinstance(value, bool) and not -2**63 <= value < 2**63


def known_raise(kind, spec, err):
    """The key of the known finding that this is, if it is one."""
    if kind != "FunctionTest" or not isinstance(spec, dict):
        return None
    tests = [t for t in spec.get("testCases") or () if isinstance(t, dict)]
    if isinstance(err, ValueError) and str(err) == "overflow":
        if too_big(spec.get("inputs")) or any(too_big(t.get(k)) for t in tests for k in ("inputOverrides", "expectOutcome")):
            return "FunctionTest: integer beyond 64 bits"
    ref = spec.get("functionRef")
    if isinstance(err, celpy.CELEvalError) and isinstance(ref, dict) and ref.get("kind") == "ResourceFunction":
        if ref.get("name") in ("rft", "rfb", "rfd", "rfm", "rfq"):  # these have locals
            return "FunctionTest: failing locals"
    return None


def offer(stats, case, kind, spec, what, through_cache=False, trivial=False):
    """Prepare and judge. True when fine."""
    stats.evaluated()
    stats.step()
    stats.trace()
    del spy[:]
    spied(True)
    try:
        if through_cache:
            got = loop.run(lambda: defs.cache.prepare_and_cache(
                defs.KINDS[kind][0], defs.KINDS[kind][1], {"name": "def", "resourceVersion": "1"}, copy.deepcopy(spec)))
        else:
            got = loop.run(lambda: defs.KINDS[kind][1]("def", copy.deepcopy(spec)))
    except Exception as err:
        spied(False)
        import traceback
        where = " > ".join(f"{f.filename.split('/')[-1]}:{f.name}" for f in traceback.extract_tb(err.__traceback__)[-6:])
        known = known_raise(kind, spec, err)
        if known:
            stats.problem(f"{kind} {what}: preparing raised {show(str(err))}", case, key=known)
            return True
        stats.problem(f"{kind} {what}: preparing raised {type(err).__name__}: {show(str(err))} in {where}", case)
        return False
    spied(False)
    if through_cache:
        spy[:] = spy[1:] if spy and spy[0][0] == "lookup" else spy  # the cache's own look for this version
    why = violates(schema_of(kind), spec)
    cls = defs.outcome_class(got)
    if cls not in ("Ok", "PermFail", "Retry"):
        stats.problem(f"{kind} {what}: preparing gave a {cls}: {got}", case)
        return False
    if cls != "Ok" and not (isinstance(got.message, str) and got.message):
        stats.problem(f"{kind} {what}: {cls} without a message: {got}", case)
        return False
    if cls == "Ok" and not through_cache and not (isinstance(got, tuple) and len(got) == 2
                                                  and isinstance(got[0], defs.KINDS[kind][0])):
        stats.problem(f"{kind} {what}: prepared {show(got)}", case)
        return False
    if cls == "Ok" and through_cache and not isinstance(got, defs.KINDS[kind][0]):
        stats.problem(f"{kind} {what}: prepared {show(got)}", case)
        return False
    if why:
        if cls != "PermFail":
            stats.problem(f"{kind} {what}: violates the schema ({why}), and is {cls}", case)
            return False
        if spy:
            stats.problem(f"{kind} {what}: violates the schema ({why}), yet {spy[:3]}", case)
            return False
    return True


# --- deviations --------------------------------------------------------------

def paths(value, at=()):
    yield at
    if isinstance(value, dict):
        for k, v in value.items():
            yield from paths(v, at + (k,))
    elif isinstance(value, list):
        for i, v in enumerate(value):
            yield from paths(v, at + (i,))


GONE = object()


def change(spec, path, value):
    if not path:
        return value
    out = copy.copy(spec)
    head, rest = path[0], path[1:]
    if rest:
        out[head] = change(spec[head], rest, value)
    elif value is GONE:
        del out[head]
    else:
        out[head] = value
    return out


def get(spec, path):
    for p in path:
        spec = spec[p]
    return spec


def schema_paths(kind, base):
    """Paths the schema talks about."""
    out = []

    def walk(schema, value, at):
        if at:
            out.append(at)
        if isinstance(value, dict):
            for k, sub in schema.get("properties", {}).items():
                if k in value:
                    walk(sub, value[k], at + (k,))
        elif isinstance(value, list) and "items" in schema:
            for i, v in enumerate(value[:2]):
                walk(schema["items"], v, at + (i,))
    walk(schema_of(kind), base, ())
    return out


PRIMARIES = [
    "1", "-1", "1u", "1.5", "'a'", '"a"', "r'a'", "'''a'''", "b'a'", "true", "null", "[]", "[1]", "{}", "{'a': 1}", "(1)", "x", ".x",
    "inputs", "inputs.x", "inputs['x']", "inputs[0]", "inputs[x]", "inputs[inputs.x]", "inputs[1u]", "inputs[null]", "inputs[true]",
    "inputs[1.5]", "inputs[b'a']", "inputs[[1]]", "inputs[{}]", "inputs[-1]", "inputs[(1)]", "inputs[f(1)]", "inputs[1 + 1]",
    "inputs[x ? y : z]", "f()", ".f()", "f(1)", "x.f()", "x.f(1, 2)", "M{}", "M{a: 1}", "x.y{}", "x.M{a: 1, b: 2}", "has(x.y)",
    "[1].map(a, a)", "x.filter(a, a)", "x.all(a, a)", "x.exists(a, a)", "x.exists_one(a, a)", "x ? y : z", "x || y", "x && y", "!x", "-x",
    "x == y", "x in y", "x + y", "x - y", "x * y", "x / y", "x % y", "x < y", "has(x)", "has(1)", "map(1)", "x.map(1)", "x.map(1, 2)",
    "x.map(a, b, c)", "[].reduce(a, b, 0, a)", "dyn(x)", "type(x)", "size(x)", "steps.a.b", "steps['a']", "steps[1]", "parent.x", "parent[f()]",
    "value", "resource.spec.a", "locals.x", "self", "predicate", "a.b.c.d.e.f", "a[0][1][2]", "a.b[0].c['d'].e()", "9" * 30, "1e999", "'\\x00'",
]
TOKENS = ["1", "1.5", "'a'", "b'a'", "x", "steps", "true", "null", ".", ",", "(", ")", "[", "]", "{", "}", "?", ":", "+", "-", "!",
          "&&", "==", "in", "has", "map", "//", "\n"]


def field_spec(kind, path, expr):
    base = BASES[kind][0]
    return change(base, path, expr)


FIELDS = [
    ("ValueFunction", 0, ("preconditions", 0, "assert")), ("ValueFunction", 0, ("preconditions", 3, "retry", "message")),
    ("ValueFunction", 0, ("locals", "b", "c", 0)), ("ValueFunction", 0, ("return", "b", "c")), ("ValueFunction", 0, ("return", "e", 1)),
    ("ResourceFunction", 0, ("preconditions", 0, "assert")), ("ResourceFunction", 0, ("locals", "a")),
    ("ResourceFunction", 0, ("apiConfig", "name")), ("ResourceFunction", 0, ("apiConfig", "namespace")),
    ("ResourceFunction", 0, ("resource", "spec", "a")), ("ResourceFunction", 1, ("resourceTemplateRef", "name")),
    ("ResourceFunction", 0, ("overlays", 0, "skipIf")), ("ResourceFunction", 0, ("overlays", 0, "overlay", "spec", "b")),
    ("ResourceFunction", 0, ("overlays", 1, "inputs", "x")), ("ResourceFunction", 0, ("create", "overlay", "spec", "c")),
    ("ResourceFunction", 0, ("postconditions", 0, "assert")), ("ResourceFunction", 0, ("postconditions", 4, "permFail", "message")),
    ("ResourceFunction", 0, ("return", "a")), ("Workflow", 0, ("steps", 0, "inputs", "x")), ("Workflow", 0, ("steps", 0, "skipIf")),
    ("Workflow", 0, ("steps", 0, "state", "a")), ("Workflow", 0, ("steps", 1, "refSwitch", "switchOn")),
    ("Workflow", 0, ("steps", 1, "forEach", "itemIn")), ("FunctionTest", 0, ("testCases", 3, "overlayResource", "spec", "a")),
]


def slim(kind, which, path):
    """The definition around the field, without unrelated parts (compiling those again takes the time)."""
    base = BASES[kind][which]
    keep = {"ValueFunction": (), "ResourceFunction": ("apiConfig", "resource", "resourceTemplateRef"), "Workflow": ("steps",),
            "FunctionTest": ("functionRef", "testCases")}[kind]
    out = {k: v for k, v in base.items() if k in keep or k == path[0]}
    if kind == "ResourceFunction" and path[0] == "overlays":
        out["overlays"] = [out["overlays"][path[1]]]
        path = ("overlays", 0) + path[2:]
    if kind == "Workflow":
        first = {"label": "first", "ref": {"kind": "ValueFunction", "name": "vf"}}
        out["steps"] = [first, base["steps"][1]] if path[1] else [base["steps"][0]]
        if path[1]:
            out["steps"][1] = {k: v for k, v in out["steps"][1].items() if k in ("label", "refSwitch", path[2])}
    if kind == "FunctionTest":
        out["testCases"] = [out["testCases"][path[1]]]
        path = ("testCases", 0) + path[2:]
    if path[0] in ("preconditions", "postconditions"):
        out[path[0]] = [out[path[0]][path[1]]]
        path = (path[0], 0) + path[2:]
    return out, path


def chunks(items, size):
    items = list(items)
    for i in range(0, len(items), size):
        yield items[i:i + size]


def cases():
    for kind in KINDS:
        for b, base in enumerate(BASES[kind]):
            for path in paths(base):
                yield {"mode": "one", "kind": kind, "base": b, "path": list(path)}
        for part in chunks(VALUES, 30):
            yield {"mode": "whole", "kind": kind, "values": part}
    for kind in KINDS:
        for b, base in enumerate(BASES[kind]):
            for path in schema_paths(kind, base):
                yield {"mode": "two", "kind": kind, "base": b, "path": list(path)}
    for f in range(len(FIELDS)):
        for part in chunks(["§"] + c14.CONTEXTS, 12):
            yield {"mode": "expr", "field": f, "contexts": part}
    for context in c14.CONTEXTS:
        yield {"mode": "expr2", "outer": context}
    n = 4 if THOROUGH else 3
    for f in (3, 0, 18, 21, 23):
        for a, half in itertools.product(range(len(TOKENS)), (0, 1)):
            yield {"mode": "tokens", "field": f, "head": [[a, b] for b in range(half, len(TOKENS), 2)],
                   "more": n - 2 if f == 3 or not THOROUGH else 1}
    for kind, name in (("ResourceFunction", "rft"), ("ResourceFunction", "rfb"), ("ResourceFunction", "rfc"), ("ResourceFunction", "rfd"),
                       ("ResourceFunction", "rfm"), ("ResourceFunction", "bad-rf"), ("ResourceFunction", "nope"), ("ValueFunction", "vf"), ("ValueFunction", "bad-vf"),
                       ("ValueFunction", "nope")):
        for part in chunks(VALUES, 30):
            yield {"mode": "tests", "ref": {"kind": kind, "name": name}, "values": part}
    for n in (0, 1, 2, 9, 10, 11, 19, 20, 21, 50, 51, 200):
        yield {"mode": "sizes", "n": n}
    for depth in (1, 5, 10, 20, DEEP):
        yield {"mode": "depths", "depth": depth}
    yield {"mode": "refs"}
    for part in chunks(PRIMARIES + [e[1:] for e in c13.EXPRS if e.startswith("=")], 20):
        yield {"mode": "locals", "exprs": part}
    for c in (range(0, 128), range(128, 0x250), (0x2028, 0x2029, 0xd800, 0xdfff, 0xfeff, 0xffff, 0x10ffff, 0x1f600)):
        for part in chunks(c, 16):
            yield {"mode": "chars", "chars": part}


def check(stats, case):
    start()
    globals()["check_" + case["mode"]](stats, case)
    stats.sample(case)


def check_one(stats, case):
    kind, path = case["kind"], tuple(case["path"])
    base = BASES[kind][case["base"]]
    wanted = case.get("value")
    for name in [wanted] if wanted else list(VALUES) + ["gone", "extra", "as-is"]:
        one = {**case, "value": name}
        if name == "gone":
            if not path:
                continue
            spec = change(base, path, GONE)
        elif name == "extra":
            here = get(base, path)
            if isinstance(here, dict):
                spec = change(base, path, {**here, "extra": {"a": "=1 +"}, "": None})
            elif isinstance(here, list) and here:
                spec = change(base, path, here + [None] + here)
            else:
                continue
        elif name == "as-is":
            spec = base
        else:
            spec = change(base, path, VALUES[name])
        stats.state([kind, case["base"], path, name])
        what = f"with {'/'.join(map(str, path)) or 'spec'} {'removed' if name == 'gone' else '= ' + name}"
        if not offer(stats, one, kind, spec, what):
            continue
        if name in ("gone", "extra", "as-is") or len(path) < 2:
            defs.run_sync(defs.cache.delete_resource_from_cache(defs.KINDS[kind][0], {"name": "def", "resourceVersion": "1"}))
            if not offer(stats, one, kind, spec, what + " (cached)", through_cache=True):
                return
    if not wanted and not path:
        got = loop.run(lambda: defs.KINDS[kind][1]("def", copy.deepcopy(base)))
        if defs.outcome_class(got) != "Ok":
            raise CodeProblem(f"{kind} base {case['base']} is not prepared: {got}")


def check_whole(stats, case):
    kind = case["kind"]
    for name in case["values"]:
        stats.state([kind, name])
        one = {**case, "values": [name]}
        offer(stats, one, kind, VALUES[name], f"spec = {name}")
        defs.run_sync(defs.cache.delete_resource_from_cache(defs.KINDS[kind][0], {"name": "def", "resourceVersion": "1"}))
        offer(stats, one, kind, VALUES[name], f"spec = {name} (cached)", through_cache=True)


def check_two(stats, case):
    kind, path = case["kind"], tuple(case["path"])
    base = BASES[kind][case["base"]]
    few = FEW if THOROUGH else FEW[::2]
    every = schema_paths(kind, base)
    for other in every[every.index(path) + 1:]:
        if other[:len(path)] == path:
            continue
        for a, b in itertools.product([GONE] + few, repeat=2):
            spec = base
            # The later path first, so that removed list items do not move the other one.
            for p, v in ((other, b), (path, a)):
                spec = change(spec, p, GONE if v is GONE else VALUES[v])
            names = ["gone" if x is GONE else x for x in (a, b)]
            stats.state([kind, case["base"], path, other, names])
            if not offer(stats, case, kind, spec, f"with {path} = {names[0]} and {other} = {names[1]}"):
                return


def expression(stats, case, f, expr):
    kind, which, path = FIELDS[f]
    spec, at = slim(kind, which, path)
    stats.state([f, expr])
    return offer(stats, case, kind, change(spec, at, expr), f"{'/'.join(map(str, path))} {expr!r}")


def check_expr(stats, case):
    f = case["field"]
    some = PRIMARIES if THOROUGH or f == 3 else PRIMARIES[f % 4::4]
    for context, primary in itertools.product(case["contexts"], [case["expr"]] if "expr" in case else some):
        one = {**case, "contexts": [context], "expr": primary}
        expr = "=" + (context.replace("§", primary) if context == "§" else c14.fill(context, primary))
        if not expression(stats, one, f, expr):
            return
        if "(" + primary + ")" in expr and (THOROUGH or f == 3):
            if not expression(stats, one, f, "=" + context.replace("§", primary)):
                return


def check_expr2(stats, case):
    primaries = ("1", "inputs.x", "f(x)[0].y")
    for i, inner in enumerate([case["inner"]] if "inner" in case else c14.CONTEXTS):
        for primary in primaries if THOROUGH or "inner" in case else (primaries[i % 3],):
            expr = "=" + c14.fill(case["outer"], c14.fill(inner, primary))
            if not expression(stats, {**case, "inner": inner}, 3 if primary == "1" else 18, expr):
                return


def check_tokens(stats, case):
    for head in case["head"]:
        for k in range(0, case["more"] + 1):
            for more in itertools.product(TOKENS, repeat=k):
                text = "=" + " ".join([TOKENS[i] for i in head] + list(more))
                if not expression(stats, {**case, "head": [head]}, case["field"], text):
                    return


def check_tests(stats, case):
    """FunctionTests whose inputs, overrides and fixtures are anything, for functions that look at them."""
    for name in case["values"]:
        value = VALUES[name]
        for spec in (
            {"inputs": {"t": value, "l": value, "a": value}, "testCases": [{"expectReturn": {"a": 1}}]},
            {"inputs": {"t": "tpl", "l": [1], "a": 0}, "testCases": [{"expectReturn": {"a": 1}}, {"expectReturn": {"a": value}}]},
            {"inputs": {"t": "tpl"}, "testCases": [{"inputOverrides": {"t": value}, "expectReturn": {"a": value}}]},
            {"testCases": [{"inputOverrides": {"t": value, "l": value, "a": value}, "expectReturn": {"a": 1}}]},
            {"testCases": [{"inputOverrides": value, "expectReturn": value}], "inputs": value},
            {"testCases": [{"expectOutcome": value}]}, {"testCases": [{"expectOutcome": {"retry": value}}]},
            {"testCases": [{"expectOutcome": {"retry": {"message": "m", "delay": value}}}]},
            {"testCases": [{"expectOutcome": {"skip": {"message": value, "extra": value}}}]},
            {"testCases": [{"expectOutcome": {"ok": {}, "extra": value}}]},
            {"testCases": [{"expectOutcome": {"permFail": {"message": "m"}, "assert": value}}]},
            {"testCases": [{"expectDelete": True, "expectReturn": value}]}, {"testCases": [{"label": "x", "overlayResource": value}]},
        ):
            spec = {"functionRef": case["ref"], **spec}
            stats.state([case["ref"], name, spec["testCases"]])
            if not offer(stats, {**case, "values": [name]}, "FunctionTest", spec, f"{show(spec)}"):
                break


def check_locals(stats, case):
    """FunctionTests of a function whose template is named by such a local."""
    for expr in case["exprs"]:
        spec = {"apiConfig": API, "locals": {"t": "=" + expr, "u": ["=" + expr]}, "resourceTemplateRef": {"name": "=locals.t"}}
        if not offer(stats, {**case, "exprs": [expr]}, "ResourceFunction", spec, f"with locals {expr!r}"):
            continue
        loop.run(lambda: defs.offer("ResourceFunction", "rfq", spec, version="=" + expr))
        for inputs in ({}, {"t": "x", "x": {"y": 1}, "m": "mm", "a": 1, "l": [1]}, {"x": 0, "y": 0, "a": 0, "l": []}):
            stats.state([expr, inputs])
            offer(stats, {**case, "exprs": [expr]}, "FunctionTest", {
                "functionRef": {"kind": "ResourceFunction", "name": "rfq"}, "inputs": inputs,
                "testCases": [{"expectReturn": {"a": 1}}, {"inputOverrides": {"x": "other"}, "expectReturn": {"a": 1}}]},
                f"of a function with locals {expr!r}, inputs {inputs}")


def check_sizes(stats, case):
    n = case["n"]
    step = BASES["Workflow"][0]["steps"][0]
    for kind, spec in (
        ("ValueFunction", {"preconditions": [PREDICATES[0]] * n}), ("ValueFunction", {"return": {f"k{i}": f"={i}" for i in range(n)}}),
        ("ValueFunction", {"locals": {f"k{i}": {"x": [i] * n} for i in range(n)}, "return": {"a": 1}}),
        ("ResourceFunction", {"apiConfig": API, "resource": {}, "postconditions": [PREDICATES[3]] * n}),
        ("ResourceFunction", {"apiConfig": API, "resource": {}, "overlays": [{"overlay": {"a": i}} for i in range(n)]}),
        ("Workflow", {"steps": [{**step, "label": f"step{i}"} for i in range(n)]}), ("Workflow", {"steps": [step] * n}),
        ("Workflow", {"steps": [{**step, "state": {f"k{i}": i for i in range(n)}}]}),
        ("Workflow", {"steps": [{**step, "label": "x" * n}]}), ("Workflow", {"steps": [{**step, "condition": {"type": "T" * n, "name": "n"}}]}),
        ("Workflow", {"steps": [{**step, "condition": {"type": "T", "name": "n" * n}}]}),
        ("Workflow", {"steps": [{"label": "one", "refSwitch": {"switchOn": "=1", "cases": [
            {"case": f"c{i}", "kind": "ValueFunction", "name": "vf", "default": i == 0} for i in range(n)]}}]}),
        ("Workflow", {"steps": [{"label": "one", "refSwitch": {"switchOn": "=1", "cases": [
            {"case": f"c{i % 3}", "kind": "ValueFunction", "name": "vf", "default": True} for i in range(n)]}}]}),
        ("FunctionTest", {"functionRef": {"kind": "ValueFunction", "name": "vf"}, "testCases": [{"expectReturn": {"a": 1}}] * n}),
        ("ResourceTemplate", {"template": {**OBJECT, "spec": {f"k{i}": [i] * n for i in range(n)}}}),
        ("ResourceFunction", {"apiConfig": API, "resource": {}, "update": {"never": {f"k{i}": 1 for i in range(n)}}}),
        ("ResourceFunction", {"apiConfig": API, "resource": {}, "delete": {"abandon": {f"k{i}": 1 for i in range(n)}}}),
    ):
        stats.state([kind, n, list(spec)])
        offer(stats, case, kind, spec, f"of size {n}: {show(spec)}")


def check_depths(stats, case):
    n = case["depth"]
    for kind in ("map", "list"):
        for leaf in (1, "=inputs.x", "=" + "(" * n + "1" + ")" * n, "=" + "[" * n + "]" * n, "=x" + ".y" * n, "=x" + "[0]" * n,
                     "=" + "f(" * n + "1" + ")" * n, "=" + "-" * n + "x", "=" + "!" * n + "x", "=1" + " + 1" * n,
                     "=" + "true ? 1 : " * n + "2", "=x" + ".map(a, a)" * n, "=" + "[1].map(a, " * n + "a" + ")" * n):
            value = nest(n, leaf, kind)
            for k, spec in (
                ("ValueFunction", {"return": {"a": value}}), ("ValueFunction", {"locals": {"a": value}, "return": {"b": 1}}),
                ("ResourceFunction", {"apiConfig": API, "resource": {"a": value}, "return": {"a": value}}),
                ("ResourceFunction", {"apiConfig": API, "resource": {}, "overlays": [{"overlay": {"a": value}}],
                                      "create": {"overlay": {"a": value}}}),
                ("ResourceTemplate", {"template": {**OBJECT, "spec": value}, "context": {"a": value}}),
                ("Workflow", {"steps": [{"label": "one", "ref": {"kind": "ValueFunction", "name": "vf"}, "inputs": {"a": value},
                                         "state": {"a": value}}]}),
                ("FunctionTest", {"functionRef": {"kind": "ValueFunction", "name": "vf"}, "inputs": {"a": value}, "currentResource": {"a": value},
                                  "testCases": [{"expectReturn": {"a": value}, "inputOverrides": {"b": value}, "overlayResource": {"a": value}}]}),
            ):
                stats.state([n, kind, leaf, k, list(spec)])
                if not offer(stats, case, k, spec, f"nested {n} deep: {kind} of {show(leaf)}"):
                    return
                if not offer(stats, case, k, spec, f"nested {n} deep: {kind} of {show(leaf)} (cached)", through_cache=True):
                    return
                defs.run_sync(defs.cache.delete_resource_from_cache(defs.KINDS[k][0], {"name": "def", "resourceVersion": "1"}))


def check_refs(stats, case):
    """References of every kind to every kind of thing."""
    names = [(k, n) for k, n, _ in LIBRARY] + [(k, "nope") for k in KINDS] + [("Nope", "vf"), ("ValueFunction", "")]
    for kind, name in names:
        ref = {"kind": kind, "name": name}
        for k, spec in (
            ("Workflow", {"steps": [{"label": "one", "ref": ref}]}),
            ("Workflow", {"steps": [{"label": "one", "ref": ref, "inputs": {"x": "=steps.one"}}]}),
            ("Workflow", {"steps": [{"label": "one", "refSwitch": {"switchOn": "=1", "cases": [{"case": "a", **ref}]}}]}),
            ("Workflow", {"steps": [{"label": "one", "refSwitch": {"switchOn": "=1", "cases": [
                {"case": "a", **ref}, {"case": "a", **ref, "default": True}, {"case": "b", **ref, "default": True}]}}]}),
            ("Workflow", {"steps": [{"label": "one", "ref": ref, "forEach": {"itemIn": "=1", "inputKey": ""}}]}),
            ("Workflow", {"steps": [{"label": "one", "refSwitch": {}}, {"label": "two", "refSwitch": {"switchOn": "=1"}},
                                    {"label": "two", "refSwitch": {"cases": [{"case": "a", **ref}]}}]}),
            ("ResourceFunction", {"apiConfig": API, "resource": {}, "overlays": [{"overlayRef": ref}]}),
            ("ResourceFunction", {"apiConfig": API, "resource": {}, "overlays": [{"overlayRef": ref, "inputs": {"x": 1}}, {"overlayRef": ref}]}),
            ("ResourceFunction", {"apiConfig": API, "resourceTemplateRef": {"name": name}}),
            ("FunctionTest", {"functionRef": ref}), ("FunctionTest", {"functionRef": ref, "testCases": []}),
            ("FunctionTest", {"functionRef": ref, "testCases": [{"expectReturn": {"a": 1}}]}),
            ("FunctionTest", {"functionRef": ref, "testCases": [{"expectDelete": False}]}),
        ):
            stats.state([kind, name, k, list(spec)])
            offer(stats, case, k, spec, f"{show(spec)}")
    # Everything may be a Kubernetes kind.
    for version, kind, plural in itertools.product(
        ("v1", "apps/v1", "a/b/c", "/", "v1/", "/v1", "=", "x", "core/v1", defs.VERSION, "a\x00", "\ud800", ""),
        ("Secret", "Deployment", "secret", "secrets", "A.b", "a/b", "=inputs.x", " ", "x y", "class", "K\x00", "\ud800", "\u00e9", "APIObject",
         "Pod", "None", "1", "__init__", ""),
        (None, "secrets", "SECRETS", "", "a/b", "\x00", "\ud800"),
    ):
        api = {"apiVersion": version, "kind": kind, "name": "n", "namespace": "n"}
        for namespaced in (None, True, False):
            if plural is not None:
                api["plural"] = plural
            if namespaced is not None:
                api["namespaced"] = namespaced
            stats.state([version, kind, plural, namespaced])
            offer(stats, case, "ResourceFunction", {"apiConfig": api, "resource": {}}, f"{api}")


def check_chars(stats, case):
    for code in case["chars"]:
        c = chr(code)
        for text in (c, "a" + c + "b", "=" + c, "='" + c + "'", '="' + c + '"', "=inputs." + c, "=a" + c + "b", "=1 " + c + " 2", c + "=1", "1" + c,
                     "-" + c, "='\\" + c + "'", c * 3 + "\"", "=" + c + c, "\\" + c, "='''" + c + "'''", "=r'" + c + "'", "=b'" + c + "'"):
            stats.state([text])
            offer(stats, case, "ValueFunction", {"return": {"a": text, "b": [text]}, "preconditions": [
                {"assert": "=true", "skip": {"message": text}}], "locals": {text: 1}}, f"text {text!r}")
            offer(stats, case, "ValueFunction", {"return": {text: text, "c": {text: {text: text}}}}, f"key {text!r}")
            offer(stats, case, "Workflow", {"steps": [{"label": text + "abc", "ref": {"kind": "ValueFunction", "name": "vf"}, "skipIf": text,
                                                      "inputs": {"a": text, text: 1}}]}, f"text {text!r}")
            offer(stats, case, "FunctionTest", {"functionRef": {"kind": "ValueFunction", "name": "vf"}, "inputs": {text: text}, "testCases": [
                {"label": text, "expectReturn": {text: text}, "inputOverrides": {text: text}, "overlayResource": {text: text}}]}, f"text {text!r}")
