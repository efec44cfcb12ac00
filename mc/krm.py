"""Target specifications, live-object deviations/decorations, and oracles."""
import copy
import itertools
import json

from . import defs

LA = "koreo.dev/last-applied-configuration"
AS_SET, AS_MAP, AS_LAST = (
    "x-koreo-compare-as-set", "x-koreo-compare-as-map", "x-koreo-compare-last-applied")
DIRECTIVES = {AS_SET, AS_MAP, AS_LAST}


def number(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def container(v):
    return isinstance(v, (dict, list))


def meets(t, v, how=None):
    """Does live value v contain target t?  True, False or None (not specified)."""
    if t is None:
        return None
    if isinstance(t, dict):
        if not isinstance(v, dict):
            return False
        verdict = True
        for key, sub in t.items():
            if key in DIRECTIVES or key == "ownerReferences":
                continue
            if key in t.get(AS_LAST, ()):
                verdict = None if verdict else verdict
                continue
            if key not in v:
                return False
            mode = None
            if key in t.get(AS_MAP, {}):
                mode = ("map", t[AS_MAP][key])
            elif key in t.get(AS_SET, ()):
                mode = ("set",)
            got = meets(sub, v[key], mode)
            if got is False:
                return False
            if got is None:
                verdict = None
        return verdict
    if isinstance(t, list):
        if not isinstance(v, list):
            return False
        if how and how[0] == "set":
            if any(container(x) for x in t + v):
                if len(t) == len(v) and all(meets(a, b) is True for a, b in zip(t, v)):
                    return True
                if any(all(meets(x, y) is False for y in v) for x in t):
                    return False
                if any(all(meets(x, y) is False for x in t) for y in v):
                    return False
                return None
            a, b = {leaf(x) for x in t}, {leaf(x) for x in v}
            if a == b and len(t) != len(v):
                return None  # repeated members
            return a == b
        if how and how[0] == "map":
            return meets_map(t, v, how[1])
        if len(t) != len(v):
            return False
        return fold(meets(a, b) for a, b in zip(t, v))
    # leaf
    if container(v) or v is None:
        return False
    if isinstance(t, bool) or isinstance(v, bool):
        return isinstance(t, bool) and isinstance(v, bool) and t == v
    if number(t) and number(v):
        return t == v
    return type(t) is type(v) and t == v


def leaf(x):
    return (isinstance(x, bool), isinstance(x, str), x)


def fold(verdicts):
    out = True
    for x in verdicts:
        if x is False:
            return False
        if x is None:
            out = None
    return out


def meets_map(t, v, fields):
    if not t or not v:
        return t == v
    if not all(isinstance(x, dict) for x in t):
        # not a list of objects: the directive cannot apply
        return fold(meets(a, b) for a, b in zip(t, v)) if len(t) == len(v) else False

    def key(o):
        return tuple(json.dumps(o.get(f)) for f in fields)

    keys = [key(x) for x in t]
    if len(set(keys)) != len(keys):
        if len(t) == len(v):
            return True if fold(meets(a, b) for a, b in zip(t, v)) else None
        return None
    if not all(isinstance(x, dict) for x in v):
        return False
    live = {}
    for x in v:
        live.setdefault(key(x), []).append(x)
    if len(live) != len(v) == len(t) and fold(meets(a, b) for a, b in zip(t, v)) is not False:
        return None  # the live list is not keyed, position by position it matches
    out = True
    for x in t:
        found = live.get(key(x), [])
        if not found:
            return False
        if not any(meets(x, y) is not False for y in found):
            return False
        if len(found) > 1 or meets(x, found[0]) is None:
            out = None
    if len(v) != len(t):
        return None if out is not False else False
    return out


def strip(obj):
    """Target as it must be sent: no directives."""
    if isinstance(obj, dict):
        return {k: strip(v) for k, v in obj.items() if k not in DIRECTIVES}
    if isinstance(obj, list):
        return [strip(v) for v in obj]
    return obj


def without_last(obj):
    """The target with last-applied fields compared like all others."""
    if isinstance(obj, dict):
        return {k: without_last(v) for k, v in obj.items() if k != AS_LAST}
    if isinstance(obj, list):
        return [without_last(v) for v in obj]
    return obj


def paths(obj, base=()):
    """Every path of a target a live object can deviate at."""
    if isinstance(obj, dict):
        for k, v in obj.items():
            if k in DIRECTIVES or k == "ownerReferences" or k in obj.get(AS_LAST, ()):
                continue
            yield (*base, k)
            yield from paths(v, (*base, k))
    elif isinstance(obj, list):
        for i, v in enumerate(obj):
            yield (*base, i)
            yield from paths(v, (*base, i))


def get(obj, path):
    for p in path:
        obj = obj[p]
    return obj


MISSING = object()
CANDIDATES = [MISSING, None, 0, 1, -1, 2.5, True, False, "", "a", "1", "true", [], [None], [0], [1],
              ["a"], [{}], {}, {"a": 1}, {"name": "a"}]


def put(obj, path, value):
    out = copy.deepcopy(obj)
    node = out
    for p in path[:-1]:
        node = node[p]
    if value is MISSING:
        if isinstance(node, dict):
            node.pop(path[-1], None)
        else:
            del node[path[-1]]
    else:
        node[path[-1]] = copy.deepcopy(value)
    return out


def deviations(current):
    """Values to put in place of `current` (some may not be deviations)."""
    out = list(CANDIDATES)
    if isinstance(current, bool):
        out += [not current, int(current), str(current).lower()]
    elif number(current):
        out += [current + 1, bool(current), str(current), float(current)]
        out += [int(current)] if current == int(current) else []
    elif isinstance(current, str):
        out += [current + "x", current.upper(), f" {current}", [current], {current or "k": current}]
    elif isinstance(current, list):
        out += [current[:-1], current[1:], current + current[:1], current + ["extra"], current + [0],
                current + [None], current[::-1], {str(i): v for i, v in enumerate(current)}]
        out += [current[:i] + [x] + current[i + 1:] for i in range(len(current))
                for x in (None, 0, 1, True, "a", {}, [])]
    elif isinstance(current, dict):
        out += [{k: v for k, v in current.items() if k != d} for d in current]
        out += [list(current.values()), list(current), [current]]
    seen, uniq = set(), []
    for v in out:
        k = "MISSING" if v is MISSING else json.dumps(v, sort_keys=True)
        if k not in seen and (v is MISSING or k != json.dumps(current, sort_keys=True)):
            seen.add(k)
            uniq.append(v)
    return uniq


def dicts(obj, base=()):
    """Paths of all mappings inside obj (including through lists)."""
    if isinstance(obj, dict):
        yield base
        for k, v in obj.items():
            yield from dicts(v, (*base, k))
    elif isinstance(obj, list):
        for i, v in enumerate(obj):
            yield from dicts(v, (*base, i))


def directed_lists(t, base=()):
    """Paths of target lists whose order does not matter."""
    if isinstance(t, dict):
        for k, v in t.items():
            if k in DIRECTIVES or k in t.get(AS_LAST, ()):
                continue
            if isinstance(v, list) and (k in t.get(AS_SET, ()) or k in t.get(AS_MAP, {})):
                if k in t.get(AS_MAP, {}) or not any(container(x) for x in v):
                    yield (*base, k)
            yield from directed_lists(v, (*base, k))
    elif isinstance(t, list):
        for i, v in enumerate(t):
            yield from directed_lists(v, (*base, i))


def permutations(items):
    if len(items) <= 3:
        return [list(p) for p in itertools.permutations(items)]
    return [items[::-1], items[1:] + items[:1], [items[1], items[0], *items[2:]]]


def forced(name="thing", namespace="ns1", kind=None, version=None):
    md = {"name": name}
    if namespace is not None:
        md["namespace"] = namespace
    return {"apiVersion": version or defs.VERSION, "kind": kind or defs.NS_KIND, "metadata": md}


def deep_merge(base, over):
    out = copy.deepcopy(base)
    for k, v in over.items():
        if isinstance(v, dict) and isinstance(out.get(k), dict):
            out[k] = deep_merge(out[k], v)
        else:
            out[k] = copy.deepcopy(v)
    return out


# -- payload oracle (C08) ----------------------------------------------------
def directive_keys(obj):
    if isinstance(obj, dict):
        for k, v in obj.items():
            if k in DIRECTIVES or str(k).startswith("x-koreo-compare"):
                yield k
            yield from directive_keys(v)
    elif isinstance(obj, list):
        for v in obj:
            yield from directive_keys(v)


def _no_dup(pairs):
    out = {}
    for k, v in pairs:
        if k in out:
            raise ValueError(f"duplicate key {k}")
        out[k] = v
    return out


def strict(value):
    """JSON value with bool/int/float told apart, for exact comparison."""
    if isinstance(value, dict):
        return {k: strict(v) for k, v in value.items()}
    if isinstance(value, list):
        return [strict(v) for v in value]
    return (type(value).__name__, value)


def audit(call):
    """Problem with the cleanliness of one POST/PATCH payload, or None."""
    payload = call.payload
    if not isinstance(payload, dict):
        return f"{call.op} payload is {payload!r}"
    bad = list(directive_keys(payload))
    if bad:
        return f"{call.op} payload contains directive {bad}: {payload}"
    try:
        note = payload["metadata"]["annotations"][LA]
    except (KeyError, TypeError):
        return f"{call.op} payload lacks the last-applied annotation: {payload}"
    if not isinstance(note, str):
        return f"last-applied annotation is {note!r}"
    try:
        recorded = json.loads(note, object_pairs_hook=_no_dup)
    except ValueError as err:
        return f"last-applied annotation is not the JSON of an object ({err}): {note[:200]}"
    rest = copy.deepcopy(payload)
    del rest["metadata"]["annotations"][LA]
    allowed = [rest]
    if not rest["metadata"]["annotations"]:
        bare = copy.deepcopy(rest)
        del bare["metadata"]["annotations"]
        allowed.append(bare)
    if strict(recorded) not in [strict(a) for a in allowed]:
        return f"last-applied {note} is not the object as sent: {rest}"
    return None


def body(payload):
    """Payload without Koreo's annotation (and an annotations map left empty)."""
    out = copy.deepcopy(payload)
    notes = out.get("metadata", {}).get("annotations")
    if isinstance(notes, dict):
        notes.pop(LA, None)
        if not notes:
            del out["metadata"]["annotations"]
    return out
