"""C15 Cache keyed by resourceVersion: every history against a map model."""
import asyncio
import copy
import itertools

from .. import env, defs, loop
from ..env import cache, registry
from ..report import THOROUGH
from koreo import result as R

LEVEL = "model_checking"
RULE = (
    "every history of offers (several versions; succeeding, failing, retrying, "
    "watching, falsy specs), deletes (by name, by stale/current version, by "
    "metadata) over the keys, up to the depth bound, executed on the real cache "
    "with counting preparers (which also mutate the spec they are given) and with "
    "the five real kinds; after every operation every key is looked up and compared "
    "with a map model. A state is a distinct model map; a transition one cache "
    "operation."
)
ASSUMPTIONS = ["operations are issued one after another (concurrency is C16's subject)"]


class KindA:
    pass


class KindB:
    pass


class Prepared:
    def __init__(self, falsy, ident):
        self.falsy, self.ident = falsy, ident

    def __len__(self):
        return 0 if self.falsy else 1


KEYS = [(KindA, "a"), (KindA, "b"), (KindB, "a")]
NEVER = registry.Resource(resource_type=KindB, name="never-offered")
SPECS = {
    "ok": {"mode": "ok"},
    "fail": {"mode": "fail"},
    "retry": {"mode": "retry"},
    "watch": {"mode": "watch"},
    "falsy": {"mode": "falsy"},
}


def bounds():
    return {
        "keys": 3, "versions": 2,
        "depth_core": 5 if THOROUGH else 4,
        "depth_meta": 4 if THOROUGH else 3,
        "depth_wide_spec": 4 if THOROUGH else 3,
        "depth_real_kinds": 4 if THOROUGH else 3,
    }


def ops_core():
    out = []
    for k in range(3):
        for v in ("1", "2"):
            out += [("offer", k, v, "ok"), ("offer", k, v, "fail")]
        out += [("delete", k, None), ("delete", k, "1"), ("delete", k, "2")]
    return out


def ops_wide():
    out = []
    for k in (0, 1, 2):
        for s in (SPECS if k == 0 else ("ok", "watch")):
            for v in ("1", "2", "10") if k == 0 else ("1", "2"):
                out.append(("offer", k, v, s))
        out += [("delete", k, None), ("delete", k, "1"), ("delete", k, "2"),
                ("delete_meta", k, "1"), ("delete_meta", k, "9"), ("lookup", k)]
    return out


REAL = {
    "VF": ("ValueFunction", {"ok": {"return": {"a": 1}}, "fail": {"return": {"a": "=1 +"}},
                             "schema": {"retur": 3}}),
    "RF": ("ResourceFunction", {
        "ok": {"apiConfig": defs.api_config(), "resource": {"a": 1}},
        "watch": {"apiConfig": defs.api_config(), "resource": {"a": 1},
                  "overlays": [{"overlayRef": {"kind": "ValueFunction", "name": "nope"}}]},
        "schema": {"apiConfig": {}}}),
    "RT": ("ResourceTemplate", {"ok": {"template": {"apiVersion": "v1", "kind": "ConfigMap"}},
                                "schema": {"template": 4}}),
    "WF": ("Workflow", {
        "ok": {"steps": [{"label": "one", "ref": {"kind": "ValueFunction", "name": "nope"}}]},
        "schema": {"steps": 3}}),
    "FT": ("FunctionTest", {
        "ok": {"functionRef": {"kind": "ValueFunction", "name": "nope"},
               "testCases": [{"expectReturn": {"a": 1}}]},
        "schema": {"testCases": "no"}}),
}


def ops_real(kind):
    out = []
    for n in ("a", "b"):
        for s in REAL[kind][1]:
            for v in ("1", "2"):
                out.append(("offer", n, v, s))
        out += [("delete", n, None), ("delete", n, "1"), ("delete", n, "2")]
    return out


def metadata(name, version, flavour, count):
    """What else the API server says about the offered resource."""
    out = {"name": name, "resourceVersion": version}
    if flavour == "constant":  # nothing but the version tells the offers apart
        out.update(namespace="ns1", uid="u1", generation=1, labels={"l": "1"}, annotations={},
                   creationTimestamp="2024-01-01T00:00:00Z", managedFields=[])
    if flavour == "moving":  # everything but the version changes
        out.update(namespace="ns1", uid=f"u{count}", generation=count, labels={"l": f"{count}"},
                   annotations={"a": f"{count}"}, managedFields=[{"time": f"{count}"}])
    return out


def cases():
    for flavour in ("constant", "moving"):
        for first in ops_core():
            for second in ops_core():
                yield {"k": "meta", "flavour": flavour, "prefix": [first, second]}
    for first in ops_core():
        for second in ops_core():
            yield {"k": "core", "prefix": [first, second]}
    for first in ops_wide():
        yield {"k": "wide", "prefix": [first]}
    for kind in REAL:
        for first in ops_real(kind):
            yield {"k": "real", "kind": kind, "prefix": [first]}


def check(stats, case):
    which = case["k"]
    ops = {"core": ops_core, "meta": ops_core, "wide": ops_wide}.get(which) or (lambda: ops_real(case["kind"]))
    depth = bounds()[{"core": "depth_core", "meta": "depth_meta", "wide": "depth_wide_spec",
                      "real": "depth_real_kinds"}[which]]
    prefix = [tuple(o) for o in case["prefix"]]

    async def go():
        if "whole" in case:
            tails = [()]
        else:
            tails = itertools.product(ops(), repeat=depth - len(prefix))
        for tail in tails:
            full = prefix + list(tail)
            bad = await (real_history(stats, case["kind"], full) if which == "real"
                         else history(stats, full, case.get("flavour")))
            stats.trace()
            if bad:
                stats.problem(bad, {**case, "prefix": full, "whole": True})
                return
        stats.sample({"history": full})

    loop.run(go, max_turns=10**9)


async def settle():
    env.reset()
    for _ in range(3):
        await asyncio.sleep(0)
    env.reset()


def same_state(model, key_lookup, key_data, keys):
    for key in keys:
        got = key_lookup(key)
        data = key_data(key)
        entry = model.get(key)
        if entry is None:
            if got is not None or data is not None:
                return f"{key} should be absent, lookup gives {got!r}"
        else:
            if got is not entry[1]:
                return f"{key}: lookup gives {got!r}, not the result of version {entry[0]}"
            if data is None or data.resource_version != entry[0] or data.resource is not entry[1]:
                return f"{key}: system data {data!r} disagrees with version {entry[0]}"
    return None


async def history(stats, ops, flavour=None):
    if any(len(o) > 3 and o[3] == "watch" for o in ops):
        await settle()
    else:
        env.reset()
    model, counts = {}, {}

    def preparer_for(k):
        async def preparer(name, spec):
            counts[k] = counts.get(k, 0) + 1
            mode = spec.pop("mode")
            spec["junk"] = True
            if mode == "fail":
                return R.PermFail(message=f"fail {counts[k]}")
            if mode == "retry":
                return R.Retry(message=f"retry {counts[k]}", delay=3)
            return Prepared(mode == "falsy", (k, counts[k])), ([NEVER] if mode == "watch" else None)

        return preparer

    for at, op in enumerate(ops):
        kind, k = op[0], op[1]
        cls, name = KEYS[k]
        stats.step()
        if kind == "offer":
            before = counts.get(k, 0)
            ret = await cache.prepare_and_cache(
                cls, preparer_for(k), metadata(name, op[2], flavour, at),
                copy.deepcopy(SPECS[op[3]]))
            prepared = counts.get(k, 0) - before
            entry = model.get(k)
            if entry and entry[0] == op[2]:
                if prepared:
                    return f"{ops}: same version was prepared again"
                if ret is not entry[1]:
                    return f"{ops}: same version returned {ret!r}, cached is {entry[1]!r}"
            else:
                if prepared != 1:
                    return f"{ops}: a new version was prepared {prepared} times"
                want = {"fail": R.PermFail, "retry": R.Retry}.get(op[3], Prepared)
                if type(ret) is not want:
                    return f"{ops}: offer returned {ret!r}"
                if want is Prepared and ret.ident != (k, counts[k]):
                    return f"{ops}: offer returned an older preparation"
                model[k] = (op[2], ret)
        elif kind == "delete":
            await cache.delete_from_cache(cls, name, op[2]) if op[2] else await cache.delete_from_cache(cls, name)
            if k in model and (op[2] is None or op[2] == model[k][0]):
                del model[k]
        elif kind == "delete_meta":
            await cache.delete_resource_from_cache(cls, {"name": name, "resourceVersion": op[2]})
            # deletes by name; the version in the metadata is that of the deletion event
            model.pop(k, None)
        bad = same_state(
            model,
            lambda i: cache.get_resource_from_cache(*KEYS[i]),
            lambda i: cache.get_resource_system_data_from_cache(*KEYS[i]),
            range(3))
        stats.evaluated(3)
        if bad:
            return f"{ops} after {op}: {bad}"
    stats.state(sorted((k, v[0], type(v[1]).__name__) for k, v in model.items()))
    return None


async def real_history(stats, short, ops):
    kind, specs = REAL[short]
    await settle()
    defs.reset_classes()
    cls, real = defs.KINDS[kind]
    counts, model = {}, {}

    async def preparer(name, spec):
        counts[name] = counts.get(name, 0) + 1
        return await real(name, spec)

    for op in ops:
        stats.step()
        if op[0] == "offer":
            _, name, version, spec = op
            before = counts.get(name, 0)
            ret = await cache.prepare_and_cache(
                cls, preparer, {"name": name, "resourceVersion": version},
                copy.deepcopy(specs[spec]))
            prepared = counts.get(name, 0) - before
            entry = model.get(name)
            if entry and entry[0] == version:
                if prepared or ret is not entry[1]:
                    return f"{kind} {ops}: same version prepared {prepared} more times"
            else:
                if prepared != 1:
                    return f"{kind} {ops}: new version prepared {prepared} times"
                if spec in ("fail", "schema") and R.is_unwrapped_ok(ret):
                    return f"{kind} {ops}: failing spec accepted: {ret!r}"
                model[name] = (version, ret)
        else:
            _, name, version = op
            await cache.delete_from_cache(cls, name, version)
            if name in model and (version is None or version == model[name][0]):
                del model[name]
        bad = same_state(
            model,
            lambda n: cache.get_resource_from_cache(cls, n),
            lambda n: cache.get_resource_system_data_from_cache(cls, n),
            ("a", "b"))
        if bad:
            return f"{kind} {ops} after {op}: {bad}"
    stats.state([short, sorted((k, v[0], R.is_unwrapped_ok(v[1])) for k, v in model.items())])
    return None
