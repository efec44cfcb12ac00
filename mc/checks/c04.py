"""C04 ResourceFunction reaches a fixpoint: no mutation once target is met."""
import copy
import itertools
import json

from .. import defs, krm, loop
from ..cluster import Cluster
from ..report import THOROUGH, CodeProblem
from . import c05
from koreo import result as R

LEVEL = "model_checking"
RULE = (
    "explicit-state exploration of (cluster object) under repeated real reconcile "
    "passes: for every bounded target (grammar + curated, all deliveries, typed CEL "
    "values and keys, create overlays), every server decoration (one extra key or map "
    "at each mapping, status/bookkeeping, every reordering of set/map lists, foreign "
    "last-applied notes, other owners, all together) and every start (absent, "
    "pre-existing and meeting the target, drifted), passes run until the cluster "
    "repeats: whenever the independent oracle says the object meets the target and is "
    "owned, the pass must make no mutating call and end in postconditions/return; every "
    "mutating pass returns Retry with its configured delay; a mutation happens at most "
    "once (twice when recreating); right after a create/patch the target is met."
)
ASSUMPTIONS = [
    "server keeps what it is sent (RFC 7386) and only adds or reorders; explicit nulls excluded",
    "create overlays do not contradict the target",
]

PASSES = 6


def bounds():
    return {"targets": len(list(c05.grammar())) + len(c05.CURATED) + len(TYPED), "passes": PASSES,
            "starts": ["absent", "meeting", "drifted"]}


# computed values whose CEL type is not the JSON type it becomes
TYPED = [
    {"f": "=timestamp('2024-02-29T12:34:56Z')"}, {"f": "=duration('90s')"}, {"f": "=b'bytes'"},
    {"f": "=3u"}, {"f": "=2.0"}, {"f": "=1.5e10"}, {"f": "={1: 'one', 2: 'two'}"},
    {"f": "={true: 'yes', false: {'n': 1}}"}, {"f": "={1u: [1]}"}, {"f": "=-9223372036854775807"},
    {"f": "=9007199254740993"}, {"f": "=[timestamp('2024-01-01T00:00:00Z')]", krm.AS_SET: ["f"]},
    {"f": "=[{'t': duration('1h'), 'n': 1}]", krm.AS_MAP: {"f": ["t"]}}, {"f": "='é\\u2028☃'"},
    {"f": "=[1, 2].map(x, {'n': x})"}, {"f": "=[true, 1 == 2]"}, {"f": "=to_json({'a': [1]})"},
    {"f": "=inputs.t.spec.g", "g": 1}, {"f": "=[3, 1, 2]", krm.AS_SET: "=['f']"},
    {"f": "=[{'name': 'a', 'v': 1}]", krm.AS_MAP: "={'f': ['name']}"},
    {"f": "='a' + 'b'", "last": "=[1, {'b': true}]", krm.AS_LAST: ["last"]},
    {"f": 1e300}, {"f": 0.1}, {"f": -0.0}, {"f": 123456789012345678},
    {"f": "=[]"}, {"f": "={}"}, {"f": "=has(inputs.nothere) ? 1 : 0"},
]
METADATA = [
    {"labels": {"a": "b"}, "annotations": {"x": "y"}},
    {"annotations": {krm.LA: "mine"}}, {"annotations": {krm.LA: "{}", "x": "y"}},
    {"annotations": {}}, {"labels": {}}, {"finalizers": ["b", "a"], krm.AS_SET: ["finalizers"]},
    {"ownerReferences": [{"apiVersion": "v1", "kind": "K", "name": "n", "uid": "u-target"}]},
    {"name": "other", "namespace": "elsewhere", "labels": {"a": "one"}},
]


def cases():
    for spec in c05.grammar():
        yield {"spec": spec, "policy": "patch", "delivery": "expr"}
    for spec in c05.CURATED:
        for delivery in c05.DELIVERIES:
            for policy in c05.POLICIES:
                yield {"spec": spec, "policy": policy, "delivery": delivery}
        for overlay in CREATE:
            yield {"spec": spec, "policy": "patch", "delivery": "expr", "create": overlay}
    for spec in TYPED:
        for policy in ("patch", "recreate"):
            yield {"spec": spec, "policy": policy, "delivery": "inline", "typed": True}
    for md in METADATA:
        for delivery in ("inline", "template"):
            for policy in c05.POLICIES:
                yield {"spec": {"f": 1}, "metadata": md, "policy": policy, "delivery": delivery}
    for scope, owned, owner_ns in itertools.product(("ns", "cluster"), (True, False, None), ("ns1", "ns2", "")):
        for policy in c05.POLICIES:
            yield {"spec": {"f": [{"n": 1}], "tags": ["a", "b"], krm.AS_SET: ["tags"]}, "policy": policy,
                   "delivery": "expr", "scope": scope, "owned": owned, "owner_ns": owner_ns}
    for post in ("skip", "depSkip", "retry", "permFail"):
        yield {"spec": {"f": 1}, "policy": "patch", "delivery": "expr", "post": post}


CREATE = [
    {"spec": {"created": 1}}, {"extra": {"deep": {"x": ["=1 + 1"]}}},
    {"metadata": {"annotations": {"once": "=resource.metadata.name"}, "labels": {"l": "v"}}},
    {"spec": {"created": {"n": "=size(resource.spec)"}}},
]


async def build(case):
    if case.get("typed"):
        cfg = defs.api_config()
        spec = {"apiConfig": cfg, "resource": {"spec": case["spec"]}, "create": {"delay": 40},
                "return": {"seen": "=resource.metadata.name"}}
        if c05.POLICIES[case["policy"]]:
            spec["update"] = c05.POLICIES[case["policy"]]
        return await c05.offer("ResourceFunction", "fn", spec), {"t": {"spec": {"g": [1, {"h": True}]}}}, None
    cluster_scoped = case.get("scope") == "cluster"
    if not any(case.get(k) is not None for k in ("create", "owned", "owner_ns", "post")):
        return await c05.build(case)
    target = {"spec": case["spec"]}
    cfg = defs.api_config(cluster_scoped=cluster_scoped, **({"namespace": None} if cluster_scoped else {}))
    if case.get("owned") is not None:
        cfg["owned"] = case["owned"]
    spec = {"apiConfig": cfg, "resource": {"spec": "=inputs.t.spec"},
            "create": {"delay": 40, **({"overlay": case["create"]} if case.get("create") else {})},
            "return": {"seen": "=resource.metadata.name"}}
    if c05.POLICIES[case["policy"]]:
        spec["update"] = c05.POLICIES[case["policy"]]
    if case.get("post"):
        body = {"message": "M"}
        if case["post"] == "retry":
            body["delay"] = 17
        spec["postconditions"] = [{"assert": "=resource.spec.f == 2", case["post"]: body}]
    full = krm.deep_merge(target, krm.forced(
        namespace=None if cluster_scoped else "ns1",
        kind=defs.CL_KIND if cluster_scoped else defs.NS_KIND))
    return await c05.offer("ResourceFunction", "fn", spec), {"t": target}, full


OTHER = {"apiVersion": "v1", "kind": "Other", "name": "o", "uid": "u-other"}


def decorations(full, base, post=None):
    """Functions obj -> decorated obj, each of which keeps the target met."""
    yield "none", lambda o: o

    def bookkeeping(o):
        md = o["metadata"]
        md.update({"generation": 7, "creationTimestamp": "2024-01-01T00:00:00Z",
                   "managedFields": [{"manager": "koreo", "fieldsV1": {"f:spec": {}}}],
                   "selfLink": "/x"})
        md.setdefault("annotations", {}).update({"server": "yes"})
        md.setdefault("labels", {}).update({"server-label": "yes"})
        o["status"] = {"conditions": [{"type": "Ready", "status": "True"}], "n": 0}
        return o

    yield "bookkeeping", bookkeeping

    def terminating(o):
        o["metadata"].update({"deletionTimestamp": "2024-01-02T00:00:00Z", "deletionGracePeriodSeconds": 0})
        return o

    yield "terminating", terminating

    def owner(o):
        refs = o["metadata"].setdefault("ownerReferences", [])
        if not any(r.get("uid") == "u-other" for r in refs):
            refs.insert(0, dict(OTHER))
        return o

    yield "owner", owner
    spots = [p for p in krm.dicts(base) if krm.LA not in p]
    for path in spots:
        for extra in ("server", {"deep": [{"er": None}]}, None, []):
            def add(o, path=path, extra=extra):
                try:
                    node = krm.get(o, path)
                except (KeyError, IndexError, TypeError):
                    return o
                if isinstance(node, dict):
                    node["serverAdded"] = copy.deepcopy(extra)
                return o

            if extra == "server" or len(path) <= 2 or THOROUGH:
                yield f"extra@{'.'.join(map(str, path))}", add

    def everything(o):
        for path in sorted(krm.dicts(o), key=len, reverse=True):
            if path[:1] != ("metadata",) or len(path) < 2:
                krm.get(o, path)["serverAdded"] = {"x": [1]}
        return owner(bookkeeping(o))

    def bulky(o):
        for path in sorted(krm.dicts(o), key=len, reverse=True):
            if path[:1] != ("metadata",):
                krm.get(o, path)["serverAdded"] = "x" * 600
        return o

    yield "everything", everything
    yield "bulky", bulky

    def rewritten(obj, number):
        """The same JSON, as another serializer may return it."""
        if isinstance(obj, dict):
            return {k: rewritten(v, number) for k, v in reversed(list(obj.items()))}
        if isinstance(obj, list):
            return [rewritten(v, number) for v in obj]
        if number and isinstance(obj, int) and not isinstance(obj, bool) and abs(obj) < 2**53:
            return float(obj)
        if number and isinstance(obj, float) and obj.is_integer() and abs(obj) < 2**53:
            return int(obj)
        return obj

    yield "key order", lambda o: rewritten(o, False)
    if not post:  # CEL tells 1 from 1.0, so an assertion may as well
        yield "number form", lambda o: {**o, "spec": rewritten(o["spec"], True)}
    if full is None:
        return
    for path in krm.directed_lists(full):
        for perm in krm.permutations(krm.get(full, path)):
            order = [json.dumps(krm.strip(x), sort_keys=True) for x in perm]

            def shuffle(o, path=path, n=len(perm), perm=perm, full=full):
                try:
                    items = krm.get(o, path)
                except (KeyError, IndexError, TypeError):
                    return o
                if isinstance(items, list) and len(items) == n:
                    source = krm.get(full, path)
                    texts = [json.dumps(x, sort_keys=True) for x in source]
                    index = [texts.index(json.dumps(x, sort_keys=True)) for x in perm]
                    krm.get(o, path[:-1])[path[-1]] = [items[i] for i in index]
                return o

            yield f"order@{'.'.join(map(str, path))}={order}", shuffle

            def both(o, shuffle=shuffle):
                return shuffle(everything(o))

            yield f"order+everything@{'.'.join(map(str, path))}", both


def check(stats, case):
    defs.fresh()
    fn, inputs, full = loop.run(lambda: build(case))
    cluster_scoped = case.get("scope") == "cluster"
    owner_ns = case.get("owner_ns", "ns1")
    should_own = case.get("owned") is not False and not cluster_scoped and owner_ns == "ns1"
    plural = defs.CL_PLURAL if cluster_scoped else defs.NS_PLURAL
    key = (defs.VERSION, plural, None if cluster_scoped else "ns1", "thing")
    policy = case["policy"]
    patch_delay = 41 if policy == "patch" else None
    last_directed = bool(full is not None and has_last(full)) or (full is None and krm.AS_LAST in case["spec"])

    def one(cluster):
        mark = len(cluster.log)
        out, _ = loop.run(lambda: defs.run_rf(cluster, fn, inputs, owner_ns=owner_ns))
        stats.step(len(cluster.log) - mark)
        stats.trace()
        return defs.outcome(out), [c for c in cluster.log[mark:] if c.op in ("POST", "PATCH", "DELETE")]

    def owned(obj):
        return not should_own or any(
            r.get("uid") == defs.OWNER_UID for r in obj["metadata"].get("ownerReferences") or [])

    def bad(message, deco, start):
        stats.problem(f"{message} [decoration {deco}, start {start}]", {**case, "deco": deco, "start": start})

    def final_ok(out):
        if case.get("post"):
            return out["class"].lower() == case["post"].lower() and out["message"].startswith("M")
        return out["class"] == "Ok" and out["value"] == {"seen": "thing"}

    # the undecorated object, as created
    cluster = Cluster()
    out, muts = one(cluster)
    if [m.op for m in muts] != ["POST"] or out["class"] != "Retry" or out["delay"] != 40:
        return bad(f"creating gave {out} {[m.op for m in muts]}", "none", "absent")
    base = cluster.snapshot()[key]
    want = full if full is not None else krm.body(cluster.log[-1].payload)
    if full is None:
        want["spec"].update({k: v for k, v in case["spec"].items() if k in krm.DIRECTIVES and not isinstance(v, str)})
        for k, v in case["spec"].items():
            if k in krm.DIRECTIVES and isinstance(v, str):
                want["spec"][k] = {krm.AS_SET: ["f"], krm.AS_MAP: {"f": ["name"]}}[k]
        want["metadata"].pop("ownerReferences", None)
    if case.get("metadata"):
        want = copy.deepcopy(want)
        want["metadata"].get("annotations", {}).pop(krm.LA, None)
    for deco, fn_deco in decorations(want, base, case.get("post")):
        if case.get("deco") not in (None, deco):
            continue
        # a decoration is something that leaves the target met
        if krm.meets(want, fn_deco(copy.deepcopy(base))) is not krm.meets(want, base):
            stats.count("decorations_not_applicable")
            continue
        starts = ["absent", "meeting", "stranger", "drifted"]
        if policy == "patch" and deco in ("none", "everything") and case["delivery"] != "inline":
            starts += [f"note{i}" for i in range(1, len(c05.NOTES))]
        for start in starts:
            if case.get("start") not in (None, start):
                continue
            if start == "drifted" and (policy == "never" or not (deco in ("none", "everything") or deco.startswith("order"))):
                continue
            cluster = Cluster()
            cluster.decorate = fn_deco
            if start != "absent":
                obj = fn_deco(copy.deepcopy(base))
                if start == "stranger":
                    obj["metadata"].get("annotations", {}).pop(krm.LA, None)
                    obj["metadata"].pop("ownerReferences", None)
                if start.startswith("note"):
                    obj["metadata"].setdefault("annotations", {})[krm.LA] = c05.NOTES[int(start[4:])]
                if start == "drifted":
                    for path in krm.paths(want):
                        if path[0] == "spec" and len(path) == 2:
                            obj = krm.put(obj, path, krm.MISSING)
                            break
                cluster.store[key] = obj
            counts = {"POST": 0, "PATCH": 0, "DELETE": 0}
            for n in range(PASSES):
                live = cluster.store.get(key)
                met = live is not None and krm.meets(want, live)
                before = live is not None and met is not False and owned(live)
                out, muts = one(cluster)
                stats.state([want, live, policy, case.get("owned"), owner_ns])
                ops = [m.op for m in muts]
                for op in ops:
                    counts[op] += 1
                where = f"pass {n}: {ops} {out}"
                if met is True and before and muts and not last_directed:
                    return bad(f"{where} although the object meets the target: {live}", deco, start)
                if muts:
                    delay = {"POST": 40, "PATCH": patch_delay, "DELETE": 43}[ops[0]]
                    if len(muts) > 1 or out["class"] != "Retry" or delay is not None and out["delay"] != delay:
                        return bad(f"{where}: a mutating pass must be one call and Retry({delay})", deco, start)
                    if ops[0] in ("POST", "PATCH"):
                        live = cluster.store[key]
                        if krm.meets(want, live) is False or not owned(live):
                            return bad(f"{where}: target {want} not met afterwards: {live}", deco, start)
                elif not final_ok(out):
                    return bad(f"{where}: no mutation, yet not the function's result", deco, start)
                elif n == PASSES - 1 or not muts and n > 0:
                    break
            else:
                return bad(f"update loop: {counts} in {PASSES} passes", deco, start)
            limit = {"absent": {"POST": 1}, "meeting": {}, "stranger": {"PATCH": 1}, "drifted": {"PATCH": 1}}.get(start, {})
            if policy == "recreate":
                limit = {"absent": {"POST": 1}, "meeting": {}}.get(start, {"DELETE": 1, "POST": 1})
            if last_directed and (start == "meeting" or start.startswith("note")):
                limit = {"PATCH": 1, "DELETE": 1, "POST": 1}
            if policy == "never":
                limit = {"POST": 1} if start == "absent" else {}
            if any(counts[op] > limit.get(op, 0) for op in counts):
                return bad(f"mutations {counts}, at most {limit} expected", deco, start)
    stats.sample({"target": want, "policy": policy})


def has_last(obj):
    if isinstance(obj, dict):
        return krm.AS_LAST in obj or any(has_last(v) for v in obj.values())
    return isinstance(obj, list) and any(has_last(v) for v in obj)
