"""C08 Payloads are clean: no directives, truthful last-applied, owners preserved."""
import copy
import itertools

from .. import defs, krm, loop
from ..cluster import Cluster
from ..report import THOROUGH, CodeProblem
from . import c05
from koreo import result as R

LEVEL = "model_checking"
RULE = (
    "every POST/PATCH payload of every bounded history is audited: target trees with "
    "directives placed at every mapping (inside maps, list items, nested lists, "
    "metadata, root; from inline resources, templates, overlays, overlayRefs, computed "
    "expressions, create overlays) x every pre-existing ownerReferences list (none, "
    "empty, foreign, ours, several, duplicates of the target's own) x owning/not x "
    "owner namespace equal/different/empty x namespaced/cluster-scoped x update policy "
    "x foreign last-applied annotations; and every sequence of passes of one function for "
    "several parents, namespaces, names and inputs. Oracle: no directive key at any depth; the "
    "annotation parses (no duplicate keys) to exactly the object sent without it, type "
    "for type; owner reference on create and on patch iff owning and same namespace; "
    "no live owner reference missing after a patch. A state is a distinct (target, "
    "live object, ownership) configuration, a transition one API call."
)
ASSUMPTIONS = [
    "an annotations map left empty by removing Koreo's annotation counts as absent or empty",
    "cluster-scoped object with an owner without namespace: ownership not judged",
]


def bounds():
    return {"targets": len(list(targets())), "owner_lists": len(OWNERS), "policies": list(c05.POLICIES)}


def directive_trees():
    """Directives at every mapping of nested shapes."""
    sets = {krm.AS_SET: ["tags"], "tags": ["a", "b"]}
    maps = {krm.AS_MAP: {"items": ["name"]}, "items": [{"name": "a", "v": 1}]}
    last = {krm.AS_LAST: ["secret"], "secret": {"s": 1}}
    alln = {**sets, **maps, **last}
    for d in (sets, maps, last, alln):
        yield {"spec": d}
        yield {"spec": {"in": d}}
        yield {"spec": {"list": [d, {"x": d}]}}
        yield {"spec": {"deep": [[d], {"y": [[{"z": d}]]}]}}
        yield {"spec": {"x": 1}, "data": d}
        yield {"spec": {"x": 1}, "metadata": {"labels": {"a": "b"}, "note": d}}
        yield {"spec": {"x": 1}, **d}
        yield {"spec": {**d, "again": {**d, "again": [d]}}}
    yield {"spec": {krm.AS_MAP: {"items": ["name"]},
                    "items": [{"name": "a", **sets}, {"name": "b", **maps}, {"name": "c", **last}]}}
    # the names of directives are ordinary strings as values
    yield {"spec": {"words": [krm.AS_SET, krm.AS_MAP], "k": krm.AS_LAST}}
    yield {"spec": {krm.AS_SET: [], krm.AS_MAP: {}, krm.AS_LAST: []}}


PLAIN = [
    {"spec": {"x": [True, 1, 1.5, "é\u2028\"q\"", "", {}, []]}},
    {"spec": {"n": None, "m": {"k": None}, "l": [None]}},
    {"spec": {"x": 1}, "metadata": {"annotations": {"a": "b"}}},
    {"spec": {"x": 1}, "metadata": {"annotations": {}}},
    {"spec": {"x": 1}, "metadata": {"annotations": {krm.LA: "forged"}}},
    {"spec": {"x": 1}, "metadata": {"annotations": {krm.LA: "{}", "a": "b"}}},
    {"spec": {"x": 1}, "metadata": {"annotations": None}},
    {"spec": {"x": 1}, "metadata": {"ownerReferences": []}},
    {"spec": {"x": 1}, "metadata": {"ownerReferences": None}},
    {"spec": {"x": 1}, "metadata": {"ownerReferences": [
        {"apiVersion": "v1", "kind": "K", "name": "t", "uid": "u-target"}]}},
    {"spec": {"x": 1}, "metadata": {"ownerReferences": [
        {"apiVersion": "v1", "kind": "K", "name": "a", "uid": "u-a"},
        {"apiVersion": "v1", "kind": "K", "name": "t", "uid": "u-target"}]}},
]
TYPED = ["={1: 'a', 2: [2u]}", "={true: 'a'}", "=timestamp('2024-01-01T00:00:00Z')", "=duration('5m')", "=b'x'", "=2.0",
         "={'%s': ['tags'], 'tags': ['b', 'a']}" % krm.AS_SET,
         "=[{'%s': {'i': ['n']}, 'i': [{'n': 1, '%s': ['n']}]}]" % (krm.AS_MAP, krm.AS_LAST)]


def targets():
    yield from directive_trees()
    yield from PLAIN


def ref(uid, **extra):
    return {"apiVersion": "v1", "kind": "K", "name": uid[2:], "uid": uid, **extra}


OWNERS = [
    "absent", [], [ref("u-a")], [ref("u-a"), ref("u-b", controller=True)],
    [defs.owner_ref()], [ref("u-a"), defs.owner_ref(), ref("u-b")],
    [ref("u-target", blockOwnerDeletion=True)], [ref("u-b"), ref("u-target")],
    [ref("u-a"), ref("u-a", controller=True)],
    [{**defs.owner_ref(), "uid": "u-former"}], [{**defs.owner_ref(), "name": "u-other"}, ref("u-a")],
    [{**defs.owner_ref(), "uid": "u-former"}, defs.owner_ref()],
]
NS = [(s, o, ns) for s in ("ns", "cluster") for o in (True, False, None) for ns in ("ns1", "ns2", "", None)]


def cases():
    everything = list(targets())
    for target in everything:
        for delivery in ("inline", "template", "expr", "overlay", "create"):
            for scope, owned, owner_ns in NS:
                if delivery != "expr" and (owned is None or owner_ns in ("", None)) and not THOROUGH:
                    continue
                yield {"target": target, "delivery": delivery, "scope": scope, "owned": owned,
                       "owner_ns": owner_ns}
    for prefix in itertools.product(PASSES, repeat=2 if THOROUGH else 1):
        yield {"passes": [list(x) for x in prefix]}
    for value in TYPED:
        for where in ("spec", "overlay", "create", "vf"):
            yield {"typed": value, "delivery": where, "scope": "ns", "owned": True, "owner_ns": "ns1"}


# one function used for several parents, objects and inputs in turn
PARENTS = {"a": ("ns1", {**defs.owner_ref(), "uid": "u-pa", "name": "pa"}),
           "b": ("ns1", {**defs.owner_ref(), "uid": "u-pb", "name": "pb"}),
           "c": ("ns2", {**defs.owner_ref(), "uid": "u-pc", "name": "pc", "kind": "Elsewhere"})}
PASSES = [(p, ns, n, v) for p in PARENTS for ns in ("ns1", "ns2") for n in ("x", "y") for v in (1, 2)]


async def shared(stats, case):
    fn = await c05.offer("ResourceFunction", "fn", {
        "apiConfig": defs.api_config(name="=inputs.n", namespace="=inputs.ns"),
        "resource": {"spec": {"fixed": {"l": [1, {"k": "v"}], krm.AS_SET: ["l"]}}},
        "overlays": [{"overlay": {"spec": {"v": "=inputs.v"}}}],
        "create": {"delay": 5, "overlay": {"spec": {"made": "=inputs.v"}}},
        "return": {"n": "=resource.metadata.name"}})
    prefix = [tuple(x) for x in case["passes"]]
    for tail in itertools.product(PASSES, repeat=max(0, (4 if THOROUGH else 3) - len(prefix))):
        passes = [*prefix, *tail]
        cluster, model = Cluster(), {}

        def bad(message):
            stats.problem(f"{passes}: {message}", {**case, "passes": passes})

        for i, (parent, ns, name, v) in enumerate(passes):
            owner_ns, owner = PARENTS[parent]
            mark = len(cluster.log)
            out, _ = await defs.run_rf(cluster, fn, {"n": name, "ns": ns, "v": v}, owner_ns=owner_ns,
                                       owner=copy.deepcopy(owner))
            stats.step(len(cluster.log) - mark)
            muts = [c for c in cluster.log[mark:] if c.op in ("POST", "PATCH", "DELETE")]
            had = model.get((ns, name))
            wants = {owner["uid"]} if owner_ns == ns else set()
            if had is None:
                expect, refs = "POST", wants
            else:
                refs = had[1] | wants
                expect = "PATCH" if had[0] != v or refs != had[1] else None
            got = [m.op for m in muts]
            if got != ([expect] if expect else []):
                return bad(f"pass {i + 1} made {got}, expected {expect}: {defs.outcome(out)}")
            if not expect:
                continue
            call = muts[0]
            stats.evaluated()
            if why := krm.audit(call):
                return bad(f"pass {i + 1}: {why}")
            if (call.name, call.namespace) != (name, ns) and (expect, call.namespace) != ("POST", ns):
                return bad(f"pass {i + 1}: addressed to {call.namespace}/{call.name}")
            live = cluster.store.get((defs.VERSION, defs.NS_PLURAL, ns, name))
            if live is None or live["spec"]["v"] != v or (expect == "POST" and live["spec"]["made"] != v):
                return bad(f"pass {i + 1}: the object is {live}")
            owners = live["metadata"].get("ownerReferences") or []
            if sorted(r["uid"] for r in owners) != sorted(refs):
                return bad(f"pass {i + 1}: owners are {owners}, should be {sorted(refs)}")
            for r in owners:
                if r not in [o for _, o in PARENTS.values()]:
                    return bad(f"pass {i + 1}: altered owner reference {r}")
            model[(ns, name)] = (v, refs)
        stats.trace()
        stats.state(sorted((k, m[0], sorted(m[1])) for k, m in model.items()))


async def build(case):
    cluster_scoped = case["scope"] == "cluster"
    cfg = defs.api_config(cluster_scoped=cluster_scoped, **({"namespace": None} if cluster_scoped else {}))
    if case["owned"] is not None:
        cfg["owned"] = case["owned"]
    spec = {"apiConfig": cfg, "create": {"delay": 5}, "update": {"patch": {"delay": 6}},
            "return": {"n": "=resource.metadata.name"}}
    d = case["delivery"]
    if "typed" in case:
        v = case["typed"]
        spec["resource"] = {"spec": {"f": v if d == "spec" else 1}}
        if d == "overlay":
            spec["overlays"] = [{"overlay": {"spec": {"g": v}}}, {"overlay": {"spec": {"h": 1}}}]
        if d == "create":
            spec["create"]["overlay"] = {"spec": {"g": v}}
        if d == "vf":
            await c05.offer("ValueFunction", "ovf", {"locals": {"v": v}, "return": {"spec": {"g": "=locals.v"}}})
            spec["overlays"] = [{"overlayRef": {"kind": "ValueFunction", "name": "ovf"}}]
        return await c05.offer("ResourceFunction", "fn", spec), {}
    target = case["target"]
    if d == "inline":
        spec["resource"] = target
    elif d == "expr":
        spec["resource"] = {k: f"=inputs.t['{k}']" for k in target}
    elif d == "template":
        await c05.offer("ResourceTemplate", "tpl", {"template": {
            "apiVersion": defs.VERSION, "kind": defs.NS_KIND, **target}})
        spec["resourceTemplateRef"] = {"name": "tpl"}
    elif d == "overlay":
        spec["resource"] = {"spec": {"base": 1}}
        spec["overlays"] = [{"overlay": target}, {"overlay": {"spec": {"late": True}}}]
    elif d == "create":
        spec["resource"] = {"spec": {"base": 1}}
        spec["create"]["overlay"] = target
    return await c05.offer("ResourceFunction", "fn", spec), {"t": target}


def check(stats, case):
    defs.fresh()
    if "passes" in case:
        loop.run(lambda: shared(stats, case), max_turns=10**9)
        return
    fn, inputs = loop.run(lambda: build(case))
    cluster_scoped = case["scope"] == "cluster"
    plural = defs.CL_PLURAL if cluster_scoped else defs.NS_PLURAL
    ns = None if cluster_scoped else "ns1"
    key = (defs.VERSION, plural, ns, "thing")
    owning = case["owned"] is not False and case["owner_ns"] == ns
    judged = not (cluster_scoped and not case["owner_ns"])

    def one(cluster):
        mark = len(cluster.log)
        out, _ = loop.run(lambda: defs.run_rf(cluster, fn, inputs, owner_ns=case["owner_ns"]))
        stats.step(len(cluster.log) - mark)
        stats.trace()
        return defs.outcome(out), [c for c in cluster.log[mark:] if c.op in ("POST", "PATCH", "DELETE")]

    def refs(obj):
        return obj["metadata"].get("ownerReferences") or []

    def bad(message, **extra):
        stats.problem(message, {**case, **extra})

    cluster = Cluster()
    out, muts = one(cluster)
    if [m.op for m in muts] != ["POST"]:
        return bad(f"creating made {[m.op for m in muts]}: {out}")
    post = muts[0]
    stats.evaluated()
    if why := krm.audit(post):
        return bad(f"create: {why}")
    mine = [r for r in refs(post.payload) if r.get("uid") == defs.OWNER_UID]
    if judged and (len(mine) != 1 if owning else mine):
        return bad(f"create: owning={owning} but payload owners are {refs(post.payload)}")
    if mine and mine[0] != defs.owner_ref():
        return bad(f"create: owner reference altered: {mine[0]}")
    asked = (case.get("target") or {}).get("metadata", {}).get("ownerReferences") or []
    if [r for r in asked if r not in refs(post.payload)]:
        return bad(f"create: target's own references missing: {refs(post.payload)}")
    base = cluster.snapshot()[key]
    for i, owners in enumerate(OWNERS):
        for drift in ("field", "none", "note"):
            if case.get("owners", i) != i or case.get("drift", drift) != drift:
                continue
            live = copy.deepcopy(base)
            live["metadata"].pop("ownerReferences", None)
            if owners != "absent":
                live["metadata"]["ownerReferences"] = copy.deepcopy(owners)
            if drift != "none":
                for k in list(live["spec"]) if isinstance(live.get("spec"), dict) else ():
                    del live["spec"][k]
            if drift == "note":
                live["metadata"]["annotations"] = {krm.LA: '{"spec": {"words": 1}}', "kept": "yes"}
            cluster = Cluster()
            cluster.put(plural, live, namespace=ns)
            had = refs(live)
            out, muts = one(cluster)
            stats.state([case.get("target") or case.get("typed"), case["delivery"], live, case["owned"],
                         case["owner_ns"]])
            who = dict(owners=i, drift=drift)
            for call in muts:
                stats.evaluated()
                if why := krm.audit(call):
                    bad(f"{call.op}: {why}", **who)
                    return
                if call.op == "DELETE":
                    bad("patch policy deleted the object", **who)
                    return
            needs = owning and judged and not any(r.get("uid") == defs.OWNER_UID for r in had)
            if needs and not muts:
                bad(f"live object lacks the owner reference, but no patch was made ({out})", **who)
                return
            if not muts:
                continue
            after = refs(cluster.store[key])
            lost = [r for r in had if r not in after]
            if lost:
                bad(f"patch dropped live owner references {lost}: {had} -> {after}", **who)
                return
            ours = [r for r in after if r.get("uid") == defs.OWNER_UID]
            before = [r for r in had if r.get("uid") == defs.OWNER_UID]
            if needs and ours != [defs.owner_ref()]:
                bad(f"patch did not add the owner reference: {after}", **who)
                return
            if judged and not owning and len(ours) > len(before):
                bad(f"patch added an owner reference although not owning: {after}", **who)
                return
            if len(ours) > max(1, len(before)):
                bad(f"owner reference duplicated: {after}", **who)
                return
    stats.sample({"target": case.get("target") or case.get("typed"), "delivery": case["delivery"],
                  "owning": owning})
