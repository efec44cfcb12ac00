"""C05 Drift in any target-specified field triggers the configured correction."""
import copy
import itertools

from .. import defs, krm, loop
from ..cluster import Cluster
from ..report import THOROUGH, CodeProblem
from koreo import result as R

LEVEL = "model_checking"
RULE = (
    "for every bounded target (every JSON tree of the grammar below with every "
    "directive placement, plus curated nested ones, delivered inline, through a "
    "ResourceTemplate, an overlay, an overlayRef and as a computed expression) and "
    "every update policy: create the object with the real function, deviate the "
    "stored object at every target-specified path with every candidate value (removed, "
    "retyped, changed, shorter/longer/reordered) - or change the target in the same ways, "
    "below last-applied directives as well - run a pass and compare the recorded "
    "mutations with the policy, then check that a patch restored the target and the "
    "next pass is quiet. The expectation comes from an independent recursive oracle "
    "(three-valued: combinations the property does not settle are not judged). A state "
    "is a distinct (target, live object, policy); a transition is one API call."
)
ASSUMPTIONS = [
    "API server stores what it is sent (RFC 7386 merge patch)",
    "not judged: explicit nulls in the target, extra members of map-directed lists, "
    "repeated set members, fields compared against last-applied, ownerReferences",
]

POLICIES = {
    "patch": {"patch": {"delay": 41}},
    "recreate": {"recreate": {"delay": 43}},
    "never": {"never": {}},
    "default": None,
}


def bounds():
    return {"grammar_targets": len(list(grammar())), "curated_targets": len(CURATED),
            "candidates_per_path": len(krm.CANDIDATES), "policies": list(POLICIES)}


LEAVES = [0, 1, True, False, "", "a", "1", 1.5]


def grammar():
    """Values of spec.f with a directive; every container shape up to two levels."""
    for v in LEAVES:
        yield {"f": v}
    small = [0, 1, True, False, "", "a"] if THOROUGH else [0, True, "", "a"]
    lists = [[]] + [[v] for v in LEAVES] + [list(p) for p in itertools.product(small, repeat=2)]
    lists += [["a", "b", "c"], [1, True, "1"]]
    for v in lists:
        yield {"f": v}
        yield {"f": v, krm.AS_SET: ["f"]}
        if len(v) < 2:
            yield {"f": v, krm.AS_MAP: {"f": ["name"]}}
    dicts = [{}] + [{"x": v} for v in LEAVES] + [{"x": 0, "y": "a"}, {"x": {"y": False}}, {"x": {}}]
    for v in dicts:
        yield {"f": v}
        yield {"f": [v]}
        yield {"f": [v, 1]}
        yield {"f": [v], krm.AS_SET: ["f"]}
        yield {"f": {"g": [[v], []]}}
        yield {"f": {"x": v, krm.AS_LAST: ["x"], "z": 1}}
    for key in LEAVES:
        yield {"f": [{"name": key, "v": 1}], krm.AS_MAP: {"f": ["name"]}}
        yield {"f": [{"name": key, "v": 1}, {"name": "zz", "v": ["a"]}], krm.AS_MAP: {"f": ["name"]}}
    for a, b in itertools.product(["a", "b$c", "a$b", ""], repeat=2):
        yield {"f": [{"k": a, "p": b, "v": 1}, {"k": b, "p": a, "v": 2}], krm.AS_MAP: {"f": ["k", "p"]}}


CURATED = [
    {"f": [{"name": "ownerReferences", "v": 1}, {"name": "b", "v": {"d": 2}}], krm.AS_MAP: {"f": ["name"]}},
    {"f": [{"name": "x-koreo-compare-as-set", "v": ["f"]}, {"name": "b"}], krm.AS_MAP: {"f": ["name"]}},
    {"f": [{"name": "a", "tags": ["x", "y"], krm.AS_SET: ["tags"], "sub": [{"id": 1, "on": True}],
            krm.AS_MAP: {"sub": ["id"]}}, {"name": "b", "tags": []}], krm.AS_MAP: {"f": ["name"]}},
    {"f": [[1, [2, {"x": 0}]], {"y": [False]}], "g": {"h": {"i": {"j": [{"k": ""}]}}}},
    {"tags": ["a", 1, True], "ids": [1, 2], krm.AS_SET: ["tags", "ids"], "name": "n"},
    {"ports": [{"port": 80, "proto": "TCP"}, {"port": 80, "proto": "UDP"}], krm.AS_MAP: {"ports": ["port", "proto"]}},
    {"f": {"a": 1}, "last": {"b": [1, {"c": 2}]}, krm.AS_LAST: ["last"], "g": [1]},
    {"f": {"a.b/c": "d", "": "e", "0": 0}, "g": {"true": True}},
    {"both": [1, 2], krm.AS_SET: ["both", "absent"], krm.AS_MAP: {"nothere": ["name"]}, krm.AS_LAST: ["neither"]},
    {"f": [{"n": {"deep": 1}, "v": 1}, {"n": {"deep": 2}, "v": 2}], krm.AS_MAP: {"f": ["n"]}},
    {"f": [{"v": 1}, {"v": 2}], krm.AS_MAP: {"f": ["name"]}},
    {"f": [{"name": "a", "v": 1}, {"name": "a", "v": 2}], krm.AS_MAP: {"f": ["name"]}},
    # last-applied comparison below lists
    {"f": [{"name": "a", krm.AS_LAST: ["s"], "s": {"x": 1}}, {"name": "b", "v": 1}], krm.AS_MAP: {"f": ["name"]}},
    {"f": [{krm.AS_LAST: ["s"], "s": [1, {"y": ""}], "t": 0}]},
    {"f": {"g": {krm.AS_LAST: ["l"], krm.AS_SET: ["l"], "l": [2, 1], "n": "a"}}},
    {"f": {krm.AS_LAST: ["l"], krm.AS_MAP: {"l": ["k"]}, "l": [{"k": 1, krm.AS_LAST: ["v"], "v": [1]}]}, "g": 1},
]

# what other actors may have left in the last-applied annotation
NOTES = [None, "", "null", "[]", "{}", "0", '"text"', "{broken", '{"spec": "text"}', '{"spec": []}',
         '{"spec": {"f": "text", "g": 3, "tags": {}, "ports": [1]}}', '{"spec": {"f": [1, "a"], "last": 5}}',
         '{"spec": {"f": {"0": 1}}, "metadata": []}', '{"spec": {"f": [{"name": 1}, null]}}']

DELIVERIES = ("expr", "inline", "template", "overlay", "overlayRef", "mixed")


def cases():
    for spec in grammar():
        for policy in ("patch", "recreate", "never") if THOROUGH else ("patch",):
            yield {"spec": spec, "policy": policy, "delivery": "expr"}
    for spec in CURATED:
        for policy in POLICIES:
            yield {"spec": spec, "policy": policy, "delivery": "expr"}
        for delivery in DELIVERIES:
            yield {"spec": spec, "policy": "patch", "delivery": delivery}
    if not THOROUGH:
        for i, spec in enumerate(grammar()):
            yield {"spec": spec, "policy": ("recreate", "never", "default")[i % 3],
                   "delivery": "expr", "few": True}
    for spec in CURATED + [{"f": {"x": {"y": [0, {"z": True}]}}}]:
        for note in range(len(NOTES)):
            yield {"spec": spec, "policy": "patch", "delivery": "expr", "note": note, "few": not THOROUGH}
    # ownership and server bookkeeping must not change what drift leads to
    for i, spec in enumerate(CURATED):
        for policy in POLICIES:
            for who in SURROUNDINGS:
                yield {"spec": spec, "policy": policy, "delivery": DELIVERIES[i % 6], "around": who,
                       "few": not THOROUGH}
    # the target moves away from what was applied
    for i, spec in enumerate(itertools.chain(CURATED, grammar())):
        for policy in POLICIES if i < len(CURATED) else ("patch", "recreate", "never")[i % 3:][:1]:
            yield {"spec": spec, "policy": policy, "delivery": ("expr", "overlay")[i % 2], "change": True,
                   "few": not THOROUGH and i >= len(CURATED)}
    meta = {"labels": {"a": "b", "c": ""}, "annotations": {"x": "y"}, "finalizers": ["f1"]}
    for policy in POLICIES:
        yield {"spec": {"f": 1}, "metadata": meta, "policy": policy, "delivery": "expr"}
        yield {"spec": {"f": 1}, "root": {"data": {"k": "v"}, "type": "T", "immutable": False, "items": [1]},
               "policy": policy, "delivery": "inline"}
        yield {"spec": {"f": 1}, "policy": policy, "delivery": "expr", "scope": "cluster"}


OTHERS = [{"apiVersion": "v1", "kind": "Other", "name": "o", "uid": "u-other", "controller": True}]


def around(live, who):
    """What the live object also carries, next to the drift."""
    md = live["metadata"]
    if who in ("ownerless", "adopted", "twin"):
        md.pop("ownerReferences", None)
    if who == "adopted":
        md["ownerReferences"] = copy.deepcopy(OTHERS)
    if who == "twin":
        md["ownerReferences"] = [{**defs.owner_ref(), "uid": "former-owner"}]
    if who == "shared":
        md["ownerReferences"] = copy.deepcopy(OTHERS) + md.get("ownerReferences", [])
    if who in ("served", "terminating"):
        md.update({"generation": 7, "resourceVersion": "31", "creationTimestamp": "2024-01-01T00:00:00Z",
                   "managedFields": [{"manager": "koreo", "fieldsV1": {"f:spec": {}}}]})
        live["status"] = {"phase": "Ready", "conditions": [{"type": "Ready", "status": "True"}]}
        live["spec"]["serverAdded"] = "x" * 400
    if who == "terminating":
        md.update({"deletionTimestamp": "2024-01-02T00:00:00Z", "finalizers": ["f/x"]})
    return live


SURROUNDINGS = ("ownerless", "adopted", "twin", "shared", "served", "terminating")


def static(value):
    """A static value as written in a definition."""
    return value


async def build(case):
    """-> (ResourceFunction, inputs, full target)"""
    cluster_scoped = case.get("scope") == "cluster"
    target = {"spec": case["spec"], **case.get("root", {})}
    if case.get("metadata"):
        target["metadata"] = case["metadata"]
    cfg = defs.api_config(cluster_scoped=cluster_scoped, **({"namespace": None} if cluster_scoped else {}))
    spec = {"apiConfig": cfg, "return": {"seen": "=resource.metadata.name"},
            "create": {"enabled": True, "delay": 40}}
    if POLICIES[case["policy"]]:
        spec["update"] = POLICIES[case["policy"]]
    inputs = {"t": target, "spec": case["spec"]}
    d = case["delivery"]
    if d == "expr":
        spec["resource"] = {k: f"=inputs.t.{k}" for k in target}
    elif d == "inline":
        spec["resource"] = static(target)
    elif d == "template":
        await offer("ResourceTemplate", "tpl", {"template": {
            "apiVersion": defs.VERSION, "kind": defs.NS_KIND, **target}})
        spec["resourceTemplateRef"] = {"name": "tpl"}
    elif d == "overlay":
        spec["resource"] = {"spec": {"f": "other", "stale": 1}}
        target = krm.deep_merge(spec["resource"], target)
        spec["overlays"] = [{"overlay": {"spec": {k: f"=inputs.spec['{k}']" for k in case["spec"]}}}]
        target["spec"].update(case["spec"])
    elif d == "overlayRef":
        await offer("ValueFunction", "ovf", {"return": {"spec": {
            k: f"=inputs.spec['{k}']" for k in case["spec"]}}})
        spec["resource"] = {"spec": {"stale": [1]}}
        target = {"spec": {"stale": [1], **case["spec"]}}
        spec["overlays"] = [{"overlayRef": {"kind": "ValueFunction", "name": "ovf"},
                             "inputs": {"spec": "=inputs.spec"}}]
    elif d == "mixed":
        await offer("ResourceTemplate", "tpl", {"template": {
            "apiVersion": defs.VERSION, "kind": defs.NS_KIND, "spec": case["spec"]}})
        spec["resourceTemplateRef"] = {"name": "='t' + 'pl'"}
        spec["overlays"] = [{"overlay": {"spec": {"extra": {"n": "=size(inputs.spec)"}}}}]
        target = {"spec": {**case["spec"], "extra": {"n": len(case["spec"])}}}
    full = krm.deep_merge(target, krm.forced(
        namespace=None if cluster_scoped else "ns1",
        kind=defs.CL_KIND if cluster_scoped else defs.NS_KIND))
    fn = await offer("ResourceFunction", "fn", spec)
    return fn, inputs, full


async def offer(kind, name, spec):
    got = await defs.offer(kind, name, spec)
    if not R.is_unwrapped_ok(got):
        raise CodeProblem(f"valid {kind} rejected: {got}")
    return got


def frozen(full):
    """Paths the check never deviates: identity and what kr8s itself needs."""
    fixed = {("apiVersion",), ("kind",), ("metadata",), ("metadata", "name"), ("metadata", "namespace")}
    return fixed


def change(stats, case, cluster, key, base, full, run, inputs, bad):
    """Every one-step change of the target, the live object being as it was applied."""
    only, i = case.get("deviation"), -1
    for path in krm.paths(krm.without_last(case["spec"])):
        values = krm.deviations(krm.get(case["spec"], path))
        for value in values[::3] if case.get("few") else values:
            i += 1
            if only is not None and i != only:
                continue
            if isinstance(value, dict) and krm.DIRECTIVES & set(value):
                continue  # would be another (malformed) directive
            spec = krm.put(case["spec"], path, value)
            if case["delivery"] != "expr" and len(path) == 1 and value is krm.MISSING:
                continue
            target = {**full, "spec": {**full["spec"], **spec}}
            if value is krm.MISSING and len(path) == 1:
                continue
            verdict = krm.meets(krm.without_last(target), base)
            if verdict is None:
                continue
            cluster.store[key] = copy.deepcopy(base)
            inputs["spec"] = spec
            inputs["t"] = {**inputs["t"], "spec": spec}
            out, muts = run()
            stats.trace()
            stats.state([full, target, case["policy"], "change"])
            got = [m.op for m in muts]
            what = (f"policy {case['policy']}: target {'.'.join(map(str, path))} became "
                    f"{'absent' if value is krm.MISSING else repr(value)}, live {krm.get(case['spec'], path)!r}")
            policy = case["policy"]
            expect = [] if verdict or policy == "never" else ["DELETE" if policy == "recreate" else "PATCH"]
            delay = {"patch": 41, "recreate": 43}.get(policy) if expect else None
            if got != expect or out["class"] != ("Retry" if expect else "Ok") or (
                    delay is not None and out["delay"] != delay):
                bad(f"{what}: expected {expect}, got {got} {out}", deviation=i)
            elif expect == ["PATCH"]:
                sent = krm.body(muts[0].payload)
                sent["metadata"].pop("ownerReferences", None)
                if krm.strict(sent) != krm.strict(krm.body(krm.strip(target))):
                    bad(f"{what}: patch carries {sent}, full target is {target}", deviation=i)
                    continue
                out, muts = run()
                if muts or out["class"] != "Ok":
                    bad(f"{what}: not stable after the patch: {[m.op for m in muts]} {out}", deviation=i)
    stats.sample({"target": full, "policy": case["policy"], "changes": i + 1})


def check(stats, case):
    defs.fresh()
    fn, inputs, full = loop.run(lambda: build(case))
    scope = case.get("scope") == "cluster"
    plural = defs.CL_PLURAL if scope else defs.NS_PLURAL
    key = (defs.VERSION, plural, None if scope else "ns1", "thing")
    cluster = Cluster()

    def run():
        mark = len(cluster.log)
        out, _ = loop.run(lambda: defs.run_rf(cluster, fn, inputs))
        stats.step(len(cluster.log) - mark)
        return defs.outcome(out), [c for c in cluster.log[mark:] if c.op in ("POST", "PATCH", "DELETE")]

    def bad(message, **extra):
        stats.problem(message, {**case, **extra})

    out, muts = run()
    if [m.op for m in muts] != ["POST"] or out["class"] != "Retry" or out["delay"] != 40:
        return bad(f"creating gave {out} with {[m.op for m in muts]}")
    base = cluster.snapshot()[key]
    if krm.meets(full, base) is False:
        return bad(f"created object does not meet the target {full}: {base}")
    if "note" in case:
        notes = base["metadata"].setdefault("annotations", {})
        notes.pop(krm.LA, None)
        if NOTES[case["note"]] is not None:
            notes[krm.LA] = NOTES[case["note"]]
    if case.get("around"):
        base = around(copy.deepcopy(base), case["around"])
    if case.get("change"):
        return change(stats, case, cluster, key, base, full, run, inputs, bad)
    wanted = krm.strip(full)
    fixed = frozen(full)
    only = case.get("deviation")
    todo = []
    for path in krm.paths(full):
        if path in fixed:
            continue
        values = krm.deviations(krm.get(base, path))
        if case.get("few"):
            values = values[::3]
        for value in values:
            if path == ("metadata", "annotations") and not (
                    value is krm.MISSING or value is None or isinstance(value, dict)):
                continue
            todo.append((path, value))
    for i, (path, value) in enumerate(todo):
        if only is not None and i != only:
            continue
        live = krm.put(base, path, value)
        verdict = krm.meets(full, live)
        if verdict is None:
            continue
        cluster.store[key] = live
        out, muts = run()
        stats.trace()
        stats.state([full, live, case["policy"]])
        shown = "removed" if value is krm.MISSING else repr(value)
        what = f"policy {case['policy']}: {'.'.join(map(str, path))} {shown} (target {krm.get(full, path)!r})"
        got = [m.op for m in muts]
        if verdict and case.get("around") in ("ownerless", "adopted", "twin"):
            continue  # taking ownership is C04's and C08's
        if verdict:
            if muts or out["class"] != "Ok":
                bad(f"{what}: object still meets the target, but {got} {out}", deviation=i)
            continue
        policy = case["policy"]
        if policy == "never":
            if muts or out["class"] != "Ok":
                bad(f"{what}: expected no action, got {got} {out}", deviation=i)
            continue
        expect, delay = (("DELETE", 43) if policy == "recreate" else
                         ("PATCH", 41 if policy == "patch" else None))
        if got != [expect]:
            bad(f"{what}: expected one {expect}, got {got} {out}", deviation=i)
            continue
        if out["class"] != "Retry" or (delay is not None and out["delay"] != delay):
            bad(f"{what}: {expect} reported {out}", deviation=i)
            continue
        if expect == "PATCH":
            sent = krm.body(muts[0].payload)
            sent["metadata"].pop("ownerReferences", None)
            sent_wanted = krm.body(wanted)
            if krm.strict(sent) != krm.strict(sent_wanted):
                bad(f"{what}: patch carries {sent}, full target is {sent_wanted}", deviation=i)
                continue
            if krm.meets(full, cluster.store[key]) is False:
                bad(f"{what}: object does not meet the target after the patch: {cluster.store[key]}", deviation=i)
                continue
            if not case.get("few"):
                out, muts = run()
                if muts or out["class"] != "Ok":
                    bad(f"{what}: not stable after the patch: {[m.op for m in muts]} {out}", deviation=i)
        elif key in cluster.store:
            bad(f"{what}: object still exists after the delete", deviation=i)
    stats.sample({"target": full, "policy": case["policy"], "deviations": len(todo)})
