"""C06: managed object identity is pinned to apiConfig."""
import itertools

from .. import defs, krm, loop
from ..cluster import Cluster
from ..report import THOROUGH

LEVEL = "model_checking"
RULE = ("every assignment of a hostile identity shape to every layer (base, static template, inline overlay, overlay "
        "function, create overlay, inputs) x scope x naming form x cluster situation x update policy; plus every "
        "sequence of up to three definitions of the same kind that differ in apiVersion, plural and scope; every "
        "call and payload is compared with what apiConfig evaluates to")
ASSUMPTIONS = [
    "metadata.namespace in the payload of a cluster-scoped kind is not judged (the property names namespaced kinds).",
    "A definition whose apiConfig gives no plural may use any plural known for exactly that apiVersion and kind.",
]

EVIL = {"apiVersion": "evil.test/v9", "kind": "Evil", "metadata": {
    "name": "evil", "namespace": "evil-ns", "generateName": "evil-", "uid": "evil-uid"}}
EVIL_EXPR = "{'apiVersion': 'evil.test/v9', 'kind': 'Evil', 'metadata': {'name': 'evil', 'namespace': 'evil-ns'}}"

# shape -> the identity related part of a layer
SHAPES = {
    "none": {},
    "nested": EVIL,
    "exprs": {"apiVersion": "=inputs.evil.apiVersion", "kind": "=inputs.evil.kind",
              "metadata": "=inputs.evil.metadata"},
    "parts": {"metadata": {"name": "=inputs.name + 'x'", "namespace": "=inputs.evil.metadata.namespace"}},
    "scalar": {"apiVersion": 7, "kind": ["Evil"], "metadata": "evil"},
    "null": {"apiVersion": None, "kind": None, "metadata": None},
    "hollow": {"apiVersion": {}, "kind": {}, "metadata": {}},
    "hollow2": {"apiVersion": "", "kind": "", "metadata": {"name": {}, "namespace": {}}},
    "list": {"metadata": [{"name": "evil"}], "kind": "=['Evil']"},
    "self": {"metadata": "=has(resource.metadata) ? {'name': resource.metadata.name + '-evil', 'namespace': 'n'} : {}"},
}
LAYERS = ("base", "overlay", "function", "create")
BASES = ("inline", "template")
NAMES = {
    "literal": ("thing", "ns1"), "inputs": ("=inputs.name", "=inputs.ns"), "locals": ("=locals.n", "=locals.ns"),
    "concat": ("='th' + inputs.tail", "='n' + 's1'"), "number": ("=inputs.num", "=inputs.numns"),
}
SITUATIONS = ("absent", "drifted", "recreate", "never", "readonly", "delete", "bystander")


def bounds():
    return {"shapes": list(SHAPES), "layers": LAYERS, "names": list(NAMES), "situations": SITUATIONS,
            "hostile_layers_at_once": 4 if THOROUGH else 2, "definitions_of_one_kind": 3}


def layer_sets():
    names = list(SHAPES)
    if THOROUGH:
        some = [n for n in names if n not in ("hollow2", "list")]
        for combo in itertools.product(some, names, some, names):
            yield dict(zip(LAYERS, combo))
        return
    for a, b in itertools.combinations(LAYERS, 2):
        for x, y in itertools.product(names, repeat=2):
            yield {**dict.fromkeys(LAYERS, "none"), a: x, b: y}
    for x in names:
        yield dict.fromkeys(LAYERS, x)


def cases():
    seen = set()
    for layers in layer_sets():
        key = tuple(layers.values())
        if key in seen:
            continue
        seen.add(key)
        for scope in ("ns", "cluster", "cluster-ns"):
            hostile = sum(v != "none" for v in key)
            yield {"layers": layers, "scope": scope,
                   "names": list(NAMES) if hostile < 2 or len(set(key)) == 1 else ["inputs"]}
    yield from histories()


# --- histories of definitions of one kind --------------------------------------

VARIANTS = [
    {"apiVersion": "v1", "plural": "aas", "namespaced": True},
    {"apiVersion": "g1.test/v1", "plural": "aas", "namespaced": True},
    {"apiVersion": "g2.test/v1", "plural": "bbs", "namespaced": True},
    {"apiVersion": "g1.test/v2", "plural": "aas", "namespaced": True},
    {"apiVersion": "g1.test/v1", "plural": "bbs", "namespaced": True},
    {"apiVersion": "g1.test/v1", "plural": "aas", "namespaced": False},
    {"apiVersion": "g1.test/v1", "plural": None, "namespaced": True},
    {"apiVersion": "v1", "plural": None, "namespaced": True},
    {"apiVersion": "g2.test/v1", "plural": None, "namespaced": True},
    {"apiVersion": "g1.test/v1", "plural": "AAs", "namespaced": True},
    {"apiVersion": "g1.test/v1", "plural": "aas", "namespaced": True, "alias": "plural"},
    {"apiVersion": "g1.test/v1", "plural": "zzs", "namespaced": True, "alias": "lower"},
]


def histories():
    for n in (1, 2, 3):
        for combo in itertools.product(range(len(VARIANTS)), repeat=n):
            if n == 3 and not THOROUGH and len(set(combo)) < 3 and combo[0] != combo[2]:
                continue
            if n == 3 and not THOROUGH and sum(c >= 9 for c in combo) > 1:
                continue
            yield {"history": list(combo)}
    for kind, version, plural in (("Service", "v1", "services"), ("Event", "v1", "events"), ("Pod", "v1", "pods"),
                                  ("Deployment", "apps/v1", "deployments"), ("ConfigMap", "v1", "configmaps")):
        yield {"builtin": kind, "version": version, "plural": plural, "foreign": None}
        yield {"builtin": kind, "version": version, "plural": plural, "foreign": "serving.test/v1"}


_serial = itertools.count()


def kind_spec(kind, variant):
    if variant.get("alias") == "plural":
        kind = f"{kind}s"  # another kind whose name equals the other one's default plural
    if variant.get("alias") == "lower":
        kind = kind.lower()
    cfg = {"apiVersion": variant["apiVersion"], "kind": kind, "name": "thing"}
    if variant["plural"]:
        cfg["plural"] = variant["plural"]
    if variant["namespaced"]:
        cfg["namespace"] = "ns1"
    else:
        cfg["namespaced"] = False
    return {"apiConfig": cfg, "resource": {"spec": {"x": 1}}, "return": {"k": "=resource.kind"}}


def judge(log, cfg, ns, plurals, name="thing", scoped=True):
    """Every call against the identity that apiConfig evaluates to."""
    for call in log:
        if call.op == "LOOKUP":
            continue
        at = f"{call.op} {call.version}/{call.plural} {call.namespace}/{call.name}"
        if call.version != cfg["apiVersion"]:
            return f"{at}: apiVersion {cfg['apiVersion']} is configured"
        if call.plural not in plurals:
            return f"{at}: plural {plurals} is configured"
        if call.namespace != (ns if scoped else None):
            return f"{at}: namespace {ns if scoped else None} is configured"
        if call.op != "POST" and call.name != name:
            return f"{at}: name {name} is configured"
        if call.op in ("POST", "PATCH"):
            if not isinstance(call.payload, dict) or not isinstance(call.payload.get("metadata"), dict):
                return f"{at}: payload is {call.payload!r}"
            md = call.payload["metadata"]
            want = {"apiVersion": cfg["apiVersion"], "kind": cfg["kind"]}
            got = {k: call.payload.get(k) for k in want}
            if krm.strict(got) != krm.strict(want):
                return f"{at}: payload carries {got}, configured {want}"
            if krm.strict(md.get("name")) != krm.strict(name):
                return f"{at}: payload name {md.get('name')!r}, configured {name!r}"
            if scoped and krm.strict(md.get("namespace")) != krm.strict(ns):
                return f"{at}: payload namespace {md.get('namespace')!r}, configured {ns!r}"
    return None


def check_history(stats, case):
    defs.fresh()
    serial = next(_serial)
    kind = f"McDyn{serial}x" if "history" in case else case["builtin"]
    if "history" in case:
        specs = [kind_spec(kind, VARIANTS[i]) for i in case["history"]]
    else:
        own = {"apiVersion": case["version"], "plural": case["plural"], "namespaced": True}
        specs = [kind_spec(kind, own)]
        if case["foreign"]:
            specs = [kind_spec(kind, {**own, "apiVersion": case["foreign"]}), *specs,
                     kind_spec(kind, {**own, "plural": None})]
    looked = {"v1": "lookv1s", "g1.test/v1": "lookg1s", "g2.test/v1": "lookg2s"}
    cluster = Cluster()

    async def lookup(kind_name):
        group = kind_name.partition(".")[2] or "v1"
        return (kind_name, looked.get(group, "others"), True)

    cluster.lookup_kind = lookup
    fns = []
    for i, spec in enumerate(specs):
        fn = loop.run(lambda: defs.offer("ResourceFunction", f"fn{i}", spec))
        fns.append(fn)
    known = {}
    for spec in specs:
        cfg = spec["apiConfig"]
        if cfg.get("plural"):
            known.setdefault((cfg["apiVersion"], cfg["kind"]), set()).add(cfg["plural"].lower())
    # run in the given order, then again in reverse: preparing must not matter later either
    for i in [*range(len(fns)), *reversed(range(len(fns)))]:
        cfg = specs[i]["apiConfig"]
        if defs.outcome_class(fns[i]) != "Ok":
            stats.problem(f"definition {cfg} is refused: {fns[i].message}", case)
            return
        scoped = cfg.get("namespaced", True)
        if cfg.get("plural"):
            plurals = {cfg["plural"].lower(), cfg["plural"]}
        else:
            plurals = {looked.get(cfg["apiVersion"], "others")} | known.get((cfg["apiVersion"], cfg["kind"]), set())
            if "builtin" in case:
                plurals = {case["plural"], looked.get(cfg["apiVersion"], "others")}
        mark = len(cluster.log)
        out, ident = loop.run(lambda: defs.run_rf(cluster, fns[i], {}, owner_ns="ns1" if scoped else None))
        log = cluster.log[mark:]
        stats.step(len(log))
        stats.trace()
        stats.evaluated()
        stats.state([case, i])
        if why := judge(log, cfg, cfg.get("namespace"), plurals, scoped=scoped):
            stats.problem(f"definition {i} of {specs_brief(specs)}: {why}", case)
            return
        if not [c for c in log if c.op == "GET"]:
            stats.problem(f"definition {i} of {specs_brief(specs)} made no call: {defs.outcome(out)}", case)
            return
    stats.sample({"definitions": specs_brief(specs)})


def specs_brief(specs):
    return [{k: v for k, v in s["apiConfig"].items() if k != "name"} for s in specs]


# --- hostile layers --------------------------------------------------------------

async def build(case, base, naming, situation):
    layers = case["layers"]
    scope = case["scope"]
    name, ns = NAMES[naming]
    cfg = {"apiVersion": defs.VERSION, "name": name,
           "kind": defs.CL_KIND if scope != "ns" else defs.NS_KIND,
           "plural": defs.CL_PLURAL if scope != "ns" else defs.NS_PLURAL}
    if scope != "ns":
        cfg["namespaced"] = False
    if scope != "cluster":
        cfg["namespace"] = ns
    if situation == "readonly":
        cfg["readonly"] = True
    if situation == "delete":
        cfg["deleteIfExists"] = True
    spec = {"apiConfig": cfg, "locals": {"n": "='thing'", "ns": "='ns1'"}, "return": {"n": "=resource.metadata.name"}}

    def layer(which, marker):
        shape = SHAPES[layers[which]]
        if layers[which] == "self" and which == "base":
            shape = SHAPES["exprs"]
        return {**shape, "spec": {marker: 1}}

    if base == "inline":
        spec["resource"] = layer("base", "base")
    else:
        shape = dict(SHAPES[layers["base"]])
        shape = {k: v for k, v in shape.items() if not (isinstance(v, str) and v.startswith("="))}
        template = {"apiVersion": defs.VERSION, "kind": cfg["kind"], **shape, "spec": {"base": 1}}
        if not template["apiVersion"] or not template["kind"]:
            template.update(apiVersion="evil.test/v2", kind="Evil2")
        await require(defs.offer("ResourceTemplate", "tpl", {"template": template}))
        spec["resourceTemplateRef"] = {"name": "tpl"}
    await require(defs.offer("ValueFunction", "ovf", {"return": layer("function", "function")}))
    spec["overlays"] = [
        {"overlay": layer("overlay", "overlay")},
        {"overlayRef": {"kind": "ValueFunction", "name": "ovf"},
         "inputs": {"evil": "=inputs.evil", "name": "=inputs.name"}},
    ]
    spec["create"] = {"delay": 1, "overlay": layer("create", "create")}
    spec["update"] = {"recreate": {"delay": 2}} if situation == "recreate" else (
        {"never": {}} if situation == "never" else {"patch": {"delay": 2}})
    return await require(defs.offer("ResourceFunction", "fn", spec)), cfg


async def require(offer):
    got = await offer
    if defs.outcome_class(got) != "Ok":
        raise AssertionError(f"not prepared: {got.message}")
    return got


INPUTS = {"name": "thing", "ns": "ns1", "tail": "ing", "num": 7, "numns": 8, "evil": EVIL,
          "metadata": {"name": "evil"}, "kind": "Evil", "apiVersion": "evil.test/v9", "namespace": "evil-ns",
          "resource": EVIL}


def check(stats, case):
    if "layers" not in case:
        return check_history(stats, case)
    for base in BASES:
        for naming in case["names"]:
            defs.fresh()
            for situation in SITUATIONS:
                if naming != "inputs" and situation not in ("absent", "drifted", "recreate"):
                    continue
                if case["scope"] == "cluster-ns" and situation in ("bystander", "delete") and not THOROUGH:
                    continue
                one(stats, case, base, naming, situation)


def one(stats, case, base, naming, situation):
    scope = case["scope"]
    fn, cfg = loop.run(lambda: build(case, base, naming, situation))
    name = "7" if naming == "number" else "thing"
    ns = None if scope == "cluster" else ("8" if naming == "number" else "ns1")
    scoped = scope == "ns"
    cluster = Cluster()
    plural = cfg["plural"]
    live_ns = ns if scoped else None
    # decoys under every identity the layers try to switch to
    decoys = []
    for dns, dname in ((live_ns, "evil"), ("evil-ns", "evil"), ("evil-ns", name), ("evil-ns" if scoped else None, "evil"),
                       (live_ns, name + "x"), (live_ns, name + "-evil")):
        if not scoped:
            dns = None
        if (dns, dname) == (live_ns, name):
            continue
        obj = {"apiVersion": defs.VERSION, "kind": cfg["kind"], "metadata": {"name": dname}, "spec": {"decoy": 1}}
        if dns:
            obj["metadata"]["namespace"] = dns
        cluster.put(plural, obj, namespace=dns)
        decoys.append((defs.VERSION, plural, dns, dname))
    if situation not in ("absent", "bystander"):
        obj = {"apiVersion": defs.VERSION, "kind": cfg["kind"], "metadata": {"name": name}, "spec": {"old": 1}}
        if live_ns:
            obj["metadata"]["namespace"] = live_ns
        cluster.put(plural, obj, namespace=live_ns)
    before = cluster.snapshot()
    for number in range(3):
        mark = len(cluster.log)
        out, ident = loop.run(lambda: defs.run_rf(cluster, fn, INPUTS, owner_ns=ns))
        log = cluster.log[mark:]
        stats.step(len(log))
        stats.trace()
        stats.evaluated(len(log))
        where = {**case, "base": base, "naming": naming, "situation": situation}
        stats.state([case, base, naming, situation, number])
        if why := judge(log, cfg, ns, {plural}, name=name, scoped=scoped):
            stats.problem(f"{case['layers']} {base} {naming} {situation} {scope}: {why}", case)
            return
        if not log:
            stats.problem(f"{where}: no API call at all: {defs.outcome(out)}", case)
            return
        for key in decoys:
            if cluster.store.get(key) != before[key]:
                stats.problem(f"{where}: changed unrelated object {key}", case)
                return
        if isinstance(ident, dict):
            got = (ident.get("apiVersion"), ident.get("kind"), ident.get("name"), ident.get("namespace"))
            if got != (defs.VERSION, cfg["kind"], name, ns):
                stats.problem(f"{where}: reported identity {got}", case)
                return
    stats.sample({"layers": case["layers"], "scope": scope, "base": base, "naming": naming, "situation": situation})
