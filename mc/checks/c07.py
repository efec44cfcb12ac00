"""C07: management modes bound the API calls a ResourceFunction may make."""
import copy
import itertools

from .. import defs, krm, loop
from ..cluster import Cluster, FaultError, server_error
from ..report import THOROUGH

LEVEL = "model_checking"
RULE = ("complete table of readonly x create.enabled x update policy x deleteIfExists x owned x scope, times every "
        "precondition outcome, base, and answer to each call, over every history of cluster events up to the "
        "length bound (object created, drifted, stripped of owners, deleted by others between passes); every call "
        "of every pass is judged against the mode")
ASSUMPTIONS = ["A failed read (not a 404) leaves existence unknown: only the mode's general limits are judged then."]

FLAG = (None, True, False)
UPDATES = (None, "patch", "recreate", "never")
START = ("absent", "raise", "404", "meets", "drifted", "unowned", "foreign", "terminating")
EVENTS = ("none", "drift", "vanish", "appear", "unown")
ANSWERS = ("ok", "get-500", "get-boom", "mut-409", "mut-500", "mut-404", "mut-boom", "mut-after", "get-hidden")
PRE = {
    "none": None, "pass": [{"assert": "=inputs.yes", "skip": {"message": "m"}}],
    "ok": [{"assert": "=inputs.no", "ok": {}}, {"assert": "=inputs.no", "permFail": {"message": "m"}}],
    "skip": [{"assert": "=inputs.no", "skip": {"message": "m"}}],
    "depSkip": [{"assert": "=inputs.no", "depSkip": {"message": "m"}}],
    "retry": [{"assert": "=inputs.yes", "skip": {"message": "m"}},
              {"assert": "=inputs.no", "retry": {"message": "m", "delay": 5}}],
    "permFail": [{"assert": "=inputs.no", "permFail": {"message": "m"}}],
    "error": [{"assert": "=inputs.missing", "ok": {}}],
    "error2": [{"assert": "=inputs.yes", "skip": {"message": "=1/0 > 1 ? 'a' : 'b'"}},
               {"assert": "=1 / 0 == 1", "skip": {"message": "m"}}],
    "nonbool": [{"assert": "='yes'", "skip": {"message": "m"}}],
    "badmessage": [{"assert": "=inputs.no", "skip": {"message": "=inputs.missing"}}],
}
PASSING = ("none", "pass", "ok")
BASES = ("inline", "template", "missing-template", "error", "bad-overlay", "dropped-overlay")


def bounds():
    return {"modes": sum(1 for _ in modes()), "preconditions": list(PRE), "starts": START, "events": EVENTS,
            "answers": ANSWERS, "bases": BASES, "passes": 5 if THOROUGH else 4,
            "events_per_history": 3 if THOROUGH else 2}


def modes():
    owns = FLAG if THOROUGH else (None, False)
    for ro, ce, up, de, ow, sc in itertools.product(FLAG, FLAG, UPDATES, FLAG, owns, ("ns", "cluster", "lookup")):
        yield {"readonly": ro, "create": ce, "update": up, "delete": de, "owned": ow, "scope": sc}


def cases():
    for mode in modes():
        yield {"mode": mode}


def build_spec(mode, pre, base):
    if mode["scope"] == "lookup":
        cfg = defs.lookup_config()
    else:
        cluster_scoped = mode["scope"] == "cluster"
        cfg = defs.api_config(cluster_scoped=cluster_scoped, **({"namespace": None} if cluster_scoped else {}))
    for flag, field in (("readonly", "readonly"), ("owned", "owned"), ("delete", "deleteIfExists")):
        if mode[flag] is not None:
            cfg[field] = mode[flag]
    spec = {"apiConfig": cfg, "return": {"x": "=resource.spec.x"}}
    if mode["create"] is not None:
        spec["create"] = {"enabled": mode["create"]}
        if mode["create"]:
            spec["create"].update(delay=11, overlay={"spec": {"made": True}})
    if mode["update"]:
        spec["update"] = {mode["update"]: {} if mode["update"] == "never" else {"delay": 12}}
    if PRE[pre]:
        spec["preconditions"] = copy.deepcopy(PRE[pre])
    body = {"spec": {"x": "=inputs.x", "l": ["=inputs.x"]}}
    if base in ("template", "missing-template"):
        spec["resourceTemplateRef"] = {"name": "tpl" if base == "template" else "nope"}
        spec["overlays"] = [{"overlay": body}]
    elif base == "error":
        spec["resource"] = {"spec": {"x": "=inputs.missing"}}
    elif base == "bad-overlay":
        spec["resource"] = body
        spec["overlays"] = [{"overlayRef": {"kind": "ValueFunction", "name": "absent-vf"}}]
    elif base == "dropped-overlay":
        spec["resource"] = body
        spec["overlays"] = [{"overlay": {"spec": {"y": 1}}, "skipIf": "=inputs.yes"}]
    else:
        spec["resource"] = body
    return spec


INPUTS = {"yes": True, "no": False, "x": "v"}


def live(mode, how):
    obj = {"apiVersion": defs.VERSION, "kind": kinds(mode)[0], "metadata": {"name": "thing", "ownerReferences": [defs.owner_ref()]},
           "spec": {"x": "v", "l": ["v"], "server": 1}}
    if mode["scope"] != "cluster":
        obj["metadata"]["namespace"] = "ns1"
    if how in ("drifted", "terminating"):
        obj["spec"]["x"] = "other"
    if how == "terminating":
        obj["metadata"].update(deletionTimestamp="2024-01-02T00:00:00Z", finalizers=["f/x"])
    if how == "unowned":
        del obj["metadata"]["ownerReferences"]
    if how == "foreign":
        obj["metadata"]["ownerReferences"] = [{**defs.owner_ref(), "uid": "else"}]
        obj["spec"] = {}
    return obj


def kinds(mode):
    return {"ns": (defs.NS_KIND, defs.NS_PLURAL), "cluster": (defs.CL_KIND, defs.CL_PLURAL),
            "lookup": (defs.LK_KIND, defs.LK_PLURAL)}[mode["scope"]]


def judge(mode, log, existed, outcome, read_failed):
    """Problem with the calls of one pass, or None. existed: object present when the pass started."""
    ops = [c.op for c in log]
    muts = [o for o in ops if o not in ("GET", "LOOKUP")]
    if len(muts) > 1:
        return f"made several mutating calls {ops}"
    if unknown := [o for o in muts if o not in ("POST", "PATCH", "DELETE")]:
        return f"made {unknown}"
    mut = muts[0] if muts else None
    if mode["delete"]:
        if mut in ("POST", "PATCH"):
            return f"delete-if-exists made a {mut}"
        if mut == "DELETE" and not existed:
            return "deleted although the object was absent"
        if existed == "live" and not mut and not read_failed:
            return "delete-if-exists left the object"
        return None
    if mode["readonly"] and mut:
        return f"readonly made a {mut}"
    if mode["create"] is False and mut == "POST":
        return "created although create is disabled"
    policy = mode["update"] or "patch"
    if existed and mut == "POST":
        return "POST although the object exists"
    if not existed and mut in ("PATCH", "DELETE"):
        return f"{mut} although the object is absent"
    if mut in ("PATCH", "DELETE") and (policy, mut) not in (("patch", "PATCH"), ("recreate", "DELETE")):
        return f"{mut} under policy {policy}"
    if not existed and (mode["readonly"] or mode["create"] is False):
        if outcome["class"] != "Retry":
            return f"waiting for an absent object reported {outcome}"
    return None


def plans():
    """(start, events between passes, answer, pass that gets the answer)"""
    for start in START:
        for events in itertools.product(EVENTS, repeat=3 if THOROUGH else 2):
            if THOROUGH or events[1] == "none" or events[0] != "none":
                yield start, events, "ok", 0
        for answer in ANSWERS[1:]:
            for at in (0, 1):
                yield start, ("none", "none"), answer, at


def check(stats, case):
    mode = case["mode"]
    combos = [(p, "inline") for p in PRE] + [("none", b) for b in BASES[1:]]
    for pre, base in combos:
        defs.fresh()
        if mode["scope"] == "lookup" and not THOROUGH and base not in ("inline", "template"):
            continue
        loop.run(lambda: defs.offer("ResourceTemplate", "tpl", {"template": {
            "apiVersion": "v1", "kind": "Base", "spec": {"base": True}}}))
        fn = loop.run(lambda: defs.offer("ResourceFunction", "fn", build_spec(mode, pre, base)))
        if defs.outcome_class(fn) != "Ok":
            stats.problem(f"{mode} {pre} {base}: refused {fn.message}", case)
            return
        for start, events, answer, at in plans():
            if (pre != "none" or base != "inline") and not THOROUGH:
                # the full histories run for the plain definition
                if events != ("none", "none") or answer not in ("ok", "get-500") or at:
                    continue
            if mode["scope"] != "ns" and not THOROUGH and (answer != "ok" or events[1] != "none"):
                continue
            if mode["owned"] is False and not THOROUGH and at:
                continue
            why = history(stats, mode, fn, pre, base, start, events, answer, at)
            if why:
                stats.problem(f"{mode} preconditions={pre} base={base} start={start} events={events} "
                              f"answer={answer}@{at}: {why}", case)
                return
    stats.sample({"mode": mode})


def history(stats, mode, fn, pre, base, start, events, answer, at):
    kind, plural = kinds(mode)
    ns = None if mode["scope"] == "cluster" else "ns1"
    key = (defs.VERSION, plural, ns, "thing")
    cluster = Cluster()
    cluster.lookups[defs.LK_KIND] = defs.LK_PLURAL
    if start in ("raise", "404"):
        cluster.absent = start
    elif start != "absent":
        cluster.put(plural, live(mode, start), namespace=ns)
    failing = {"on": False, "read": False}

    async def gate(call):
        if not failing["on"]:
            return
        if call.op == "GET" and answer == "get-500":
            failing["read"] = True
            raise server_error(500)
        if call.op == "GET" and answer == "get-boom":
            failing["read"] = True
            raise FaultError("read failed")
        if call.op in ("POST", "PATCH", "DELETE"):
            if answer.startswith("mut-") and answer[4:].isdigit():
                raise server_error(int(answer[4:]))
            if answer == "mut-boom":
                raise FaultError("mutation failed")

    async def gate_after(call):
        if failing["on"] and answer == "mut-after" and call.op in ("POST", "PATCH", "DELETE"):
            raise FaultError("answer lost")

    cluster.gate, cluster.gate_after = gate, gate_after
    for number in range(4 if not THOROUGH else 5):
        event = events[number - 1] if 0 < number <= len(events) else "none"
        stored = cluster.store.get(key)
        if event == "drift" and stored:
            stored["spec"] = {"x": "changed"}
        elif event == "vanish":
            cluster.store.pop(key, None)
        elif event == "appear" and not stored:
            cluster.put(plural, live(mode, "meets"), namespace=ns)
        elif event == "unown" and stored:
            stored["metadata"].pop("ownerReferences", None)
        failing.update(on=number == at, read=False)
        existed = key in cluster.store and (
            "terminating" if "deletionTimestamp" in cluster.store[key]["metadata"] else "live")
        if answer == "get-hidden" and number == at and existed:
            hidden = cluster.store.pop(key)  # created by someone else right after the read
            existed = False
            after = cluster.gate_after

            async def restore(call, hidden=hidden):
                if call.op == "GET":
                    cluster.store[key] = hidden
            cluster.gate_after = restore
        mark = len(cluster.log)
        try:
            out, _ = loop.run(lambda: defs.run_rf(cluster, fn, INPUTS, owner_ns=ns))
            outcome = defs.outcome(out)
        except Exception as err:
            if not (failing["on"] and answer.startswith("mut-")):
                return f"pass {number} raised {err!r}"
            outcome = {"class": "raised"}
        if answer == "get-hidden" and number == at:
            cluster.gate_after = gate_after
        log = cluster.log[mark:]
        stats.step(len(log))
        stats.trace()
        stats.evaluated()
        stats.state([mode, pre, base, start, events, answer, at, number])
        if pre not in PASSING:
            if log:
                return f"pass {number}: preconditions do not pass, yet {[c.op for c in log]} was called"
            if outcome["class"] == "Ok":
                return f"pass {number}: preconditions do not pass, yet the outcome is {outcome}"
            continue
        if not log:
            return f"pass {number}: no call was made: {outcome}"
        if why := judge(mode, log, existed, outcome, failing["read"]):
            return f"pass {number} ({event}): {why}"
    return None
