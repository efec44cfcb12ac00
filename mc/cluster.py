"""In-memory Kubernetes API: the environment model the real code runs against.

Real kr8s APIObject classes sit on top of it; only ``kr8s.Api`` is replaced.
Every call is logged; calls may park on a scheduler, fault before or after
taking effect, hang, or answer an HTTP error.
"""
import copy
import json
from contextlib import asynccontextmanager
from typing import NamedTuple

import kr8s


def plain(value):
    """Deep copy into plain JSON containers (drops Box)."""
    if isinstance(value, dict):
        return {k: plain(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    return value


def merge_patch(target, patch):
    """RFC 7386."""
    if not isinstance(patch, dict):
        return copy.deepcopy(patch)
    result = copy.deepcopy(target) if isinstance(target, dict) else {}
    for key, value in patch.items():
        if value is None:
            result.pop(key, None)
        else:
            result[key] = merge_patch(result.get(key), value)
    return result


class Call(NamedTuple):
    op: str  # GET POST PATCH DELETE LOOKUP
    version: str | None
    plural: str
    namespace: str | None
    name: str | None
    payload: object = None
    headers: object = None
    kind: str | None = None


MUTATING = ("POST", "PATCH", "DELETE")


class Response:
    def __init__(self, status, data=None):
        self.status_code = status
        self._data = data

    def json(self):
        return copy.deepcopy(self._data)


class FaultError(Exception):
    """Injected transport failure."""


class Hang(BaseException):
    """Internal: the call never answers."""


class Cluster:
    """Storage + log.  ``gate`` (async callable or None) is awaited before the
    effect of a call and may raise; ``gate_after`` after the effect."""

    def __init__(self, namespace="api-default-ns"):
        self.namespace = namespace
        self.store = {}
        self.log = []
        self.gate = None
        self.gate_after = None
        self.serial = 0
        self.decorate = None  # callable(obj) applied to every stored object
        self.lookups = {}  # kind -> plural
        self.auth = None

    # -- direct manipulation by the harness ---------------------------------
    absent = "empty"

    def key(self, version, plural, namespace, name):
        return (version, plural, namespace, name)

    def put(self, plural, obj, namespace=None):
        obj = plain(obj)
        md = obj.get("metadata", {})
        self.store[
            (obj.get("apiVersion"), plural, namespace, md.get("name"))
        ] = obj
        return obj

    def mutations(self):
        return [c for c in self.log if c.op in MUTATING]

    def snapshot(self):
        return {k: plain(v) for k, v in self.store.items()}

    # -- kr8s.Api surface ----------------------------------------------------
    async def lookup_kind(self, kind):
        call = Call("LOOKUP", None, kind, None, None)
        self.log.append(call)
        if self.gate:
            await self.gate(call)
        plural = self.lookups.get(kind, self.lookups.get(kind.split(".")[0]))
        if plural is None:
            raise ValueError(f"Kind {kind} not found.")
        return (kind, plural, True)

    async def async_get(self, kind, *names, namespace=None, **kwargs):
        cls = kind
        ns = namespace
        if not getattr(cls, "namespaced", False):
            ns = None
        elif ns is None:
            ns = self.namespace
        name = names[0] if names else None
        call = Call("GET", cls.version, cls.endpoint, ns, name, None, None, cls.kind)
        self.log.append(call)
        if self.gate:
            await self.gate(call)
        found = self.store.get((cls.version, cls.endpoint, ns, name))
        if self.gate_after:
            await self.gate_after(call)
        if found is None:
            # kr8s lists with a field selector, so an absent object is an empty
            # result; a kind the server does not know is a 404.
            if self.absent == "raise":
                raise kr8s.NotFoundError(f"{cls.plural} {name} not found")
            if self.absent == "404":
                raise server_error(404)
            return
        yield cls(copy.deepcopy(found), namespace=None, api=self)

    async_get_one = None

    @asynccontextmanager
    async def call_api(
        self,
        method="GET",
        version="v1",
        base="",
        namespace=None,
        url="",
        raise_for_status=True,
        stream=False,
        **kwargs,
    ):
        headers = kwargs.get("headers")
        payload = None
        if kwargs.get("data"):
            payload = json.loads(kwargs["data"])
        elif kwargs.get("json") is not None:
            payload = copy.deepcopy(kwargs["json"])
        parts = url.split("/")
        plural, name = parts[0], (parts[1] if len(parts) > 1 else None)
        call = Call(method, version, plural, namespace, name, payload, headers)
        self.log.append(call)
        if self.gate:
            await self.gate(call)
        response = self._effect(call)
        if self.gate_after:
            await self.gate_after(call)
        if raise_for_status and response.status_code >= 400:
            raise kr8s.ServerError(
                f"HTTP {response.status_code}",
                status=f"status-{response.status_code}",
                response=response,
            )
        yield response

    def _stored(self, obj):
        if self.decorate:
            obj = self.decorate(obj) or obj
        return obj

    def _effect(self, call):
        if call.op == "POST":
            obj = plain(call.payload)
            md = obj.get("metadata")
            name = md.get("name") if isinstance(md, dict) else None
            if not isinstance(name, str) or not name:
                return Response(422)
            key = (call.version, call.plural, call.namespace, name)
            if key in self.store:
                return Response(409)
            self.serial += 1
            md["uid"] = f"uid-{self.serial}"
            md["resourceVersion"] = "1"
            self.store[key] = self._stored(obj)
            return Response(201, self.store[key])
        key = (call.version, call.plural, call.namespace, call.name)
        if key not in self.store:
            return Response(404)
        if call.op == "PATCH":
            obj = merge_patch(self.store[key], call.payload)
            md = obj.get("metadata")
            if isinstance(md, dict):
                try:
                    md["resourceVersion"] = str(int(md.get("resourceVersion", "1")) + 1)
                except ValueError:
                    pass
            self.store[key] = self._stored(obj)
            return Response(200, self.store[key])
        if call.op == "DELETE":
            obj = self.store.pop(key)
            return Response(200, obj)
        if call.op == "GET":
            return Response(200, self.store[key])
        return Response(405)


def server_error(status):
    response = Response(status)
    return kr8s.ServerError(
        f"HTTP {status}", status=f"status-{status}", response=response
    )


class Scheduler:
    """Parks API calls; completes them one at a time by choice.

    ``faults``: callable(call, index) -> list of fault names to choose from
    (first must be "ok"), or None.  ``index`` is the arrival number of the call.
    """

    def __init__(self, cluster, chooser, faults=None, park=None, time_races=False):
        self.cluster = cluster
        self.chooser = chooser
        self.faults = faults
        self.park = park  # predicate: which calls suspend (default: all)
        self.parked = []
        self.arrivals = 0
        self.completions = []
        self.time_races = time_races
        self.hung = 0
        cluster.gate = self.gate
        cluster.gate_after = self.gate_after
        self._after = {}

    async def gate(self, call):
        import asyncio

        index = self.arrivals
        self.arrivals += 1
        fault = "ok"
        if self.faults:
            options = self.faults(call, index)
            if options and len(options) > 1:
                fault = self.chooser.pick(options, f"fault@{index}:{call.op}")
        self._after[id(call)] = fault
        if fault == "hang":
            self.hung += 1
            await asyncio.get_running_loop().create_future()
        if self.park is None or self.park(call):
            fut = asyncio.get_running_loop().create_future()
            self.parked.append((fut, call, index))
            await fut
        if fault == "before":
            raise FaultError("injected: connection lost before effect")
        if fault in ("404", "409", "500", "503", "422"):
            if fault == "404" and call.op == "GET":
                raise kr8s.NotFoundError("injected 404")
            raise server_error(int(fault))
        if fault == "cancel":
            raise asyncio.CancelledError()
        if fault == "timeout":
            raise TimeoutError("injected timeout")

    async def gate_after(self, call):
        if self._after.get(id(call)) == "after":
            raise FaultError("injected: connection lost after effect")
        if self._after.get(id(call)) == "hang-after":
            import asyncio

            self.hung += 1
            await asyncio.get_running_loop().create_future()

    def idle(self, loop, has_timer):
        live = [p for p in self.parked if not p[0].done()]
        self.parked = live
        n = len(live)
        if not n:
            return False
        options = n + (1 if self.time_races and has_timer else 0)
        k = self.chooser.choose(options, "complete")
        if k == n:
            return False
        fut, call, index = live.pop(k)
        self.parked = live
        self.completions.append(index)
        fut.set_result(None)
        return True
