"""Offer definitions to the real cache and run the real reconcilers."""
import copy

from . import env
from .env import cache, registry

import celpy
from celpy import celtypes

from koreo import constants
from koreo import result as kresult
from koreo.function_test.prepare import prepare_function_test
from koreo.function_test.run import run_function_test
from koreo.function_test.structure import FunctionTest
from koreo.resource_function.prepare import prepare_resource_function
from koreo.resource_function.reconcile import reconcile_resource_function
from koreo.resource_function.structure import ResourceFunction
from koreo.resource_template.prepare import prepare_resource_template
from koreo.resource_template.structure import ResourceTemplate
from koreo.value_function.prepare import prepare_value_function
from koreo.value_function.reconcile import reconcile_value_function
from koreo.value_function.structure import ValueFunction
from koreo.workflow.prepare import prepare_workflow
from koreo.workflow.reconcile import reconcile_workflow
from koreo.workflow.structure import Workflow

from .loop import run_sync

KINDS = {
    "ValueFunction": (ValueFunction, prepare_value_function),
    "ResourceFunction": (ResourceFunction, prepare_resource_function),
    "ResourceTemplate": (ResourceTemplate, prepare_resource_template),
    "Workflow": (Workflow, prepare_workflow),
    "FunctionTest": (FunctionTest, prepare_function_test),
}

GROUP = "mc.koreo.test"
VERSION = f"{GROUP}/v1"
NS_KIND, NS_PLURAL = "McThing", "mcthings"
LK_KIND, LK_PLURAL = "McLooked", "mclookeds"  # plural found by kind lookup
CL_KIND, CL_PLURAL = "McGlobal", "mcglobals"

import kr8s  # noqa: E402

# Registered up front so kr8s.objects.get_class always finds these classes.
NS_CLASS = kr8s.objects.new_class(
    kind=NS_KIND, version=VERSION, plural=NS_PLURAL, namespaced=True, asyncio=True
)
CL_CLASS = kr8s.objects.new_class(
    kind=CL_KIND, version=VERSION, plural=CL_PLURAL, namespaced=False, asyncio=True
)
LK_CLASS = kr8s.objects.new_class(
    kind=LK_KIND, version=VERSION, plural=constants.PLURAL_LOOKUP_NEEDED,
    namespaced=True, asyncio=True,
)


def reset_classes():
    """Undo any change the code under test made to the shared kr8s classes."""
    NS_CLASS.endpoint = NS_CLASS.plural = NS_PLURAL
    NS_CLASS.namespaced = True
    NS_CLASS.version, NS_CLASS.kind = VERSION, NS_KIND
    LK_CLASS.endpoint = LK_CLASS.plural = constants.PLURAL_LOOKUP_NEEDED
    LK_CLASS.namespaced = True
    LK_CLASS.version, LK_CLASS.kind = VERSION, LK_KIND
    CL_CLASS.endpoint = CL_CLASS.plural = CL_PLURAL
    CL_CLASS.namespaced = False
    CL_CLASS.version, CL_CLASS.kind = VERSION, CL_KIND


def fresh():
    env.reset()
    reset_classes()


def cel(value):
    return celpy.json_to_cel(value)


def lookup_config(name="thing", namespace="ns1", **extra):
    """apiConfig without a plural, so the kind is looked up."""
    cfg = {"apiVersion": VERSION, "kind": LK_KIND, "name": name, "namespace": namespace}
    cfg.update(extra)
    return cfg


def uncel(value):
    """CEL value -> plain JSON value (the harness's own conversion)."""
    if isinstance(value, celtypes.BoolType):
        return bool(value)
    if value is None or isinstance(value, celtypes.NullType):
        return None
    if isinstance(value, bool):
        return value
    if isinstance(value, (celtypes.IntType, celtypes.UintType)):
        return int(value)
    if isinstance(value, celtypes.DoubleType):
        return float(value)
    if isinstance(value, (celtypes.TimestampType, celtypes.DurationType)):
        return str(value)
    if isinstance(value, str):
        return "".join(value)
    if isinstance(value, dict):
        return {uncel(k): uncel(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [uncel(v) for v in value]
    return value


def outcome_class(outcome):
    for name in ("DepSkip", "Skip", "Retry", "PermFail"):
        if isinstance(outcome, getattr(kresult, name)):
            return name
    return "Ok"


def outcome(value):
    """Plain description of an (unwrapped) outcome."""
    cls = outcome_class(value)
    if cls == "Ok":
        return {"class": "Ok", "value": uncel(value)}
    out = {"class": cls, "message": value.message, "location": value.location}
    if cls == "Retry":
        out["delay"] = value.delay
    return out


def has_error_object(value, depth=0):
    if isinstance(value, Exception) or isinstance(value, celpy.CELEvalError):
        return True
    if isinstance(value, dict):
        return any(has_error_object(k) or has_error_object(v) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return any(has_error_object(v) for v in value)
    return False


async def offer(kind, name, spec, version="1"):
    cls, preparer = KINDS[kind]
    return await cache.prepare_and_cache(
        cls,
        preparer,
        {"name": name, "resourceVersion": version},
        copy.deepcopy(spec),
    )


async def prepare(kind, name, spec):
    cls, preparer = KINDS[kind]
    return await preparer(name, copy.deepcopy(spec))


def lookup(kind, name):
    return cache.get_resource_from_cache(KINDS[kind][0], name)


OWNER_UID = "owner-uid-1"


def owner_ref():
    return {
        "apiVersion": "trigger.test/v1",
        "kind": "Trigger",
        "name": "trigger",
        "uid": OWNER_UID,
        "blockOwnerDeletion": True,
        "controller": False,
    }


def api_config(name="thing", namespace="ns1", cluster_scoped=False, **extra):
    cfg = {
        "apiVersion": VERSION,
        "kind": CL_KIND if cluster_scoped else NS_KIND,
        "plural": CL_PLURAL if cluster_scoped else NS_PLURAL,
        "name": name,
    }
    if cluster_scoped:
        cfg["namespaced"] = False
    if namespace is not None:
        cfg["namespace"] = namespace
    cfg.update(extra)
    return cfg


async def run_rf(api, function, inputs, owner_ns="ns1", owner=None, location="loc"):
    return await reconcile_resource_function(
        api=api,
        location=location,
        function=function,
        owner=(owner_ns, owner if owner is not None else owner_ref()),
        inputs=cel(inputs),
    )


async def run_vf(function, inputs, base=None, location="loc"):
    return await reconcile_value_function(
        location=location,
        function=function,
        inputs=cel(inputs),
        value_base=base,
    )


async def run_wf(api, workflow, trigger, owner_ns="ns1", owner=None, key="wf"):
    return await reconcile_workflow(
        api=api,
        workflow_key=key,
        owner=(owner_ns, owner if owner is not None else owner_ref()),
        trigger=cel(trigger),
        workflow=workflow,
    )
