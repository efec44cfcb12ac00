"""Import the code under test from /repo/src and own its environment.

* koreo is imported from /repo's working tree (KOREO_SRC overrides the path).
* koreo-core needs Python >= 3.13; under the 3.12 interpreter of this sandbox
  PEP 695 class scopes mangle the module global ``__CACHE`` of koreo.cache, so
  code before and after the generic class disagrees on its name.  ``_unmangle``
  makes both spellings name the same object.  It does nothing on 3.13.
* time.monotonic as seen by koreo.cache / koreo.registry is a strictly
  increasing logical clock, so that executions are deterministic.
"""
import logging
import os
import re
import sys

sys.dont_write_bytecode = True
SRC = os.environ.get("KOREO_SRC", "/repo/src")
sys.path.insert(0, SRC)
logging.disable(logging.CRITICAL)

import koreo.cache as cache  # noqa: E402
import koreo.registry as registry  # noqa: E402


def _unmangle(module):
    names = vars(module)
    for name in list(names):
        m = re.fullmatch(r"_[A-Za-z0-9]+?(__[A-Za-z0-9]\w*)", name)
        if m and not m.group(1).endswith("__") and m.group(1) not in names:
            names[m.group(1)] = names[name]
    owners = [n.lstrip("_") for n, v in names.items() if isinstance(v, type)]
    for name in list(names):
        if re.fullmatch(r"__[A-Za-z0-9]\w*", name) and not name.endswith("__"):
            for owner in owners:
                names.setdefault(f"_{owner}{name}", names[name])


_unmangle(cache)


class LogicalClock:
    """Stands in for the ``time`` module inside koreo.cache / koreo.registry."""

    def __init__(self):
        self.now = 0.0

    def monotonic(self):
        self.now += 1.0
        return self.now

    def __getattr__(self, name):
        import time

        return getattr(time, name)


CLOCK = LogicalClock()


def own_clock():
    for module in (cache, registry):
        if "time" in vars(module):
            module.time = CLOCK


def reset():
    """Return the module-level state of the code under test to its start."""
    CLOCK.now = 0.0
    tasks = getattr(cache, "_REPREPARE_TASKS", None)
    try:
        cache._reset_cache()
    except RuntimeError:
        # a cancelled task belongs to a loop that is closed already
        registry._reset_registries()
    if tasks is not None:
        tasks.clear()
    times = getattr(cache, "_PREPARE_TIMES", None)
    if times is not None:
        times.clear()
    forget_kinds()


def forget_kinds():
    """Empty whatever module-level containers the plural lookup keeps."""
    from koreo.resource_function.reconcile import kind_lookup

    for name, value in list(vars(kind_lookup).items()):
        if name.startswith("__") or not isinstance(value, (dict, set, list)):
            continue
        if not name.isupper():  # constants stay
            value.clear()


def quiet_celpy():
    """celpy logs every visited node; logging is off, so skip even the test for it."""
    import gc

    for name in ("Evaluator", "evaluation", "NameContainer", "celtypes", "celpy"):
        logger = logging.getLogger(name)
        logger.debug = logger.info = lambda *args, **kwargs: None
    gc.set_threshold(20_000, 20, 50)


def roomy(fn):
    """Call fn() with a large interpreter data stack: CPython otherwise maps and
    unmaps a 16 kB chunk on every deep call of celpy's recursive evaluator."""

    def call():
        return fn()

    call.__code__ = call.__code__.replace(co_stacksize=120_000)
    return call()


own_clock()
quiet_celpy()
