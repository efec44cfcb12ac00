"""python -m mc.main CHECK [--replay FILE]"""
import importlib
import json
import sys
import time
import traceback

from . import report


def main(argv):
    prop = argv[0].upper()
    started = time.time()
    module = importlib.import_module(f"mc.checks.{prop.lower()}")
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            data = json.load(f)
        stats = report.Stats()
        report._safe(module.check, stats, data["case"])
        return report.finish(
            prop, module.LEVEL, stats, started, "", [], {}, replay_only=True
        )
    budget = 780 if report.THOROUGH else 300
    stats = report.run_sharded(module.cases, module.check, budget)
    if hasattr(module, "post"):
        module.post(stats)
    return report.finish(
        prop,
        module.LEVEL,
        stats,
        started,
        module.RULE,
        getattr(module, "ASSUMPTIONS", []),
        module.bounds() if hasattr(module, "bounds") else {},
    )


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
