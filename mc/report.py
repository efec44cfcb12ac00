"""Result accounting, replay files, evidence, known findings, sharding."""
import hashlib
import json
import os
import sys
import time
import traceback

from . import env

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")
REPLAYS = os.path.join(ROOT, "replays")
KNOWN = os.path.join(ROOT, "known_findings.json")

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"


def canon(value):
    return json.dumps(value, sort_keys=True, default=repr, ensure_ascii=True)


def digest(value):
    raw = value if isinstance(value, str) else canon(value)
    return int.from_bytes(hashlib.blake2b(raw.encode(), digest_size=8).digest(), "big")


class Stats:
    """What one process covered; merged across shards."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.cases = 0
        self.extra = {}
        self.samples = []
        self.problems = []  # (key, message, case)
        self.exhaustive = True
        self.errors = []  # the harness failed on a case

    def state(self, value):
        self.states.add(digest(value))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def evaluated(self, n=1):
        self.evaluations += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, value, cap=3):
        if len(self.samples) < cap:
            self.samples.append(value)

    def problem(self, message, case, key=None):
        key = key or message
        # A repeated key (a known finding) never crowds out a different one.
        if len(self.problems) < 60 and sum(k == key for k, _, _ in self.problems) < 2:
            self.problems.append((key, message, case))

    def merge(self, other):
        self.states |= other.states
        self.transitions += other.transitions
        self.traces += other.traces
        self.evaluations += other.evaluations
        self.cases += other.cases
        for k, v in other.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v
        self.samples = (self.samples + other.samples)[:6]
        self.problems = self._dedupe(self.problems + other.problems)
        self.exhaustive = self.exhaustive and other.exhaustive
        self.errors = (self.errors + other.errors)[:5]

    @staticmethod
    def _dedupe(problems):
        seen, out = {}, []
        for p in problems:
            seen[p[0]] = seen.get(p[0], 0) + 1
            if seen[p[0]] <= 2:
                out.append(p)
        return out[:400]


def known_findings(prop):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("known", []) if k.get("property") == prop]


def finish(prop, level, stats, started, rule, assumptions, bounds, replay_only=False):
    wall = time.time() - started
    known = known_findings(prop)
    by_key = {k["key"]: k for k in known}
    seen_known, fresh = {}, []
    for key, message, case in stats.problems:
        if key in by_key:
            seen_known[key] = by_key[key]
        else:
            fresh.append((key, message, case))
    for key, k in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    path = None
    if fresh:
        os.makedirs(REPLAYS, exist_ok=True)
        key, message, case = fresh[0]
        path = os.path.join(REPLAYS, f"{prop}-{digest(canon(case)):016x}.json")
        with open(path, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "tier": TIER,
                    "seed": SEED,
                    "message": message,
                    "key": key,
                    "case": case,
                    "others": [
                        {"key": k, "message": m, "case": c} for k, m, c in fresh[1:10]
                    ],
                },
                f,
                indent=1,
                default=repr,
            )
        print(f"{prop}: {message}")
        print(f"  case: {canon(case)[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    if not replay_only:
        coverage = {
            "states": len(stats.states),
            "transitions": stats.transitions,
            "traces_validated_against_impl": stats.traces,
            "evaluations": stats.evaluations,
            "configurations": stats.cases,
            "rule": rule,
            "samples": stats.samples or ["none"],
            "bounds": bounds,
            "exhaustive": bool(stats.exhaustive),
        }
        coverage.update(stats.extra)
        evidence = {
            "property": prop,
            "tier": TIER,
            "seed": SEED,
            "level": level,
            "coverage": coverage,
            "assumptions": assumptions,
            "wall_s": round(wall, 3),
            "violations": len(fresh),
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        tmp = os.path.join(EVIDENCE, f".{prop}.{os.getpid()}.tmp")
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1, default=repr)
        os.replace(tmp, os.path.join(EVIDENCE, f"{prop}.json"))
        print(
            f"{prop} {TIER}: {stats.cases} configurations, {len(stats.states)} states, "
            f"{stats.transitions} transitions, {stats.traces} executions compared, "
            f"{len(fresh)} violation(s), {wall:.1f}s"
        )
    if stats.errors:
        # a violation found elsewhere stands; otherwise the check has no answer
        print(f"{prop}: {len(stats.errors)} case(s) the harness could not run, the first:\n{stats.errors[0]}",
              file=sys.stderr)
    sys.stdout.flush()
    return 1 if fresh else 2 if stats.errors else 0


def _safe(check, stats, case):
    try:
        check(stats, case)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as err:  # noqa: B902 - the code under test escaped
        if isinstance(err, CodeProblem):
            stats.problem(str(err), case)
            return
        tb = traceback.extract_tb(err.__traceback__)
        where = [f"{os.path.basename(t.filename)}:{t.lineno}:{t.name}" for t in tb[-6:]]
        in_repo = any("/koreo/" in t.filename for t in tb)
        if not in_repo:
            stats.exhaustive = False
            stats.errors.append(f"case {canon(case)[:500]}\n{traceback.format_exc()}")
            if len(stats.errors) > 20:
                raise
            return
        stats.problem(
            f"{type(err).__name__}: {str(err)[:300]} escaped from {' > '.join(where)}",
            case,
            key=f"escaped:{type(err).__name__}",
        )


class CodeProblem(Exception):
    """The code under test refuses something every check of a property needs."""


class HarnessError(Exception):
    """The harness itself is wrong: never reported as a violation."""


def run_sharded(cases, check, budget_s, workers=None, stall_s=150):
    """Run check(stats, case) for every case, case i on worker i % n.

    The enumeration is deterministic; VERIF_SEED rotates which worker gets which
    residue only.  A worker that makes no progress for stall_s is a violation
    (the code under test does not terminate on that case)."""
    import multiprocessing as mp

    n = workers or min(8, os.cpu_count() or 2)
    ctx = mp.get_context("fork")
    deadline = time.time() + budget_s
    procs = []
    for w in range(n):
        heart = ctx.Value("q", 0, lock=False)
        where = ctx.Value("q", -1, lock=False)
        recv, send = ctx.Pipe(False)

        def work(w=w, heart=heart, where=where, send=send):
            global _HEART
            _HEART = heart
            stats = Stats()
            residue = (w + SEED) % n
            try:
                for i, case in enumerate(cases()):
                    if i % n != residue:
                        continue
                    if time.time() > deadline:
                        stats.exhaustive = False
                        break
                    where.value = i
                    heart.value += 1
                    stats.cases += 1
                    _safe(check, stats, case)
                    if len(stats.problems) >= 25 or len(stats.errors) >= 5:
                        stats.exhaustive = False
                        break
                send.send(("ok", stats))
            except BaseException:
                send.send(("error", traceback.format_exc()))
            send.close()
            sys.stdout.flush()
            os._exit(0)

        p = ctx.Process(target=lambda: env.roomy(work))
        p.start()
        send.close()
        procs.append([p, recv, heart, where, 0, time.time()])
    total = Stats()
    error = None
    live = list(procs)
    while live:
        for entry in list(live):
            p, recv, heart, where, last, since = entry
            if recv.poll(0.02):
                try:
                    kind, value = recv.recv()
                except EOFError:
                    kind, value = "error", f"worker died on case {where.value}"
                if kind == "ok":
                    total.merge(value)
                else:
                    error = value
                p.join(10)
                live.remove(entry)
                continue
            if not p.is_alive() and not recv.poll(0.2):
                error = f"worker died (exit {p.exitcode}) on case {where.value}"
                live.remove(entry)
                continue
            if heart.value != last:
                entry[4], entry[5] = heart.value, time.time()
            elif time.time() - since > stall_s:
                p.kill()
                p.join()
                live.remove(entry)
                total.exhaustive = False
                case = None
                for i, c in enumerate(cases()):
                    if i == where.value:
                        case = c
                        break
                total.problem(
                    f"no progress for {stall_s}s: the code does not terminate", case
                )
    if error:
        total.errors.append(error)
        total.exhaustive = False
    return total


_HEART = None


def heartbeat():
    if _HEART is not None:
        _HEART.value += 1
