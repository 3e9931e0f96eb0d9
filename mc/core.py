"""Exploration engine shared by every check.

A check is a list of *tasks*.  A task explores one finite region of the behaviour
space completely (all datasets of a lattice, all operation sequences up to a depth,
all random keys of a range, all reachable states of a refinement graph ...) by running
the real coreax code from /repo, and compares every explored behaviour with an
independent specification.  The engine runs the tasks on all cores, merges what they
covered, writes the evidence file and decides the exit code:

  0  the property held on everything explored (known findings are printed)
  1  at least one violation that known_findings.txt does not list
  2  the machinery itself failed (out of memory, broken worker, ...)
"""

from __future__ import annotations

import json
import os
import sys
import time
import traceback
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait
from concurrent.futures.process import BrokenProcessPool
from multiprocessing import get_context

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")

MAX_VIOLATIONS_PER_TASK = 8
DEADLINE = {"quick": 780.0, "thorough": 6 * 3600.0}
TASK_LIMIT = {"quick": 600.0, "thorough": 2 * 3600.0}


def jsonable(obj):
    """Best effort conversion to something json can write."""
    import numpy as np

    if isinstance(obj, dict):
        return {str(k): jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple, set)):
        return [jsonable(v) for v in obj]
    if isinstance(obj, (str, int, bool)) or obj is None:
        return obj
    if isinstance(obj, float):
        return obj if obj == obj and abs(obj) != float("inf") else str(obj)
    if isinstance(obj, np.ndarray):
        return jsonable(obj.tolist())
    if isinstance(obj, np.generic):
        return jsonable(obj.item())
    return repr(obj)[:300]


class Rec:
    """What one task covered and found; picklable."""

    def __init__(self, name: str):
        self.name = name
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = 0
        self.extra: dict[str, int] = {}
        self.samples: list = []
        self.violations: list = []
        self.suppressed = 0
        self.exhaustive = True

    def cover(self, states=0, transitions=0, traces=0, **extra):
        self.states += int(states)
        self.transitions += int(transitions)
        self.traces += int(traces)
        for key, val in extra.items():
            self.extra[key] = self.extra.get(key, 0) + int(val)

    def sample(self, case, limit=1):
        if len(self.samples) < limit:
            self.samples.append(jsonable(case))

    def violate(self, key: str, what: str, case=None):
        if len(self.violations) < MAX_VIOLATIONS_PER_TASK:
            self.violations.append(
                {"key": key, "what": what, "case": jsonable(case), "task": self.name}
            )
        else:
            self.suppressed += 1

    def check(self, ok, key: str, what: str, case=None) -> bool:
        if not bool(ok):
            self.violate(key, what, case() if callable(case) else case)
            return False
        return True

    def call(self, key: str, case, fn, *args, **kwargs):
        """Run code under test; an unexpected exception is a violation."""
        try:
            return fn(*args, **kwargs)
        except (MemoryError, KeyboardInterrupt):
            raise
        except BaseException as err:  # noqa: BLE001
            tb = traceback.format_exc().strip().splitlines()
            self.violate(key, f"raised {type(err).__name__}: {str(err)[:300]}",
                         {"case": jsonable(case), "traceback": tb[-6:]})
            return None

    def expect_error(self, key: str, case, types, fn, *args, **kwargs):
        """The call must be rejected with one of the given exception types."""
        self.cover(transitions=1, traces=1, rejections=1)
        try:
            res = fn(*args, **kwargs)
        except types:
            return True
        except (MemoryError, KeyboardInterrupt):
            raise
        except BaseException as err:  # noqa: BLE001
            self.violate(key, f"raised {type(err).__name__} instead of being rejected "
                         f"with {types}: {str(err)[:200]}", case)
            return False
        self.violate(key, "was accepted instead of being rejected: "
                     + repr(res)[:200], case)
        return False


class Task:
    """One region of the behaviour space. fn(rec, *args) is module level."""

    def __init__(self, name, fn, *args, cost=1.0):
        self.name, self.fn, self.args, self.cost = name, fn, args, cost


def _execute(name, fn, args):
    import warnings

    import numpy as np

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    rec = Rec(name)
    start = time.time()
    try:
        fn(rec, *args)
    except (MemoryError, KeyboardInterrupt):
        raise
    except BaseException as err:  # noqa: BLE001
        # The task runs cleanly on the pinned tree, so whatever went wrong comes from
        # what the code under test did (an exception, a wrong shape or type, ...).
        rec.violate(f"{name}:exception",
                    f"behaviour made the exploration fail: {type(err).__name__}: "
                    f"{str(err)[:300]}",
                    {"traceback": traceback.format_exc().strip().splitlines()[-14:]})
    rec.extra["task_ms"] = int(1000 * (time.time() - start))
    return rec


def load_known(prop):
    """Entries 'known: property=<id> key=<key> | <what fails>' of one property."""
    known = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as fh:
            for line in fh:
                line = line.strip()
                if not line.startswith("known:"):
                    continue
                head, _, what = line[len("known:"):].partition("|")
                fields = dict(f.split("=", 1) for f in head.split() if "=" in f)
                if fields.get("property") == prop and "key" in fields:
                    known[fields["key"]] = what.strip()
    return known


def run_check(prop, tasks, tier, *, assumptions=(), bounds=None, only=None,
              workers=None, verbose=False):
    """Execute the tasks and report; returns the exit code."""
    start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if only:
        tasks = [t for t in tasks if only in t.name]
    tasks = sorted(tasks, key=lambda t: -t.cost)
    workers = workers or int(os.environ.get("MC_WORKERS", "0")) or (os.cpu_count() or 4)
    workers = max(1, min(workers, len(tasks) or 1))

    recs, hung, broken = [], [], None
    ctx = get_context("fork")
    pool = ProcessPoolExecutor(max_workers=workers, mp_context=ctx)
    pending = {}
    try:
        for t in tasks:
            pending[pool.submit(_execute, t.name, t.fn, t.args)] = t
        running_since = {}
        while pending:
            done, _ = wait(pending, timeout=2.0, return_when=FIRST_COMPLETED)
            for fut in done:
                recs.append(fut.result())
                if verbose:
                    r = recs[-1]
                    print(f"  {r.extra['task_ms']/1000:7.1f}s {r.name} st={r.states} "
                          f"tr={r.transitions} viol={len(r.violations)}", flush=True)
                pending.pop(fut)
            now = time.time()
            for fut, t in pending.items():
                if fut.running():
                    running_since.setdefault(fut, now)
            late = [t for fut, t in pending.items()
                    if fut in running_since
                    and now - running_since[fut] > TASK_LIMIT[tier]]
            if late or (pending and now - start > DEADLINE[tier]):
                hung = late or [t for fut, t in pending.items() if fut.running()]
                break
    except (BrokenProcessPool, MemoryError) as err:
        broken = err
    finally:
        if hung or broken:
            for proc in list(getattr(pool, "_processes", {}).values()):
                proc.kill()
        pool.shutdown(wait=not (hung or broken), cancel_futures=True)

    violations = [v for r in recs for v in r.violations]
    for t in hung:
        violations.append({"key": f"{t.name}:no-termination", "task": t.name,
                           "what": "exploration did not terminate: the code under test "
                           "ran for far longer than it does on the pinned tree",
                           "case": jsonable(t.args)})
    known = load_known(prop)
    fresh = [v for v in violations if v["key"] not in known]
    seen_known = {v["key"] for v in violations if v["key"] in known}

    extra = {}
    for r in recs:
        for k, v in r.extra.items():
            if k != "task_ms":
                extra[k] = (max(extra.get(k, 0), v) if k.startswith("largest")
                            else extra.get(k, 0) + v)
    samples = [s for r in sorted(recs, key=lambda r: r.name) for s in r.samples]
    step = max(1, len(samples) // 6)
    coverage = {
        "states": sum(r.states for r in recs),
        "transitions": sum(r.transitions for r in recs),
        "traces_validated_against_impl": sum(r.traces for r in recs),
        "samples": samples[::step][:6],
        "exhaustive": all(r.exhaustive for r in recs) and not hung and not broken,
        "regions_explored": len(recs),
        "region_names": sorted(r.name for r in recs)[:200],
    }
    coverage.update(extra)
    if bounds:
        coverage["bounds"] = bounds
    os.makedirs(EVIDENCE, exist_ok=True)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": coverage, "assumptions": list(assumptions),
        "wall_s": round(time.time() - start, 2), "violations": len(fresh),
    }
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w", encoding="utf-8") as fh:
        json.dump(jsonable(evidence), fh, indent=1)

    for key in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {known[key]}")
    print(f"{prop} [{tier}] states={coverage['states']} "
          f"transitions={coverage['transitions']} "
          f"traces={coverage['traces_validated_against_impl']} regions={len(recs)} "
          f"wall={evidence['wall_s']}s violations={len(fresh)}")
    if fresh:
        replay = os.path.join(EVIDENCE, f"{prop}.replay.json")
        with open(replay, "w", encoding="utf-8") as fh:
            json.dump(jsonable({
                "property": prop, "tier": tier, "seed": seed,
                "how": f"bash run.sh {prop} {tier} --only '<task>'",
                "violations": fresh,
            }), fh, indent=1)
        for v in fresh[:12]:
            print(f"  - [{v['task']}] {v['key']}: {v['what']}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if broken is not None:
        print(f"ERROR: worker pool broke: {broken!r}", file=sys.stderr)
        return 2
    return 0
