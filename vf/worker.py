"""Run one shard of one search (or replay one case) in this process.

usage: python -m vf.worker MODULE SEARCH SHARD NSHARDS TIER OUT
       python -m vf.worker MODULE SEARCH --replay FILE OUT
The result is OUT (json); progress is OUT.cur (the case being run)."""
from __future__ import annotations

import faulthandler
import gc
import importlib
import json
import mmap
import os
import signal
import sys
import time
import traceback

import vf  # noqa: F401  (path set-up)
from vf.core import HarnessError, Hang, Search, Skip, Violation, case_hash, case_json

CUR_SIZE = 1 << 20


class Cur:
    """The case being run, in a small mmap so that the parent can see it."""

    def __init__(self, path):
        with open(path, "wb") as f:
            f.truncate(CUR_SIZE)
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), CUR_SIZE)
        self.n = 0

    def put(self, case):
        data = case_json(case).encode()
        self.n += 1
        head = f"{self.n} {time.monotonic():.3f} {len(data)}\n".encode()
        buf = head + data
        if len(buf) > CUR_SIZE:
            buf = f"{self.n} {time.monotonic():.3f} 0\n".encode()
        self.m[: len(buf)] = buf

    def idle(self):
        self.n += 1
        buf = f"{self.n} 0 0\n".encode()
        self.m[: len(buf)] = buf


def main():
    faulthandler.enable()
    faulthandler.register(signal.SIGUSR1, all_threads=True)
    modname, sname = sys.argv[1:3]
    out = sys.argv[-1]
    replay = sys.argv[3] == "--replay"
    res = {
        "search": sname, "evaluations": 0, "skipped": 0, "over_budget": 0,
        "nontrivial": [], "trivial": 0, "labels": {}, "samples": [], "failure": None,
        "error": None,
    }
    cur = Cur(out + ".cur")

    def finish(code=0):
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(res, f)
        os.replace(tmp, out)
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)

    try:
        mod = importlib.import_module("checks." + modname)
        search: Search = {s.name: s for s in mod.SEARCHES}[sname]
    except BaseException:
        res["error"] = traceback.format_exc()
        finish(3)

    nontrivial = set()
    seen_failure = {}

    def run_one(case, sample=True):
        cur.put(case)
        try:
            info = search.run(case) or {}
        except Skip:
            res["skipped"] += 1
            return
        finally:
            cur.idle()
        res["evaluations"] += 1
        if info.get("nontrivial", True):
            h = case_hash(case)
            if h not in nontrivial:
                nontrivial.add(h)
                if len(res["samples"]) < 3 or (
                    len(res["samples"]) < 6 and len(nontrivial) % 97 == 0
                ):
                    s = case_json(case)
                    res["samples"].append(s if len(s) < 600 else s[:600] + "...")
        else:
            res["trivial"] += 1
        for lab in info.get("labels", ()):
            res["labels"][lab] = res["labels"].get(lab, 0) + 1

    def record_failure(case, exc):
        kind = "hang" if isinstance(exc, Hang) else (
            "violation" if isinstance(exc, Violation) else "exception")
        tb = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-6000:]
        entry = {"case": case, "kind": kind,
                 "message": f"{type(exc).__name__}: {exc}"[:2000], "traceback": tb}
        seen_failure["last"] = entry
        best = seen_failure.get("best")
        if best is None or len(case_json(case)) <= len(case_json(best["case"])):
            seen_failure["best"] = entry

    # sockets, pools... may print from other threads: keep stdout for ourselves
    try:
        if search.setup:
            search.setup()
        if replay:
            case = json.load(open(sys.argv[4]))["case"]
            tries = 1
            for _ in range(tries):
                try:
                    run_one(case)
                except (HarnessError, MemoryError):
                    raise
                except BaseException as e:
                    record_failure(case, e)
                    break
        else:
            shard, nshards = int(sys.argv[3]), int(sys.argv[4])
            tier = sys.argv[5]
            seed = int(os.environ.get("VERIF_SEED", "1"))
            total = search.quick if tier == "quick" else search.thorough
            budget = search.quick_budget if tier == "quick" else search.thorough_budget
            budget *= float(os.environ.get("VF_BUDGET_SCALE", "1"))
            n = max(1, total // nshards)
            failed = False
            for i, case in enumerate(search.examples):
                if i % nshards != shard:
                    continue
                try:
                    run_one(case)
                except (HarnessError, MemoryError):
                    raise
                except Exception as e:
                    record_failure(case, e)
                    failed = True
                    break
            if not failed and search.strategy is not None:
                import hypothesis
                from hypothesis import HealthCheck, Phase, Verbosity, given, settings
                import hypothesis.internal.conjecture.engine as eng

                eng.MAX_SHRINKING_SECONDS = 30 if tier == "quick" else 120
                t0 = time.monotonic()
                state = {"harness": None, "n": 0}
                hypothesis.configuration.set_hypothesis_home_dir(
                    os.path.join(os.environ["VF_SCRATCH"], "hyp"))

                @hypothesis.seed(seed * 1000003 + shard)
                @settings(max_examples=n, deadline=None, database=None,
                          verbosity=Verbosity.quiet, print_blob=False,
                          report_multiple_bugs=False,
                          phases=(Phase.generate, Phase.shrink),
                          suppress_health_check=list(HealthCheck))
                @given(search.strategy())
                def prop(case):
                    if state["harness"] is not None:
                        return
                    if not seen_failure and time.monotonic() - t0 > budget:
                        res["over_budget"] += 1
                        return
                    state["n"] += 1
                    if state["n"] % 200 == 0:
                        gc.collect()
                    try:
                        run_one(case)
                    except (HarnessError, MemoryError):
                        state["harness"] = traceback.format_exc()
                        return
                    except Exception as e:
                        record_failure(case, e)
                        raise

                try:
                    prop()
                except BaseException as e:
                    if not seen_failure:
                        state["harness"] = state["harness"] or traceback.format_exc()
                if state["harness"] and not seen_failure:
                    res["error"] = state["harness"]
        if search.teardown:
            search.teardown()
    except (HarnessError, MemoryError):
        res["error"] = traceback.format_exc()
    except BaseException:
        res["error"] = traceback.format_exc()
    res["nontrivial"] = sorted(nontrivial)
    if seen_failure:
        res["failure"] = seen_failure["best"]
        res["error"] = None
    finish(0 if not res["error"] else 3)


if __name__ == "__main__":
    main()
