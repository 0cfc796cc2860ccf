"""Decide one property: bin/check C01 [--tier quick|thorough] [--only SEARCH] [--replay FILE]."""
from __future__ import annotations

import argparse
import fcntl
import glob
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

import vf
from vf.core import case_hash, case_json

PY = "/opt/venv/bin/python"
NCPU = int(os.environ.get("VF_JOBS", str(os.cpu_count() or 8)))


def build():
    os.makedirs(os.path.join(vf.VERIF, ".scratch"), exist_ok=True)
    lock = open(os.path.join(vf.VERIF, ".scratch", "build.lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        src = open("/opt/vp/build_cython.py").read().replace("/repo/python", vf.REPO_PY)
        p = subprocess.run(
            [PY, "-c", src], cwd=vf.REPO_PY, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, text=True,
            env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"})
        if p.returncode:
            print(p.stdout[-4000:])
            print("build of /repo failed")
            sys.exit(2)
    finally:
        lock.close()


class Job:
    def __init__(self, search, args, out, env, label):
        self.search, self.args, self.out, self.env, self.label = search, args, out, env, label
        self.proc = None
        self.killed = None
        self.tries = 0
        self.last = (None, time.monotonic())

    def start(self):
        self.last = (None, time.monotonic())
        cmd = [PY, "-B", "-m", "vf.worker"] + self.args + [self.out]
        if self.search.subreaper:
            cmd = ["tini", "-s", "-g", "--"] + cmd
        self.log = open(self.out + ".log", "wb")
        self.t0 = time.monotonic()
        self.proc = subprocess.Popen(
            cmd, cwd=vf.VERIF, env=self.env, stdout=self.log, stderr=subprocess.STDOUT,
            stdin=subprocess.DEVNULL, start_new_session=True)

    def cur(self):
        """(case number, json text or None) of the case being run."""
        try:
            with open(self.out + ".cur", "rb") as f:
                head = f.readline().split()
                if len(head) != 3:
                    return None, None
                ln = int(head[2])
                return int(head[0]), (f.read(ln).decode() if ln else None)
        except (OSError, ValueError):
            return None, None

    def poll(self, limit):
        rc = self.proc.poll()
        if rc is not None:
            return True
        n, text = self.cur()
        now = time.monotonic()
        if n != self.last[0]:
            self.last = (n, now)
        if now - self.last[1] > limit:
            self.kill("stuck")
            return True
        return False

    def kill(self, why):
        self.killed = why
        if why == "stuck":
            try:
                os.kill(self.proc.pid, signal.SIGUSR1)
                time.sleep(1)
            except OSError:
                pass
        self.cleanup()

    def cleanup(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.proc.wait(10)
        except subprocess.TimeoutExpired:
            pass
        self.log.close()

    def result(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def logtail(self, n=5000):
        try:
            with open(self.out + ".log", "rb") as f:
                return f.read()[-n:].decode("utf-8", "replace")
        except OSError:
            return ""


def job_env(search, scratch, tscale=1.0):
    env = {k: v for k, v in os.environ.items() if k not in ("USE_FURY",)}
    env.update(
        PYTHONPATH=f"{vf.REPO_PY}:{vf.VERIF}", PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1", VF_TSCALE=str(tscale), VF_SCRATCH=scratch,
        XOSCAR_DIR=scratch, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1", HOME=scratch, TMPDIR=scratch,
        PYTHONWARNINGS="ignore")
    env.setdefault("VERIF_SEED", "1")
    env.update(search.env)
    return env


def replay_failure(mod, search, path, scratch, tries=None, tscale=1.0):
    """Run a saved case in a fresh process; returns the failure dict, None (held)
    or raises RuntimeError on harness trouble."""
    err = None
    for t in range(tries or search.replay_tries):
        d = tempfile.mkdtemp(prefix="r", dir=scratch)
        out = os.path.join(d, "o")
        job = Job(search, [mod.__name__.split(".")[-1], search.name, "--replay", path],
                  out, job_env(search, d, tscale), "replay")
        job.start()
        while not job.poll(search.case_limit * tscale + 60):
            time.sleep(0.05)
        job.cleanup()
        res = job.result()
        if res is None:
            if job.killed == "stuck":
                return {"kind": "hang", "message": "no progress; killed",
                        "traceback": job.logtail()}
            return {"kind": "crash", "message": f"process died, rc={job.proc.returncode}",
                    "traceback": job.logtail()}
        if res["failure"]:
            return res["failure"]
        if res["error"]:
            err = res["error"]
    if err:
        raise RuntimeError(err)
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--only", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--no-build", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t_start = time.monotonic()
    pid = a.property
    files = glob.glob(os.path.join(vf.VERIF, "checks", pid.lower() + "_*.py"))
    if len(files) != 1:
        print(f"no check module for {pid}")
        sys.exit(2)
    if not a.no_build:
        build()
    t_build = time.monotonic() - t_start
    os.makedirs(os.path.join(vf.VERIF, ".scratch"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f"vf{pid}", dir="/tmp")
    jobs = []

    def cleanup():
        for j in jobs:
            if j.proc is not None:
                j.cleanup()
        shutil.rmtree(scratch, ignore_errors=True)

    signal.signal(signal.SIGTERM, lambda *_: (cleanup(), os._exit(2)))
    try:
        rc = _main(a, pid, tier, seed, t_start, t_build, files[0], scratch, jobs)
    finally:
        cleanup()
    sys.stdout.flush()
    os._exit(rc)


def load_known(pid):
    path = os.path.join(vf.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get("findings", []) if k["property"] == pid]


def _main(a, pid, tier, seed, t_start, t_build, file, scratch, jobs):
    # the check module imports xoscar: do so with the environment the workers get
    sys.path.insert(0, vf.REPO_PY)
    os.environ["XOSCAR_DIR"] = scratch
    modname = os.path.basename(file)[:-3]
    mod = importlib.import_module("checks." + modname)
    searches = [s for s in mod.SEARCHES if a.only in (None, s.name)]
    by_name = {s.name: s for s in mod.SEARCHES}
    rdir = os.path.join(vf.VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)

    if a.replay:
        data = json.load(open(a.replay))
        s = by_name[data["search"]]
        f = replay_failure(mod, s, os.path.abspath(a.replay), scratch,
                           tscale=2.0)
        if f:
            print(f["traceback"])
            print(f"VIOLATION property={pid} replay={a.replay}")
            return 1
        print("replay: the property held")
        return 0

    known = load_known(pid)
    known_lines = []
    for k in known:
        # each listed finding is re-run: reported while it still fails
        path = os.path.join(scratch, "known.json")
        json.dump({"case": k["case"]}, open(path, "w"))
        f = replay_failure(mod, by_name[k["search"]], path, scratch, tries=1)
        if f:
            known_lines.append(f"KNOWN-FINDING: property={pid} {k['what']}")
    known_hashes = {case_hash(k["case"]) for k in known}

    queue = []
    for s in searches:
        n = s.shards if tier == "quick" else s.thorough_shards
        for i in range(n):
            d = os.path.join(scratch, f"{s.name}.{i}")
            os.makedirs(d)
            queue.append(Job(s, [modname, s.name, str(i), str(n), tier],
                             os.path.join(d, "o"), job_env(s, d), f"{s.name}[{i}]"))
    queue.sort(key=lambda j: -j.search.weight)
    jobs.extend(queue)
    running, done = [], []
    failures = []          # (search, failure dict)
    errors = []
    confirmed = []
    unconfirmed = []

    def confirm(search, fail):
        """A failure becomes a violation once a fresh process reproduces it; one
        that needs no clock is believed even if the race does not repeat."""
        if case_hash(fail["case"]) in known_hashes:
            return
        h = case_hash(fail["case"])
        path = os.path.join(rdir, f"{pid}-{search.name}-{h}.json")
        data = {"property": pid, "search": search.name, "case": fail["case"],
                "kind": fail["kind"], "message": fail["message"],
                "traceback": fail["traceback"],
                "replay": f"bin/check {pid} --replay {path}"}
        json.dump(data, open(path, "w"), indent=1)
        try:
            again = replay_failure(mod, search, path, scratch,
                                   tscale=3.0 if fail["kind"] in ("hang", "stuck") else 1.5)
        except RuntimeError as e:
            errors.append(str(e))
            again = None
        if again:
            data["message"], data["traceback"] = again["message"], again["traceback"]
            data["reproduced"] = True
        elif fail["kind"] in ("violation", "exception"):
            data["reproduced"] = False
        else:
            unconfirmed.append((search.name, fail["message"], path))
            return
        json.dump(data, open(path, "w"), indent=1)
        confirmed.append((search.name, data, path))

    while queue or running:
        while queue and len(running) < NCPU and not (confirmed and not a.keep_going):
            j = queue.pop(0)
            j.start()
            running.append(j)
        if confirmed and not a.keep_going:
            for j in running:
                j.kill("stop")
            break
        time.sleep(0.05)
        for j in list(running):
            if not j.poll(j.search.case_limit):
                continue
            running.remove(j)
            n, text = j.cur()
            j.cleanup()
            res = j.result()
            if res is None and n is None and j.tries < 3:
                # the worker died or hung before it started a case: the machine was stalled
                j.tries += 1
                j.killed, j.last = None, (None, time.monotonic())
                j.start()
                running.append(j)
                continue
            if res is not None:
                done.append((j, res))
                if res["failure"]:
                    confirm(j.search, res["failure"])
                elif res["error"]:
                    errors.append(f"{j.label}: {res['error']}")
            elif text:
                confirm(j.search, {
                    "case": json.loads(text),
                    "kind": "stuck" if j.killed == "stuck" else "crash",
                    "message": "no progress, killed" if j.killed == "stuck"
                    else f"worker died rc={j.proc.returncode}",
                    "traceback": j.logtail()})
            else:
                errors.append(f"{j.label}: worker died rc={j.proc.returncode} "
                              f"outside a case\n{j.logtail()}")

    evals = sum(r["evaluations"] for _, r in done)
    nontriv = {}
    labels, per_search, samples = {}, {}, []
    for j, r in done:
        nontriv.setdefault(j.search.name, set()).update(r["nontrivial"])
        ps = per_search.setdefault(j.search.name, {
            "evaluations": 0, "trivial": 0, "out_of_domain": 0, "not_run_over_budget": 0})
        ps["evaluations"] += r["evaluations"]
        ps["trivial"] += r["trivial"]
        ps["out_of_domain"] += r["skipped"]
        ps["not_run_over_budget"] += r["over_budget"]
        lab = labels.setdefault(j.search.name, {})
        for k, v in r["labels"].items():
            lab[k] = lab.get(k, 0) + v
        if len(samples) < 40:
            samples.extend({"search": j.search.name, "case": s} for s in r["samples"][:2])
    for k, v in per_search.items():
        v["distinct_nontrivial"] = len(nontriv[k])
        v["labels"] = dict(sorted(labels[k].items()))
        v["rule"] = by_name[k].rule
    wall = time.monotonic() - t_start
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": sum(len(v) for v in nontriv.values()),
            "rule": mod.RULE, "samples": samples, "searches": per_search,
            "unconfirmed_hangs": len(unconfirmed),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(confirmed),
    }
    os.makedirs(os.path.join(vf.VERIF, "evidence"), exist_ok=True)
    if not a.only:
        with open(os.path.join(vf.VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for line in known_lines:
        print(line)
    print(f"{pid} tier={tier} seed={seed} cases={evals} "
          f"nontrivial={ev['coverage']['distinct_nontrivial']} build={t_build:.1f}s wall={wall:.1f}s")
    for k, v in sorted(per_search.items()):
        print(f"  {k}: {v['evaluations']} cases, {v['distinct_nontrivial']} distinct non-trivial, "
              f"{v['out_of_domain']} out of domain, {v['not_run_over_budget']} over budget; {v['labels']}")
    for name, msg, path in unconfirmed:
        print(f"unconfirmed (inconclusive, not reported): {name}: {msg} {path}")
    if confirmed:
        for name, data, path in confirmed:
            print(f"--- {name}: {data['message']}\n{data['traceback']}")
            print(f"case: {case_json(data['case'])[:3000]}")
        for name, data, path in confirmed:
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        for e in errors:
            print("ERROR", e)
        return 2
    return 0


if __name__ == "__main__":
    main()
