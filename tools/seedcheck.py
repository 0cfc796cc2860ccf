"""seedcheck.py [--no-tests] ID...: build a patched copy, run demo on both trees, the stable tests, and the check."""
import json, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tests = "--no-tests" not in args
check = "--no-check" not in args
ids = [a for a in args if not a.startswith("--")]
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
ENV = {**os.environ, "PATH": "/opt/venv/bin:" + os.environ["PATH"], "PYTHONDONTWRITEBYTECODE": "1"}
for i in ids:
    d = os.path.join(ROOT, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    wt = f"/tmp/seed-{i}"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    try:
        out = [i, prop]
        p = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", env=ENV, capture_output=True, text=True)
        out.append(f"demo-clean={p.returncode}")
        if p.returncode: print(p.stdout[-2000:], p.stderr[-2000:])
        subprocess.run(["git", "-C", wt, "apply", d + "/patch.diff"], check=True)
        src = open("/opt/vp/build_cython.py").read().replace("/repo/python", wt + "/python")
        p = subprocess.run(["/opt/venv/bin/python", "-c", src], cwd=wt + "/python", env=ENV, capture_output=True, text=True)
        if p.returncode: print("BUILD FAILED", p.stdout[-3000:], p.stderr[-2000:]); continue
        p = subprocess.run(["bash", d + "/demo.sh"], cwd=wt, env=ENV, capture_output=True, text=True)
        out.append(f"demo-patched={p.returncode}")
        if tests:
            sh = open("/opt/vp/test.sh").read().replace("$(realpath -m", "$(realpath -m").replace("bash /opt/vp/build.sh", "true").replace("/repo/python", wt + "/python")
            res = f"/tmp/seed-{i}.json"
            subprocess.run(["bash", "-c", sh, "test.sh", res], env=ENV, capture_output=True, text=True)
            r = json.load(open(res)); b = json.load(open("/opt/vp/BASELINE.json"))
            ok = set(r.get("passed", []))
            st = [t for k in ("stable", "stable_tests", "passed", "tests") for t in (b.get(k) or [])]
            out.append(f"tests-missing={[t for t in st if t not in ok][:5]} of {len(st)}")
            os.unlink(res)
        if check:
            t = time.time()
            p = subprocess.run([ROOT + "/bin/check", prop], env={**ENV, "VF_REPO": wt, "VERIF_SEED": "1"}, capture_output=True, text=True)
            v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append(f"check rc={p.returncode} {time.time()-t:.0f}s {'CAUGHT' if p.returncode == 1 and v else 'MISSED'}")
            m = [l for l in p.stdout.splitlines() if l.startswith("--- ")]
            out.append(" ".join(m)[:300])
        print(*out, flush=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
