"""Writes MANIFEST.json from checks/: a property without a check module is not claimed."""
import glob, importlib, json, os, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C31": "collective communication needs the compiled xoscar_pygloo extension (C++/gloo, uv); the build here is Python/Cython only and cannot produce it, so no input can be executed",
    "C32": "needs CUDA, MLX or UCX libraries and devices; none is installed, so the code cannot be run on any generated input",
}
TECH = {
    "C01": "hypothesis-generated object graphs, round trip against graph isomorphism",
}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    f = glob.glob(os.path.join(ROOT, "checks", pid.lower() + "_*.py"))
    if not f:
        na.append({"property": pid, "reason": NA.get(pid, "no check built yet")})
        continue
    src = open(f[0]).read()
    def const(name, default):
        m = re.search(r"^%s = (\(.*?\)|\".*?\")$" % name, src, re.S | re.M)
        return eval(m.group(1)) if m else default
    tech = const("TECHNIQUE", TECH.get(pid, "property-based testing (hypothesis) with explicit oracle"))
    note = const("LEVEL_NOTE", None)
    if note is None:
        note = "Random exploration: the property held on every generated case listed in the evidence; cases not generated are not covered. Trusts CPython, asyncio, hypothesis and the harness in vf/."
    checks.append({"property": pid, "quick_cmd": f"bin/check {pid}", "thorough_cmd": f"bin/check {pid} --tier thorough",
                   "technique": tech, "level": "exploration", "level_note": note})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. Every check rebuilds the Cython modules of /repo's working tree (content-hash based) before it runs."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
