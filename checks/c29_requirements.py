"""C29: requirements are kept exactly when their marker holds, unchanged in all their parts."""
import json
import os
import shutil
import stat
import sys
import tempfile
from pathlib import Path
from unittest.mock import patch

FOLDER = tempfile.mkdtemp(prefix="vf-c29-")
os.environ["XOSCAR_UV_PATH"] = os.path.join(FOLDER, "uv")

from hypothesis import strategies as st
from importlib.metadata import version as installed_version
from packaging.markers import default_environment
from packaging.requirements import Requirement
from packaging.version import Version

from vf.core import Search, Violation, weighted
from xoscar.virtualenv.core import VirtualEnvManager, filter_requirements, substitute_variables
from xoscar.virtualenv.uv import UVVirtualEnvManager

RULE = ("markers: lists of 1-6 requirements (name, extras, version sets or url) with generated marker trees over standard variables, "
        "has_cuda / cuda_version / cuda_arch / has_npu and #variables#, in a generated environment (also without cuda), VCS urls, "
        "#system_x# placeholders and malformed entries; oracle: an evaluator over the tree and the requirement's parts. substitute: "
        "marker texts with placeholders against a one-pass replacement. install: the commands given to a stand-in for uv. "
        "Non-trivial = a list with a kept and a dropped entry, or an entry with extras, url or several version clauses")
ASSUMPTIONS = ["custom markers use ==, !=, <, <=, >, >=, and, or, not (the operators the code base implements); ordering comparisons "
               "with a value the machine does not have (no cuda) do not hold",
               "values of one marker comparison have the same kind (version with version, text with text)",
               "uv itself is replaced by a program that records its arguments"]
TECHNIQUE = "property-based testing: generated marker trees and requirement lists against an evaluator; recorded commands"

NAMES = ["foo", "Bar", "ruamel.yaml", "my-lib", "zope_interface", "a1"]
EXTRAS = ["socks", "all", "gpu-x"]
SPECS = ["", ">=1.0", "==2.3.1", "~=1.4", ">=1,<2", "!=1.5", "<3.0,>=1.1,!=1.3", "==1.*", "===1.0+local", "==2.1.0+cu118", ">=1.0rc1"]
URLS = ["https://example.com/foo-1.0.tar.gz", "git+https://github.com/a/b.git@v1", "https://example.com/x.whl#sha256=abc", "file:///tmp/x.whl"]
VCS = ["git+https://github.com/a/b.git", "https://example.com/a-1.0.whl", "git+ssh://git@x/y.git@main#egg=z", "http://h/p.zip ; has_cuda", "hg+https://h/r", "svn+https://h/r", "bzr+https://h/r"]
BAD = ["foo bar", "==1.0", "foo; python_version >>> '3'", "foo[", "foo; ", "foo >=1,,", "-r other.txt", "foo; has_cuda and", "foo; #nowhere# == 'x'",
       "#system_surely-not-installed-here#", "foo; (has_cuda", "#comment", ""]


def render_req(r):
    s = r["name"]
    if r["extras"]:
        s += "[" + ",".join(r["extras"]) + "]"
    if r["url"] is not None:
        s += " @ " + URLS[r["url"]]
    else:
        s += " " * r["sp"] + SPECS[r["spec"]]
    return s


def quote(v, q):
    return f"{q}{v}{q}"


def leaf_text(m, q):
    k = m["k"]
    if k == "std":
        return f"{m['var']} {m['op']} {quote(m['val'], q)}"
    if k == "rev":
        return f"{quote(m['val'], q)} {m['op']} {m['var']}"
    if k == "flag":
        return m["var"]
    if k == "flageq":
        return f"{m['var']} {m['op']} {m['val']}" if m["val"] in ("True", "False") else f"{m['var']} {m['op']} {quote(m['val'], q)}"
    if k in ("cver", "arch"):
        return f"{m['var']} {m['op']} {quote(m['val'], q)}"
    if k == "var":
        v = m["val"]
        c = quote(v, q) if isinstance(v, str) else repr(v)
        return f"#{m['var']}# {m['op']} {c}"
    if k == "stdvar":
        return f"{m['std']} {m['op']} #{m['var']}#"
    raise KeyError(k)


def text(m, q):
    if m["k"] in ("and", "or"):
        return f" {m['k']} ".join(("(" + text(x, q) + ")") if x["k"] in ("and", "or") else text(x, q) for x in m["c"])
    if m["k"] == "not":
        return "not (" + text(m["c"][0], q) + ")"
    return leaf_text(m, q)


OPS = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def compare(op, a, b):
    if a is None or b is None:
        return OPS[op](a, b) if op in ("==", "!=") else False
    return OPS[op](a, b)


def holds(m, env, variables):
    k = m["k"]
    if k == "and":
        return all(holds(x, env, variables) for x in m["c"])
    if k == "or":
        return any(holds(x, env, variables) for x in m["c"])
    if k == "not":
        return not holds(m["c"][0], env, variables)
    if k in ("std", "rev"):
        a, b = env[m["var"]], m["val"]
        if m["var"].startswith("python"):
            a, b = Version(a), Version(b)
        return OPS[m["op"]](a, b) if k == "std" else OPS[m["op"]](b, a)
    if k == "flag":
        return bool(env[m["var"]])
    if k == "flageq":
        return OPS[m["op"]](bool(env[m["var"]]), m["val"].lower() == "true")
    if k == "cver":
        return compare(m["op"], env[m["var"]] and Version(env[m["var"]]), Version(m["val"]))
    if k == "arch":
        return compare(m["op"], env[m["var"]] and int(env[m["var"]][3:]), int(m["val"][3:]))
    if k == "var":
        return compare(m["op"], variables[m["var"]], m["val"])
    if k == "stdvar":
        return OPS[m["op"]](Version(env[m["std"]]), Version(variables[m["var"]]))


def leaves(m):
    return [y for x in m["c"] for y in leaves(x)] if "c" in m else [m]


def same_requirement(got, want):
    try:
        g = Requirement(got)
    except Exception as e:
        return f"{got!r} is no requirement: {e}"
    w = Requirement(want)
    for a in ("name", "extras", "specifier", "url"):
        if getattr(g, a) != getattr(w, a):
            return f"{a}: {getattr(g, a)!s} instead of {getattr(w, a)!s} ({got!r} from {want!r})"
    if g.marker is not None:
        return f"marker left in {got!r}"


def markers_run(c):
    env = default_environment()
    env.update(c["std"])
    env.update(c["env"])
    variables = c["vars"]
    entries, expect, bad = [], [], 0
    rich = False
    dropped = 0
    for e in c["entries"]:
        if e["t"] == "vcs":
            entries.append(VCS[e["i"] % len(VCS)])
            expect.append(("same", entries[-1]))
        elif e["t"] == "system":
            n = ["numpy", "packaging", "psutil"][e["i"] % 3]
            entries.append(f"#system_{n}#")
            expect.append(("req", f"{n}=={installed_version(n).split('+')[0]}"))
        elif e["t"] == "bad":
            entries.append(BAD[e["i"] % len(BAD)])
            bad += 1
        else:
            r = render_req(e["req"])
            rich = rich or bool(e["req"]["extras"]) or e["req"]["url"] is not None or "," in r
            if e["marker"] is None:
                entries.append(" " * e["pad"] + r)
                expect.append(("req", r))
            else:
                m = text(e["marker"], e["q"])
                sep = " ; " if e["req"]["url"] is not None else ";" + " " * e["pad"]
                entries.append(r + sep + m)
                if holds(e["marker"], env, variables):
                    expect.append(("req", r))
                else:
                    dropped += 1
    before = list(entries)
    vbefore = json.dumps(variables, sort_keys=True)
    try:
        with patch("xoscar.virtualenv.core.get_env", return_value=dict(env)):
            got = VirtualEnvManager.process_packages(entries, **variables) if c["whole"] else None
            if got is None:
                if any(x.startswith("#system") for x in entries):
                    got = VirtualEnvManager.process_packages(entries, **variables)
                else:
                    got = filter_requirements(entries, **variables)
    except Exception as ex:
        if bad:
            return {"nontrivial": False, "labels": ["rejected"]}
        raise Violation(f"raised {ex!r} for {entries} with {variables} in {c['env']} {c['std']}")
    if bad:
        raise Violation(f"malformed entries were accepted: {entries} gave {got}")
    if entries != before or json.dumps(variables, sort_keys=True) != vbefore:
        raise Violation(f"the arguments were changed: {before} to {entries}")
    if len(got) != len(expect):
        raise Violation(f"{entries} with {variables} in {c['env']} {c['std']}: kept {got}, expected {[x[1] for x in expect]}")
    for g, (kind, w) in zip(got, expect):
        if kind == "same":
            if g != w:
                raise Violation(f"{w!r} was passed on as {g!r}")
        else:
            problem = same_requirement(g, w)
            if problem:
                raise Violation(f"{problem}; {entries} with {variables} in {c['env']} {c['std']} gave {got}")
    return {"nontrivial": bool(rich or (dropped and expect)), "labels": sorted({e["t"] for e in c["entries"]})}


def substitute_run(c):
    names = c["names"]
    values = {n: v for n, v in zip(names, c["values"])}
    template = "".join(p if isinstance(p, str) else "#%s#" % (names + ["other"])[p % (len(names) + 1)] for p in c["parts"])

    def literal(v):
        if v is None or isinstance(v, (bool, int, float)):
            return str(v)
        return None
    got = substitute_variables(template, values)
    # walk: literal parts stay, placeholders become a literal that evaluates to the value
    import ast
    pos = 0
    for p in c["parts"]:
        if isinstance(p, str):
            if not got.startswith(p, pos):
                raise Violation(f"text {p!r} changed: {template!r} with {values} gave {got!r}")
            pos += len(p)
            continue
        n = (names + ["other"])[p % (len(names) + 1)]
        if n not in values:
            if not got.startswith(f"#{n}#", pos):
                raise Violation(f"unknown placeholder changed: {template!r} with {values} gave {got!r}")
            pos += len(n) + 2
            continue
        v = values[n]
        lit = literal(v)
        if lit is not None:
            if not got.startswith(lit, pos):
                raise Violation(f"value of {n} wrong: {template!r} with {values} gave {got!r}")
            pos += len(lit)
            continue
        # a string literal
        if got[pos:pos + 1] not in "'\"" or pos >= len(got):
            raise Violation(f"value of {n} is not a string literal: {template!r} with {values} gave {got!r}")
        q, end = got[pos], pos + 1
        while end < len(got) and got[end] != q:
            end += 2 if got[end] == "\\" else 1
        try:
            ok = ast.literal_eval(got[pos:end + 1]) == v
        except Exception:
            ok = False
        if not ok:
            raise Violation(f"value of {n} became {got[pos:end + 1]}: {template!r} with {values} gave {got!r}")
        pos = end + 1
    if pos != len(got):
        raise Violation(f"{template!r} with {values} gave {got!r}")
    return {"nontrivial": any(not isinstance(p, str) for p in c["parts"])}


UV = """#!%s -S
import json, sys, os
args = sys.argv[1:]
rec = {"args": args}
if "--constraint" in args:
    rec["constraints"] = open(args[args.index("--constraint") + 1]).read().split()
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "calls"), "a") as f:
    f.write(json.dumps(rec) + "\\n")
if "--dry-run" in args:
    plan = os.path.join(os.path.dirname(os.path.abspath(__file__)), "plan")
    sys.stderr.write("Resolved packages\\n" + open(plan).read())
if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "fail")):
    sys.exit(3)
"""


def setup():
    os.makedirs(FOLDER, exist_ok=True)
    p = os.path.join(FOLDER, "uv")
    with open(p, "w") as f:
        f.write(UV % sys.executable)
    os.chmod(p, 0o755)
    os.makedirs(os.path.join(FOLDER, "env"), exist_ok=True)


def teardown():
    shutil.rmtree(FOLDER, ignore_errors=True)


INSTALLED = ["numpy", "packaging", "psutil", "cloudpickle"]


def install_run(c):
    calls = os.path.join(FOLDER, "calls")
    for n in ("calls", "fail"):
        try:
            os.unlink(os.path.join(FOLDER, n))
        except OSError:
            pass
    specs, must, may = [], [], []
    plan, final_plan = [], []
    for e in c["specs"]:
        if e["t"] == "vcs":
            s = [v for v in VCS if ";" not in v][e["i"] % 6]
            specs.append(s)
            must.append(("keep", s))
            continue
        if e["t"] == "new":
            n = f"surely-new-{e['i']}"
            s = n + (f"[{EXTRAS[0]}]" if e["extras"] else "") + ["", ">=1.0", "==2.0", " @ https://example.com/n.whl"][e["v"] % 4]
            specs.append(s)
            must.append(("any", s))
            if "@" not in s:
                plan.append(f"{n}==2.0")
            continue
        n = INSTALLED[e["i"] % len(INSTALLED)]
        have = installed_version(n)
        v = ["", f"=={have}", ">=0.0.1", "==0.0.1", ">9999", " @ https://example.com/n.whl"][e["v"] % 6]
        s = (n.upper() if e["up"] else n) + (f"[{EXTRAS[0]}]" if e["extras"] else "") + v
        specs.append(s)
        sat = e["v"] % 6 in (0, 1, 2)
        if sat and not e["extras"]:
            may.append((s, n, have))
        else:
            must.append(("any", s))
            if e["v"] % 6 == 3:
                plan.append(f"{n}==0.0.1")
            elif e["extras"] and sat:
                plan.append(f"{n}=={have}")
                plan.append("surely-extra==1.5")
    with open(os.path.join(FOLDER, "plan"), "w") as f:
        f.write("".join(f" + {p}\n" for p in plan))
    if c["fail"]:
        open(os.path.join(FOLDER, "fail"), "w").close()
    kw = dict(c["kw"])
    want_opts = []
    if kw.get("index_url"):
        want_opts.append(("-i", kw["index_url"]))
    for k, o in (("extra_index_url", "--extra-index-url"), ("find_links", "-f"), ("trusted_host", "--trusted-host")):
        v = kw.get(k)
        for x in ([v] if isinstance(v, str) else v or []):
            if x:
                want_opts.append((o, x))
    mgr = UVVirtualEnvManager(Path(FOLDER) / "env")
    err = None
    # the stand-in's output is of no interest
    try:
        mgr.install_packages(list(specs), skip_installed=c["skip"], **kw)
    except Exception as e:
        err = e
    recs = [json.loads(x) for x in open(calls)] if os.path.exists(calls) else []
    if c["fail"]:
        if err is None and recs:
            raise Violation(f"uv failed and nothing was raised: {specs}")
        return {"nontrivial": False, "labels": ["uv fails"]}
    if err is not None:
        raise Violation(f"install_packages raised {err!r} for {specs}")
    dry = [r for r in recs if "--dry-run" in r["args"]]
    real = [r for r in recs if "--dry-run" not in r["args"]]
    if len(real) > 1 or len(dry) > 1:
        raise Violation(f"uv was called {len(recs)} times")
    args = real[0]["args"] if real else []

    def among(s, args):
        if s in args:
            return True
        return any(x and not x.startswith("-") and not x.startswith("/") and "://" not in x.split(" @ ")[0] and same_requirement(x, s) is None for x in args)
    given = args + (dry[0]["args"] if dry else [])
    for kind, s in must:
        url = "://" in s
        if not among(s, args if (not c["skip"] or url) else given):
            raise Violation(f"requirement {s!r} was lost: {specs} skip={c['skip']} gave {recs}")
    if not c["skip"]:
        if not real and specs:
            raise Violation(f"nothing was installed: {specs}")
        order = [a for a in args[5:] if not a.startswith("--color")]
        pos = -1
        for i, s in enumerate(specs):
            nxt = next((j for j in range(pos + 1, len(order)) if among(s, [order[j]])), None)
            if nxt is None:
                raise Violation(f"order or content changed: {specs} gave {args}")
            pos = nxt
    else:
        for s, n, have in may:
            if not among(s, given) and dry and f"{n}=={have}" not in dry[0]["constraints"]:
                raise Violation(f"installed version of {n} is not kept: {specs} gave {recs}")
        # the whole plan that is not installed is installed
        for p in plan:
            n, v = p.split("==")
            try:
                same = installed_version(n) == v
            except Exception:
                same = False
            if not same and dry and not among(p, args):
                raise Violation(f"{p} of uv's plan was not installed: {specs} gave {recs}")
        for a in args:
            if a.split("==")[0] in INSTALLED and "==" in a and installed_version(a.split("==")[0]) == a.split("==")[1] and not dry:
                raise Violation(f"installed again: {a}")
    if real:
        text = list(zip(args, args[1:]))
        for o in want_opts:
            if o not in text:
                raise Violation(f"option {o} lost: {args}")
        if bool(kw.get("no_build_isolation")) != ("--no-build-isolation" in args):
            raise Violation(f"--no-build-isolation: {args}")
        if args[:2] != ["pip", "install"] or ("-p", str(mgr.env_path)) not in text:
            raise Violation(f"wrong command {args}")
    return {"nontrivial": len(specs) > 1, "labels": [("skip" if c["skip"] else "all")]}


def req():
    return st.fixed_dictionaries({"name": st.sampled_from(NAMES), "extras": st.lists(st.sampled_from(EXTRAS), max_size=2, unique=True), "sp": st.integers(0, 1),
                                  "spec": st.integers(0, len(SPECS) - 1), "url": weighted((3, st.none()), (1, st.integers(0, len(URLS) - 1)))})


def marker():
    op = st.sampled_from(sorted(OPS))
    eq = st.sampled_from(["==", "!="])
    pyv = st.sampled_from(["3.7", "3.9", "3.10", "3.12", "3.13", "4.0"])
    std = st.one_of(
        st.builds(lambda k, v, o, x: {"k": k, "var": v, "op": o, "val": x}, st.sampled_from(["std", "std", "rev"]), st.sampled_from(["sys_platform", "platform_system", "os_name"]), eq, st.sampled_from(["linux", "win32", "Linux", "posix", "nt"])),
        st.builds(lambda k, o, x: {"k": k, "var": "python_version", "op": o, "val": x}, st.sampled_from(["std", "std", "rev"]), op, pyv))
    custom = st.one_of(
        st.builds(lambda v: {"k": "flag", "var": v}, st.sampled_from(["has_cuda", "has_npu"])),
        st.builds(lambda v, o, x: {"k": "flageq", "var": v, "op": o, "val": x}, st.sampled_from(["has_cuda", "has_npu"]), eq, st.sampled_from(["True", "False", "true", "false"])),
        st.builds(lambda o, x: {"k": "cver", "var": "cuda_version", "op": o, "val": x}, op, st.sampled_from(["11.8", "12.1", "12.10", "12", "13", "12.1.1"])),
        st.builds(lambda o, x: {"k": "arch", "var": "cuda_arch", "op": o, "val": x}, op, st.sampled_from(["sm_70", "sm_80", "sm_120", "sm_90"])))
    var = st.one_of(
        st.builds(lambda o, x: {"k": "var", "var": "engine", "op": o, "val": x}, eq, st.sampled_from(["vllm", "sglang", "x y", "a;b"])),
        st.builds(lambda o, x: {"k": "var", "var": "count", "op": o, "val": x}, op, st.integers(-1, 5)),
        st.builds(lambda o, x: {"k": "var", "var": "flag", "op": o, "val": x}, eq, st.booleans()),
        st.builds(lambda o: {"k": "var", "var": "nothing", "op": o, "val": None}, eq),
        st.builds(lambda o: {"k": "stdvar", "std": "python_version", "var": "pyv", "op": o}, op))

    def tree(leaf, nots):
        def extend(ch):
            opts = [st.builds(lambda k, c: {"k": k, "c": c}, st.sampled_from(["and", "or"]), st.lists(ch, min_size=2, max_size=3))]
            if nots:
                opts.append(ch.map(lambda x: {"k": "not", "c": [x]}))
            return st.one_of(*opts)
        return st.recursive(leaf, extend, max_leaves=5)
    return st.one_of(tree(std, False), tree(st.one_of(std, custom), True), tree(st.one_of(std, var), True), tree(st.one_of(std, custom, var), True))


def markers_strat():
    entry = weighted((8, st.fixed_dictionaries({"t": st.just("req"), "req": req(), "marker": weighted((1, st.none()), (3, marker())), "pad": st.integers(0, 2), "q": st.sampled_from(["'", '"'])})),
                     (1, st.fixed_dictionaries({"t": st.sampled_from(["vcs", "system"]), "i": st.integers(0, 20)})))
    good = st.lists(entry, min_size=1, max_size=6)
    bad = st.builds(lambda a, i, at: a[:at] + [{"t": "bad", "i": i}] + a[at:], st.lists(entry, max_size=2), st.integers(0, 40), st.integers(0, 2))
    return st.fixed_dictionaries({
        "entries": weighted((9, good), (1, bad)), "whole": st.booleans(),
        "std": st.fixed_dictionaries({"sys_platform": st.sampled_from(["linux", "win32"]), "python_version": st.sampled_from(["3.9", "3.10", "3.12"])}),
        "env": st.one_of(st.fixed_dictionaries({"has_cuda": st.just(False), "cuda_version": st.sampled_from([None, "12.1"]), "cuda_arch": st.none(), "has_npu": st.booleans()}),
                         st.fixed_dictionaries({"has_cuda": st.just(True), "cuda_version": st.sampled_from(["11.8", "12.1", "12.10"]), "cuda_arch": st.sampled_from(["sm_70", "sm_80", "sm_120"]), "has_npu": st.just(False)})),
        "vars": st.fixed_dictionaries({"engine": st.sampled_from(["vllm", "sglang", "x y", "a;b", 'q"q']), "count": st.integers(-1, 5), "flag": st.booleans(), "nothing": st.sampled_from([None, "vllm"]), "pyv": st.sampled_from(["3.9", "3.10", "3.12", "3.13"])})})


def substitute_strat():
    val = st.one_of(st.none(), st.booleans(), st.integers(-9, 99), st.sampled_from([0.5, 1.25]), st.text(max_size=6), st.sampled_from(["#b#", "#a#", '"', "\\", "é", "\U0001f600", "a'b", "\n", "#other#"]))
    part = st.one_of(st.integers(0, 3), st.sampled_from([" == ", ' "x" ', " and ", " a ", "", " # ", "##", "x#y"]))
    return st.fixed_dictionaries({"names": st.just(["a", "b", "long_name"]), "values": st.lists(val, min_size=0, max_size=3), "parts": st.lists(part, min_size=1, max_size=6).filter(
        lambda ps: "".join("" if not isinstance(p, str) else p for p in ps).count("#") == 0 or all(isinstance(p, str) for p in ps))})


def install_strat():
    spec = st.one_of(st.fixed_dictionaries({"t": st.just("vcs"), "i": st.integers(0, 5)}),
                     st.fixed_dictionaries({"t": st.just("new"), "i": st.integers(0, 30), "v": st.integers(0, 3), "extras": st.booleans()}),
                     st.fixed_dictionaries({"t": st.just("old"), "i": st.integers(0, 3), "v": st.integers(0, 5), "extras": st.sampled_from([False, False, True]), "up": st.booleans()}))
    ident = lambda e: e["i"] if e["t"] == "old" else (e["t"], e["i"])
    url = st.sampled_from(["https://mirror/simple", "https://m2/simple"])
    return st.fixed_dictionaries({
        "specs": st.lists(spec, min_size=1, max_size=6, unique_by=lambda e: str(ident(e))), "skip": st.booleans(), "fail": st.sampled_from([False] * 7 + [True]),
        "kw": st.fixed_dictionaries({}, optional={"index_url": url, "extra_index_url": st.one_of(url, st.lists(url, max_size=2)), "find_links": st.one_of(url, st.lists(url, max_size=2)),
                                                  "trusted_host": st.one_of(st.just("mirror"), st.lists(st.just("mirror"), max_size=2)), "no_build_isolation": st.booleans(), "log": st.booleans()})})


SEARCHES = [
    Search("markers", markers_strat, markers_run, teardown=teardown, quick=6000, thorough=300000, shards=3, rule=RULE),
    Search("substitute", substitute_strat, substitute_run, teardown=teardown, quick=4000, thorough=100000, shards=1, rule=RULE),
    Search("install", install_strat, install_run, setup=setup, teardown=teardown, quick=400, thorough=20000, shards=4, rule=RULE),
]
