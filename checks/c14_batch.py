"""C14: a batched call equals its calls one by one."""
import inspect

from hypothesis import strategies as st

import xoscar as mo
from vf.actors import Cluster, spin
from vf.core import Search, Violation, bounded, run_async
from xoscar.batch import extensible

RULE = ("a case is a method (12 signatures x sync/async x single+batch, batch only, single only) of a plain object or an actor reached by a "
        "generated route, and a list of 0-6 delayed calls with valid positional/keyword/default spellings, some failing, sent as batch, "
        "one-way batch or single calls; non-trivial = at least two calls, or one with keyword or default arguments")
ASSUMPTIONS = ["an async batch may run its items concurrently; which of several failing items raises is not fixed then"]
TECHNIQUE = "property-based testing: differential against inspect.signature binding and one-by-one calls"

SIGS = ["a", "a, b", "a, b=2", "a=1, b=2, *rest", "*rest", "a, *, k", "a, *, k=7", "a, b=3, *rest, k=4, **kw", "**kw",
        "a, b=None, **kw", "", "a, /, b=1", "a, b, c=5, d=(1, 2)"]
MODES = ["both", "batch", "single"]
LOG = []          # ("single"|"batch", mid, canonical bound arguments)


class Bad(Exception):
    pass


def canon(bound):
    def c(x):
        if isinstance(x, dict):
            return ["d", sorted((k, c(v)) for k, v in x.items())]
        if isinstance(x, (list, tuple)):
            return ["l" if isinstance(x, list) else "t", [c(i) for i in x]]
        return x
    return c(bound)


def result(mid, bound):
    if "bad" in str(bound):
        raise Bad(str(canon(bound)))
    return (mid, canon(bound))


SRC = []
for i, sig in enumerate(SIGS):
    names = list(inspect.signature(eval(f"lambda {sig}: 0")).parameters)
    pack = "{" + ", ".join(f"'{n}': {n}" for n in names) + "}"
    full = f"self, {sig}" if sig else "self"
    for mode in MODES:
        for asy in (0, 1):
            mid = f"m{i}_{mode}_{asy}"
            d, aw = ("async def", "await spin(1)") if asy else ("def", "pass")
            SRC.append(f"""
    @extensible
    {d} {mid}({full}):
        {'raise NotImplementedError' if mode == 'batch' else 'pass'}
        {aw}
        LOG.append(('single', '{mid}', canon({pack})))
        return result('{mid}', {pack})
""")
            if mode != "single":
                SRC.append(f"""
    @{mid}.batch
    {d} {mid}(self, args_list, kwargs_list):
        {aw}
        out = []
        for a, k in zip(args_list, kwargs_list):
            b = self.{mid}.bind(*a, **k)._asdict()
            LOG.append(('batch', '{mid}', canon(b)))
            out.append(result('{mid}', b))
        return out
""")
SRC = """
class Mixin:
    @extensible
    def nothing(self, x):
        raise NotImplementedError

    @nothing.batch
    def nothing(self, args_list, kwargs_list):
        LOG.extend(('batch', 'nothing', a[0]) for a in args_list)

    @extensible
    async def anothing(self, x):
        raise NotImplementedError

    @anothing.batch
    async def anothing(self, args_list, kwargs_list):
        LOG.extend(('batch', 'anothing', a[0]) for a in args_list)
""" + "".join(SRC)
exec(compile(SRC, "<methods>", "exec"), globals())


class Obj(Mixin):
    pass


class BatchActor(Mixin, mo.Actor):
    def ping(self):
        return 1


class BatchStateless(Mixin, mo.StatelessActor):
    def ping(self):
        return 1


def reference(i, mid, args, kwargs):
    s = inspect.signature(eval(f"lambda {SIGS[i]}: 0"))
    b = s.bind(*args, **kwargs)
    b.apply_defaults()
    return canon(dict(b.arguments))


async def settle(v):
    return await v if inspect.isawaitable(v) else v


async def go(c):
    del LOG[:]
    i, mode, asy = c["sig"], c["mode"], c["async"]
    mid = f"m{i}_{mode}_{asy}"
    calls = [(tuple(a), dict(k)) for a, k in c["calls"]]

    async def drive(target, one_way_ok):
        m = getattr(target, mid)
        if c["how"] == "single":
            out = []
            for a, k in calls:
                try:
                    out.append(("ok", await settle(m(*a, **k))))
                except Bad as e:
                    out.append(("bad", e.args[0]))
            return out
        delays = [m.delay(*a, **k) for a, k in calls]
        try:
            if c["how"] == "tell" and one_way_ok:
                await m.batch(*delays, send=False)
                for _ in range(200):
                    if len(LOG) >= len(calls):
                        break
                    await spin(2)
                await bounded(target.ping(), 10, "ping after one-way batch")
                return None
            return [("ok", x) for x in await settle(m.batch(*delays))]
        except Bad as e:
            return ("bad", e.args[0])

    if c["target"] == "obj":
        return mid, calls, await drive(Obj(), False)
    async with Cluster(1, tcp=c["target"] == "tcp") as cl:
        a = await cl.create(BatchStateless if c["stateless"] else BatchActor, where=c["host"], uid="a")
        ref = await cl.ref(a.address, a.uid, c["target"])
        return mid, calls, await bounded(drive(ref, True), 15, "batch")


def run(c):
    mid, calls, out = run_async(go, c)
    want = [reference(c["sig"], mid, a, k) for a, k in calls]
    bad = [w for w in want if "bad" in str(w)]
    ran = [x[2] for x in LOG]
    if any(x[1] != mid for x in LOG):
        raise Violation(f"another method ran: {LOG}")
    where = f"{mid} {calls}"
    if c["how"] == "single":
        for w, o in zip(want, out):
            exp = ("bad", str(w)) if w in bad else ("ok", (mid, w))
            if o != exp:
                raise Violation(f"{where}: got {o}, want {exp}")
        if ran != want:
            raise Violation(f"{where}: ran with {ran}, want {want}")
    elif not bad:
        if out is not None and out != [("ok", (mid, w)) for w in want]:
            raise Violation(f"{where}: got {out}, want {want}")
        if sorted(map(str, ran)) != sorted(map(str, want)) or (not c["async"] and ran != want):
            raise Violation(f"{where}: ran with {ran}, want {want}")
    elif out is not None:
        if out[0] != "bad" or out[1] not in [str(b) for b in bad]:
            raise Violation(f"{where}: got {out}, want failure of one of {bad}")
    if c["mode"] != "single" and c["how"] != "single" and len(calls) > 1 and any(x[0] != "batch" for x in LOG):
        raise Violation(f"{where}: the batch implementation was not used: {LOG}")
    return {"nontrivial": len(calls) > 1 or any(k or len(a) < len(SIGS[c["sig"]].split(",")) for a, k in calls),
            "labels": [c["target"], c["how"], c["mode"], "async" if c["async"] else "sync", f"n{min(len(calls), 3)}"] + (["fails"] if bad else [])}


@st.composite
def strat(draw):
    i = draw(st.integers(0, len(SIGS) - 1))
    s = inspect.signature(eval(f"lambda {SIGS[i]}: 0"))
    val = st.one_of(st.integers(-9, 9), st.sampled_from(["", "x", None, [1], {"q": 1}]), st.integers(-9, 9))
    if draw(st.integers(0, 5)) == 0:
        val = st.one_of(val, val, st.just("bad"))
    calls = []
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4, 6]))):
        args, kwargs, kwmode = [], {}, False
        for p in s.parameters.values():
            if p.kind is p.VAR_POSITIONAL:
                if not kwmode:
                    args += draw(st.lists(val, max_size=3))
            elif p.kind is p.VAR_KEYWORD:
                for n in draw(st.lists(st.sampled_from(["z1", "z2", "args", "x", "func"]), unique=True, max_size=3)):
                    kwargs[n] = draw(val)
            elif p.kind is p.KEYWORD_ONLY:
                if p.default is p.empty or draw(st.booleans()):
                    kwargs[p.name] = draw(val)
            else:
                if p.default is not p.empty and draw(st.booleans()):
                    kwmode = True
                    continue
                if p.kind is p.POSITIONAL_ONLY:
                    args.append(draw(val))
                elif kwmode or draw(st.booleans()):
                    kwmode = True
                    kwargs[p.name] = draw(val)
                else:
                    args.append(draw(val))
        items = list(kwargs.items())
        if draw(st.booleans()):
            items.reverse()
        calls.append([args, [list(x) for x in items]])
    return {"sig": i, "mode": draw(st.sampled_from(MODES)), "async": draw(st.integers(0, 1)),
            "how": draw(st.sampled_from(["batch", "batch", "batch", "single", "tell"])), "stateless": draw(st.booleans()),
            "host": draw(st.integers(0, 1)), "target": draw(st.sampled_from(["obj", "local", "msg", "tcp", "main"])), "calls": calls}


async def none_go(c):
    del LOG[:]
    name = "anothing" if c["async"] else "nothing"
    if c["target"] == "obj":
        r = await settle(getattr(Obj(), name)(c["x"]))
    else:
        async with Cluster(1, tcp=c["target"] == "tcp") as cl:
            a = await cl.create(BatchActor, uid="a")
            ref = await cl.ref(a.address, a.uid, c["target"])
            r = await getattr(ref, name)(c["x"])
    if r is not None or LOG != [("batch", name, c["x"])]:
        raise Violation(f"{r} {LOG}")
    return {"labels": [c["target"]]}


def run_none(c):
    """a batch implementation without results"""
    return run_async(none_go, c)


def strat_none():
    return st.fixed_dictionaries({"async": st.integers(0, 1), "target": st.sampled_from(["obj", "local", "msg", "tcp", "main"]), "x": st.integers()})


SEARCHES = [
    Search("batch", strat, run, quick=16000, thorough=300000, shards=7, rule=RULE),
    Search("no_result", strat_none, run_none, quick=100, thorough=500, shards=1, rule="single call of a batch-only method without results"),
]
