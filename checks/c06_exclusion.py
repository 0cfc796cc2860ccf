"""C06: a stateful actor runs one method at a time, stateless and lock-free ones do not wait."""
import asyncio
import threading

from hypothesis import strategies as st

import xoscar as mo
from vf.actors import Cluster, spin
from vf.core import Search, Violation, bounded, run_async, weighted
from xoscar.batch import extensible
from xoscar.core import no_lock

RULE = ("exclusion: 2-6 overlapping calls (plain, async, async generator, batched, remote generators) of one stateful actor by generated "
        "routes, start times, bodies (suspensions, yields, failures) and cancellations; concurrency: calls of a stateless actor or of "
        "lock-free methods that can only finish if all of them are inside at once. Non-trivial = bodies that suspend really overlapped "
        "in time (at least two calls pending at once)")
ASSUMPTIONS = ["a batched call counts as one invocation (its items may interleave with each other)",
               "start-up and shut-down hooks are not under the lock (by design of the code base) and are not examined"]
TECHNIQUE = "property-based testing: generated overlapping call schedules, exclusion monitor inside the method bodies"


class Monitor:
    def __init__(self):
        self.lock = threading.Lock()
        self.inside = {}
        self.bad = []
        self.entered = 0

    def enter(self, cid):
        with self.lock:
            if self.inside:
                self.bad.append(f"call {cid} entered while {sorted(self.inside)} inside")
            self.inside[cid] = self.inside.get(cid, 0) + 1
            self.entered += 1

    def leave(self, cid):
        with self.lock:
            n = self.inside.get(cid, 0) - 1
            if n <= 0:
                self.inside.pop(cid, None)
            else:
                self.inside[cid] = n


MON = Monitor()


class Fail(Exception):
    pass


async def nap(n, fail):
    await spin(n)
    if fail:
        raise Fail("awaited")


async def body(cid, steps):
    MON.enter(cid)
    try:
        for s in steps:
            if s[0] == "fail":
                raise Fail("body")
            if s[0] == "catch":
                try:
                    await spin(s[1])
                except asyncio.CancelledError:
                    await spin(2)
                    raise
            else:
                await spin(s[1])
    finally:
        MON.leave(cid)
    return cid


def sbody(cid, steps):
    MON.enter(cid)
    try:
        for s in steps:
            if s[0] == "fail":
                raise Fail("body")
    finally:
        MON.leave(cid)
    return cid


async def gbody(cid, steps, items):
    inside = True
    MON.enter(cid)
    try:
        for s in steps:
            if s[0] == "fail":
                raise Fail("body")
            if s[0] == "spin":
                await spin(s[1])
                continue
            MON.leave(cid)
            inside = False
            try:
                yield (s[1] if items else nap(s[1], s[0] == "catch"))
            except GeneratorExit:
                raise
            except Fail:
                MON.enter(cid)
                inside = True
            except BaseException:
                MON.enter(cid)
                inside = True
                raise
            else:
                MON.enter(cid)
                inside = True
    finally:
        if inside:
            MON.leave(cid)
    if not items:
        raise mo.Return(cid)


class Methods:
    def ping(self):
        return "pong"

    def plain(self, cid, steps):
        return sbody(cid, steps)

    async def coro(self, cid, steps):
        return await body(cid, steps)

    def plain_coro(self, cid, steps):
        # a plain method returning a coroutine
        return body(cid, steps)

    async def agen(self, cid, steps):
        g = gbody(cid, steps, False)
        return g

    async def agen2(self, cid, steps):
        # an async generator method itself
        inside = True
        MON.enter(cid)
        try:
            for s in steps:
                if s[0] == "fail":
                    raise Fail("body")
                if s[0] == "spin":
                    await spin(s[1])
                    continue
                MON.leave(cid)
                inside = False
                try:
                    yield nap(s[1], s[0] == "catch"), 1, nap(1, False)
                except GeneratorExit:
                    raise
                except Fail:
                    MON.enter(cid)
                    inside = True
                except BaseException:
                    MON.enter(cid)
                    inside = True
                    raise
                else:
                    MON.enter(cid)
                    inside = True
        finally:
            if inside:
                MON.leave(cid)
        raise mo.Return(cid)

    @extensible
    def bsync(self, cid, steps):
        return sbody(cid, steps)

    @bsync.batch
    def bsync(self, args_list, kwargs_list):
        return [sbody(*a, **k) for a, k in zip(args_list, kwargs_list)]

    @extensible
    async def basync(self, cid, steps):
        return await body(cid, steps)

    @basync.batch
    async def basync(self, args_list, kwargs_list):
        return [await body(*a, **k) for a, k in zip(args_list, kwargs_list)]

    @mo.generator
    async def xagen(self, cid, steps):
        return gbody(cid, steps, True)

    @mo.generator
    def xgen(self, cid, steps):
        MON.enter(cid)
        inside = True
        try:
            for s in steps:
                MON.leave(cid)
                inside = False
                yield s[1]
                MON.enter(cid)
                inside = True
                if s[0] == "fail":
                    raise Fail("body")
        finally:
            if inside:
                MON.leave(cid)


class Stateful(Methods, mo.Actor):
    pass


PLAIN_KINDS = ["plain", "coro", "coro", "plain_coro", "agen", "agen2", "agen2", "bsync", "basync", "batch_s", "batch_a", "xagen", "xgen"]


async def call(ref, kind, cid, steps):
    if kind == "batch_s":
        return await ref.bsync.batch(*[ref.bsync.delay(cid, steps) for _ in range(3)])
    if kind == "batch_a":
        return await ref.basync.batch(*[ref.basync.delay(cid, steps=steps) for _ in range(3)])
    r = await getattr(ref, kind)(cid, steps)
    if kind in ("xagen", "xgen"):
        async for _ in r:
            await spin(1)
        return cid
    return r


async def exclusion(c):
    global MON
    MON = mon = Monitor()
    async with Cluster(1, tcp=any(x["route"] == "tcp" for x in c["calls"])) as cl:
        a = await cl.create(Stateful, where=c["host"], uid="a")
        pending = [0, 0]

        async def one(i, x):
            await spin(x["start"])
            ref = await cl.ref(a.address, a.uid, x["route"])
            if x["tell"]:
                await getattr(ref, "coro").tell(i, x["steps"])
                return i
            t = asyncio.ensure_future(call(ref, x["kind"], i, x["steps"]))
            pending[0] += 1
            pending[1] = max(pending)
            try:
                if x["cancel"] is not None:
                    await spin(x["cancel"])
                    t.cancel()
                return await t
            finally:
                pending[0] -= 1

        tasks = [asyncio.ensure_future(one(i, x)) for i, x in enumerate(c["calls"])]
        await bounded(asyncio.wait(tasks), 15, "calls")
        for route in ("local", "msg"):
            ref = await cl.ref(a.address, a.uid, route)
            if await bounded(ref.ping(), 10, "the next call of the actor") != "pong":
                raise Violation("ping")
        for i, (t, x) in enumerate(zip(tasks, c["calls"])):
            if t.cancelled():
                if x["cancel"] is None:
                    raise Violation(f"call {i} was cancelled by nobody")
                continue
            e = t.exception()
            if e is not None and not isinstance(e, Fail):
                raise Violation(f"call {i} raised {e!r}")
            if e is None and t.result() not in (i, [i] * 3):
                raise Violation(f"call {i} returned {t.result()!r}")
            if e is None and any(s[0] == "fail" for s in x["steps"]) and not x["tell"]:
                raise Violation(f"call {i} returned {t.result()!r} although its body fails")
        for _ in range(50):
            if not mon.inside:
                break
            await spin(5)
        return mon, pending[1]


def run_exclusion(c):
    mon, overlap = run_async(exclusion, c)
    if mon.bad:
        raise Violation("; ".join(mon.bad[:5]))
    return {"nontrivial": overlap > 1 and mon.entered > 2,
            "labels": sorted({x["kind"] for x in c["calls"]} | {x["route"] for x in c["calls"]})
            + (["cancel"] if any(x["cancel"] is not None for x in c["calls"]) else [])}


def strat_exclusion():
    step = st.one_of(st.tuples(st.just("spin"), st.integers(0, 6)), st.tuples(st.just("y"), st.integers(0, 5)),
                     st.tuples(st.just("catch"), st.integers(0, 5)), st.tuples(st.just("spin"), st.integers(0, 6)),
                     st.tuples(st.just("y"), st.integers(0, 5)), st.tuples(st.just("fail"), st.just(0))).map(list)
    call = st.fixed_dictionaries({
        "kind": st.sampled_from(PLAIN_KINDS), "route": st.sampled_from(["local", "local", "msg", "msg", "tcp", "main"]),
        "start": st.integers(0, 8), "steps": st.lists(step, max_size=4), "tell": st.sampled_from([False] * 6 + [True]),
        "cancel": weighted((3, st.none()), (1, st.integers(0, 14)))})
    return st.fixed_dictionaries({"host": st.integers(0, 1), "calls": st.lists(call, min_size=2, max_size=6)})


# ------------------------------------------------------------------ concurrency
class Barrier:
    def __init__(self, n):
        self.n, self.count, self.ev = n, 0, asyncio.Event()

    async def arrive(self):
        self.count += 1
        if self.count >= self.n:
            self.ev.set()
        await self.ev.wait()


BAR = None


class Free(mo.StatelessActor):
    async def coro(self):
        await BAR.arrive()
        return "done"

    async def agen(self):
        yield asyncio.sleep(0)
        await BAR.arrive()
        yield BAR.ev.wait()
        raise mo.Return("done")

    @extensible
    async def ext(self):
        await BAR.arrive()
        return "done"

    @ext.batch
    async def ext(self, args_list, kwargs_list):
        await BAR.arrive()
        return ["done"] * len(args_list)

    @no_lock
    async def nolock(self):
        await BAR.arrive()
        return "done"


class Locked(mo.Actor):
    async def coro(self):
        await BAR.arrive()
        return "done"

    async def agen(self):
        # suspended at a yield: others may run
        yield BAR.arrive()
        raise mo.Return("done")

    @no_lock
    async def nolock(self):
        await BAR.arrive()
        return "done"

    @no_lock
    async def nolock2(self, x=1):
        await BAR.arrive()
        yield asyncio.sleep(0)
        raise mo.Return("done")

    @extensible
    @no_lock
    async def ext(self):
        await BAR.arrive()
        return "done"

    @ext.batch
    async def ext(self, args_list, kwargs_list):
        await BAR.arrive()
        return ["done"] * len(args_list)


@no_lock
class AllFree(mo.Actor):
    async def coro(self):
        await BAR.arrive()
        return "done"

    @extensible
    async def ext(self):
        await BAR.arrive()
        return "done"

    @ext.batch
    async def ext(self, args_list, kwargs_list):
        await BAR.arrive()
        return ["done"] * len(args_list)


CLASSES = {"free": (Free, ["coro", "agen", "ext", "extb", "nolock"]), "locked": (Locked, ["nolock", "nolock", "agen", "ext", "extb"]),
           "allfree": (AllFree, ["coro", "ext", "extb"])}


async def concurrency(c):
    global BAR
    cls, kinds = CLASSES[c["cls"]]
    calls = [(kinds[k % len(kinds)], r, s) for k, r, s in c["calls"]]
    if c["cls"] == "locked" and c["holder"] is not None:
        # one call holding the lock; those with yields cannot start while it does
        calls = [(k if k != "agen" else "nolock", r, s) for k, r, s in calls]
        calls.insert(c["holder"] % (len(calls) + 1), ("coro", "msg", c["holder"]))
    BAR = Barrier(len(calls))
    async with Cluster(1, tcp=any(r == "tcp" for _, r, _ in calls)) as cl:
        a = await cl.create(cls, where=c["host"], uid="a")

        async def one(k, r, s):
            await spin(s)
            ref = await cl.ref(a.address, a.uid, r)
            if k == "extb":
                return (await ref.ext.batch(ref.ext.delay(), ref.ext.delay()))[0]
            return await getattr(ref, k)()

        try:
            out = await bounded(asyncio.gather(*[one(*x) for x in calls]), 8, "lock-free calls")
        finally:
            BAR.ev.set()
        if out != ["done"] * len(calls):
            raise Violation(f"results {out}")
        return calls


def run_concurrency(c):
    calls = run_async(concurrency, c)
    return {"nontrivial": len(calls) > 1, "labels": [c["cls"]] + sorted({k for k, _, _ in calls})}


def strat_concurrency():
    return st.fixed_dictionaries({
        "cls": st.sampled_from(["free", "free", "locked", "locked", "allfree"]), "host": st.integers(0, 1),
        "holder": st.one_of(st.none(), st.integers(0, 5)),
        "calls": st.lists(st.tuples(st.integers(0, 9), st.sampled_from(["local", "msg", "tcp", "main"]), st.integers(0, 5)).map(list),
                          min_size=1, max_size=5)})


SEARCHES = [
    Search("exclusion", strat_exclusion, run_exclusion, quick=7000, thorough=200000, shards=6, rule="overlapping calls of a stateful actor"),
    Search("concurrency", strat_concurrency, run_concurrency, quick=2000, thorough=40000, shards=2,
           rule="calls that can finish only when all are inside at once"),
]
