"""C08: calls from one caller to one actor start in the order issued."""
import asyncio

from hypothesis import strategies as st

import xoscar as mo
from vf.actors import Cluster, spin
from vf.core import Search, Violation, bounded, run_async
from vf.realpool import RealPool
from xoscar.core import ActorRef

RULE = ("1-4 concurrent callers, each sending 1-30 messages (awaited call, task, tell, batch, delayed tell) of generated sizes through its own "
        "references to 1-3 actors (stateful or stateless; plain, coroutine, generator, lock-free methods), in one process or over real "
        "processes with callers inside actors; non-trivial = some caller has at least 3 messages in flight to one actor")
ASSUMPTIONS = [
    "one caller keeps to one reference per actor; a message counts as issued once it has been handed over: an awaited tell, or a task that "
    "had its first step (tasks created one after another qualify together)",
    "lock-free methods are ordered among themselves only: they do not queue for the actor's lock; "
    "so are methods written as asynchronous generators, whose body begins one turn of the lock after the call",
    "delayed tells are only checked to run exactly once",
]
TECHNIQUE = "property-based testing: generated send histories, per-caller order of method starts against issue order"

GATES = {}


class Ops:
    def __init__(self):
        super().__init__()
        self.log = []

    def plain(self, token, payload=None, n=0):
        self.log.append(token)
        return token

    async def coro(self, token, payload=None, n=0):
        self.log.append(token)
        await spin(n)
        return token

    async def free(self, token, payload=None, n=0):
        self.log.append(token)
        yield asyncio.sleep(0.0002 * n)
        await spin(n)
        raise mo.Return(token)

    @mo.no_lock
    async def nolock(self, token, payload=None, n=0):
        self.log.append(token)
        await spin(n)
        return token

    @mo.extensible
    def ext(self, token, payload=None, n=0):
        self.log.append(token)
        return token

    @ext.batch
    def ext(self, args, kwargs):
        for a, k in zip(args, kwargs):
            self.log.append(a[0])
        return [a[0] for a in args]

    async def fail(self, token, payload=None, n=0):
        self.log.append(token)
        await spin(n)
        raise ValueError(token)

    async def gated(self, token, gate):
        self.log.append(token)
        await GATES[gate].wait()

    def get_log(self):
        return self.log


class Act(Ops, mo.Actor):
    pass


class ActStateless(Ops, mo.StatelessActor):
    pass


def payload(p):
    if p < 0:
        return [[i] for i in range(-p)]
    return b"%d" % (p % 10) * p


async def caller(ci, ops, refs, gate=None):
    """issue the operations one after another; returns what was expected per actor"""
    expect = {i: [] for i in range(len(refs))}
    delayed = {i: [] for i in range(len(refs))}  # in any order
    # lock-free methods and generators are ordered among themselves
    groups = [expect, {i: [] for i in range(len(refs))}, {i: [] for i in range(len(refs))}]
    tasks = []
    tells = []
    unstarted = False
    results = []

    async def watch(coro, token):
        try:
            results.append((token, await coro))
        except ValueError as e:
            results.append((token, e.args[0]))

    if gate is not None:
        token = (ci, "gated")
        expect[0].append(token)
        await bounded(refs[0].gated.tell(token, gate), 15, "tell of a method that waits")
    for i, (ai, how, meth, p, n, wait) in enumerate(ops):
        ai %= len(refs)
        token = (ci, i)
        ref = refs[ai]
        if gate is not None and not GATES[gate].is_set() and ai == 0 and how in ("call", "send", "batch", "taskbatch"):
            how = "tell"
        pay = payload(p)
        if unstarted and not how.startswith("task"):
            await asyncio.sleep(0)
        unstarted = False
        if tells and how != "tasktell":
            await asyncio.gather(*tells)
            tells = []
        m = getattr(ref, meth)
        if how == "later":
            delayed[ai].append(token)
            tasks.append(m.tell_delay(token, pay, n, delay=0.002 * (n % 3)))
            continue
        if how in ("batch", "taskbatch"):
            toks = [(ci, i, j) for j in range(n % 4)]
            expect[ai].extend(toks)
            c = ref.ext.batch(*[ref.ext.delay(t, pay) for t in toks])
            if how == "batch":
                got = list(await c)
                if got != toks:
                    raise Violation(f"batch {toks} returned {got}")
            else:
                async def w(c=c, toks=toks):
                    results.append((toks, list(await c)))
                tasks.append(asyncio.create_task(w()))
                unstarted = True
            continue
        groups[{"nolock": 1, "free": 2}.get(meth, 0)][ai].append(token)
        if how == "call":
            await watch(m(token, pay, n), token)
        elif how == "send":
            await watch(m.send(token, pay, n), token)
        elif how == "task":
            tasks.append(asyncio.create_task(watch(m(token, pay, n), token)))
            unstarted = True
        elif how == "tell":
            await m.tell(token, pay, n)
        elif how == "tasktell":
            tells.append(asyncio.create_task(_tell(m, token, pay, n)))
        if gate is not None and i == gate_at(ops):
            GATES[gate].set()
        if wait:
            await spin(wait)
    if gate is not None:
        GATES[gate].set()
    tasks += tells
    if tasks:
        await asyncio.gather(*tasks)
    for a in refs:
        await a.plain(None)
    for token, got in results:
        if got != token:
            raise Violation(f"call {token} returned {got}")
    return groups, delayed


async def _tell(m, token, pay, n):
    await m.tell(token, pay, n)


def gate_at(ops):
    return len(ops) // 2


def norm(x):
    return tuple(norm(i) for i in x) if isinstance(x, (list, tuple)) else x


async def judge(actors, outs):
    for _ in range(200):
        logs = [[norm(t) for t in await a.get_log() if t is not None] for a in actors]
        if all(t in log for exps, dl in outs for i, log in enumerate(logs) for t in [norm(x) for x in sum((e[i] for e in exps), []) + dl[i]]):
            break
        await asyncio.sleep(0.01)
    for i, log in enumerate(logs):
        if len(set(log)) != len(log):
            raise Violation(f"actor {i}: a message ran twice: {log}")
        want = set()
        for exps, dl in outs:
            want |= {norm(t) for t in dl[i]}
            for exp in exps:
                e = [norm(t) for t in exp[i]]
                want |= set(e)
                got = [t for t in log if t in set(e)]
                if got == e:
                    continue
                j = next((k for k, (x, y) in enumerate(zip(got, e)) if x != y), min(len(got), len(e)))
                raise Violation(f"actor {i}: started {got[max(0, j - 2):j + 4]} at position {j}, issued {e[max(0, j - 2):j + 4]}")
        if set(log) != want:
            raise Violation(f"actor {i}: ran {sorted(set(log) ^ want, key=str)} unexpectedly or not at all")


async def cluster_case(c):
    async with Cluster(2, tcp=c["tcp"]) as cl:
        actors = []
        for i, (h, s) in enumerate(c["actors"]):
            actors.append(await cl.create(ActStateless if s else Act, where=h))
        GATES.clear()
        coros = []
        for ci, (kind, ops) in enumerate(c["callers"]):
            refs = []
            for a in actors:
                r = await cl.ref(a.address, a.uid, kind)
                await r.plain(None)
                refs.append(r)
            gate = None
            if c["gate"] and ci == 0:
                gate = "g"
                GATES[gate] = asyncio.Event()
            coros.append(caller(ci, ops, refs, gate))
        outs = await bounded(asyncio.gather(*coros), 25, "callers")
        await bounded(judge(actors, outs), 20, "reading logs")


def info(c):
    m = 0
    for _, ops in c["callers"]:
        for a in range(len(c["actors"])):
            m = max(m, sum(1 for o in ops if o[0] % len(c["actors"]) == a and o[1] not in ("call", "send", "later")))
    return {"nontrivial": m >= 3, "labels": sorted({o[1] for _, ops in c["callers"] for o in ops} | {"ref:" + k for k, _ in c["callers"]})
            + (["gate"] if c.get("gate") else []) + ["callers%d" % len(c["callers"])]}


def run(c):
    run_async(cluster_case, c, limit=60)
    return info(c)


# ---------------------------------------------------------------- real processes
class CallerActor(mo.StatelessActor):
    async def run(self, ci, ops, actors, kind, main):
        refs = [await one_ref(a, kind, main) for a in actors]
        exp, dl = await caller(ci, ops, refs)
        return exp, dl


async def one_ref(a, kind, main):
    if kind == "local":
        r = await mo.actor_ref(address=a.address, uid=a.uid)
    elif kind == "main":
        r = ActorRef(main, a.uid)
    else:
        r = ActorRef(a.address, a.uid)
    await r.plain(None)
    return r


REAL = RealPool(2)


async def real_case(c):
    adr = REAL.addresses
    actors, helpers = [], []
    try:
        for h, s in c["actors"]:
            actors.append(await mo.create_actor(ActStateless if s else Act, address=adr[h % 3]))
        coros = []
        for ci, (kind, ops) in enumerate(c["callers"]):
            where = c["where"][ci % len(c["where"])]
            if where == 3:
                refs = [await one_ref(a, kind, adr[0]) for a in actors]
                coros.append(caller(ci, ops, refs))
            else:
                h = await mo.create_actor(CallerActor, address=adr[where])
                helpers.append(h)
                coros.append(h.run(ci, ops, actors, kind, adr[0]))
        outs = await bounded(asyncio.gather(*coros), 30, "callers")
        await bounded(judge(actors, outs), 20, "reading logs")
    finally:
        for a in actors + helpers:
            await mo.destroy_actor(a)


def run_real(c):
    REAL.run(real_case, c, limit=70)
    return info(c)


def strat_callers(kinds):
    size = st.one_of(st.just(0), st.integers(0, 300), st.sampled_from([4000, 70000, 300000, 1000000]), st.sampled_from([-1, -60, -200]))
    how = st.sampled_from(["call", "send", "task", "task", "task", "tell", "tell", "tell", "tasktell", "batch", "taskbatch", "later"])
    meth = st.sampled_from(["plain", "plain", "coro", "coro", "free", "nolock", "ext", "fail"])
    op = st.tuples(st.integers(0, 2), how, meth, size, st.integers(0, 4), st.sampled_from([0, 0, 0, 1, 3])).map(list)
    small = st.tuples(st.just(0), how, meth, st.just(0), st.integers(0, 2), st.just(0)).map(list)
    ops = st.one_of(st.lists(op, min_size=1, max_size=12), st.lists(small, min_size=5, max_size=30))
    return st.lists(st.tuples(st.sampled_from(kinds), ops).map(list), min_size=1, max_size=4)


ACTORS = st.lists(st.tuples(st.integers(0, 2), st.sampled_from([False, False, True])).map(list), min_size=1, max_size=3)


def strat():
    return st.fixed_dictionaries({"tcp": st.booleans(), "actors": ACTORS, "callers": strat_callers(["local", "msg", "main"]), "gate": st.booleans()})


def strat_real():
    return st.fixed_dictionaries({"actors": ACTORS, "callers": strat_callers(["local", "msg", "main"]),
                                  "where": st.lists(st.integers(0, 3), min_size=1, max_size=3)})


SEARCHES = [
    Search("order", strat, run, quick=4000, thorough=100000, shards=6, rule=RULE),
    Search("processes", strat_real, run_real, quick=700, thorough=20000, shards=2, thorough_shards=4, weight=5,
           setup=REAL.setup, teardown=REAL.teardown, subreaper=True, rule="the same over real sub-processes, callers also inside actors"),
]
