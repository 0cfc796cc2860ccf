"""C07: every call returns the result of its own invocation."""
import asyncio
import itertools
import pickle

from hypothesis import strategies as st

import xoscar as mo
from vf.actors import Cluster, spin
from vf.core import Search, Violation, bounded, run_async
from vf.realpool import RealPool
from xoscar.core import ActorRef

RULE = ("sequential: 1-25 calls on an actor by per-call routes (looked up, message, TCP, forwarded by the main pool, through another actor, "
        "pickled reference) compared with a plain object; concurrent: 2-6 clients with 1-8 calls each on 1-4 actors of 3 pools, payloads "
        "up to 300 kB, in one process or over real processes. Non-trivial = at least 3 calls with state, or overlapping calls of 2 clients")
ASSUMPTIONS = ["methods are deterministic functions of their arguments and the actor's state",
               "no argument is mutated by caller or actor (in-process calls pass references)"]
TECHNIQUE = "property-based testing: differential against a plain object; token-accounting oracle for concurrent calls"


def val(x):
    """json -> python value"""
    if isinstance(x, dict) and "#b" in x:
        return (b"%d." % x["s"] * (x["#b"] // 2 + 1))[: x["#b"]]
    if isinstance(x, dict) and "#t" in x:
        return tuple(val(i) for i in x["#t"])
    if isinstance(x, dict) and "#n" in x:
        return [[i] * 3 for i in range(x["#n"])]
    if isinstance(x, dict):
        return {k: val(v) for k, v in x.items()}
    if isinstance(x, list):
        return [val(i) for i in x]
    return x


def eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(eq, a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    return a == b


class Ops:
    """methods of both the actor and the plain object"""

    def init_state(self):
        self.d, self.q, self.n = {}, [], 0

    def put(self, k, v):
        self.n += 1
        old = self.d.get(k)
        self.d[k] = v
        return old

    def get(self, k, default=None):
        self.n += 1
        return self.d.get(k, default)

    def pop(self, k):
        self.n += 1
        return self.d.pop(k)

    def push(self, *xs, front=False):
        self.n += 1
        if front:
            self.q[:0] = xs
        else:
            self.q.extend(xs)
        return len(self.q)

    def take(self, i=0):
        self.n += 1
        return self.q.pop(i)

    async def aput(self, k, v):
        old = self.d.get(k)
        await spin(2)
        self.d[k] = v
        self.n += 1
        return old, self.n

    async def atake(self, i=0):
        await spin(1)
        self.n += 1
        return self.q.pop(i)

    def echo(self, *a, **k):
        return a, k

    def state(self):
        return dict(self.d), list(self.q), self.n

    def fail(self, kind, msg):
        self.n += 1
        raise {"v": ValueError, "k": KeyError, "z": ZeroDivisionError, "s": StopAsyncIteration}[kind](msg)


class Plain(Ops):
    def __init__(self):
        self.init_state()


class Act(Ops, mo.Actor):
    def __init__(self):
        super().__init__()
        self.init_state()


class ActStateless(Ops, mo.StatelessActor):
    def __init__(self):
        super().__init__()
        self.init_state()


class Relay(mo.StatelessActor):
    """calls another actor for its caller"""

    async def relay(self, ref, name, a, k):
        return await getattr(ref, name)(*a, **k)

    async def give(self, ref):
        return ref

    async def look(self, address, uid):
        return await mo.actor_ref(address=address, uid=uid)


ROUTES = ["local", "msg", "main", "relay", "pickled", "given", "lookedup", "direct"]


async def get_ref(route, created, relay, main):
    if route == "direct":
        return created
    if route == "local":
        return await mo.actor_ref(address=created.address, uid=created.uid)
    if route == "main":
        return ActorRef(main, created.uid)
    if route == "pickled":
        return pickle.loads(pickle.dumps(created))
    if route == "given":
        return await relay.give(created)
    if route == "lookedup":
        return await relay.look(created.address, created.uid)
    return ActorRef(created.address, created.uid)


def errkey(e):
    for t in (KeyError, IndexError, ValueError, ZeroDivisionError, StopAsyncIteration, TypeError):
        if isinstance(e, t):
            return t.__name__, tuple(map(str, e.args))
    return type(e).__name__, str(e)


async def sequential(c, addresses):
    main = addresses[0]
    created = await mo.create_actor(ActStateless if c["stateless"] else Act, address=addresses[c["host"] % len(addresses)])
    relay = await mo.create_actor(Relay, address=addresses[c["relay"] % len(addresses)])
    plain = Plain()
    try:
        for i, (route, name, a, k) in enumerate(c["ops"]):
            a, k = [val(x) for x in a], {x: val(y) for x, y in k.items()}
            try:
                want = getattr(plain, name)(*a, **k)
                if asyncio.iscoroutine(want):
                    want = await want
                want = ("ok", want)
            except Exception as e:
                want = ("err", errkey(e))
            try:
                if route == "relay":
                    got = await bounded(relay.relay(created, name, a, k), 20, "call")
                else:
                    ref = await get_ref(route, created, relay, main)
                    got = await bounded(getattr(ref, name)(*a, **k), 20, "call")
                got = ("ok", got)
            except Exception as e:
                if type(e).__name__ == "Hang":
                    raise
                got = ("err", errkey(e))
            if not eq(got, want):
                raise Violation(f"call {i} {name}({str(a)[:200]}, {str(k)[:200]}) by {route}: got {str(got)[:400]}, want {str(want)[:400]}")
        got = await created.state()
        if not eq(got, plain.state()):
            raise Violation(f"final state {str(got)[:500]}, want {str(plain.state())[:500]}")
    finally:
        await mo.destroy_actor(created)
        await mo.destroy_actor(relay)


# ------------------------------------------------------------------ concurrent
class Worker(mo.Actor):
    def __init__(self, name):
        super().__init__()
        self.name, self.log, self.busy = name, {}, 0

    def _note(self, token):
        self.log[token] = self.log.get(token, 0) + 1

    def plain(self, token, payload, n):
        self._note(token)
        if n % 7 == 6:
            raise ValueError(token)
        return token, self.name, payload

    async def coro(self, token, payload, n):
        self._note(token)
        await spin(n)
        if n % 7 == 6:
            raise ValueError(token)
        return token, self.name, payload

    async def free(self, token, payload, n):
        self._note(token)
        yield asyncio.sleep(0.0005 * (n % 3))
        got = yield self._later(token, n)
        if n % 7 == 6:
            raise ValueError(token)
        raise mo.Return((got, self.name, payload))

    async def _later(self, token, n):
        await spin(n)
        return token

    async def chain(self, token, payload, n, nxt):
        # calls another actor from inside (lock released while waiting)
        self._note(token)
        got = yield nxt.plain(("in", token), payload, n)
        raise mo.Return((got[0][1], self.name, got[2]))

    def get_log(self):
        return self.log


async def concurrent(c, addresses):
    main = addresses[0]
    actors = []
    for i, h in enumerate(c["hosts"]):
        actors.append(await mo.create_actor(Worker, f"w{i}", address=addresses[h % len(addresses)]))
    relay = await mo.create_actor(Relay, address=addresses[c["relay"] % len(addresses)])
    expect = [dict() for _ in actors]
    problems = []

    async def one(token, op):
        ai, meth, route, payload, n, start = op
        ai %= len(actors)
        payload = val(payload)
        await spin(start)
        args = [token, payload, n]
        if meth == "chain":
            nx = (ai + 1) % len(actors)
            if nx == ai:
                meth = "plain"
            else:
                args.append(actors[nx])
                key = ("in", token)
                expect[nx][key] = expect[nx].get(key, 0) + 1
        expect[ai][token] = expect[ai].get(token, 0) + 1
        try:
            if route == "relay":
                got = await relay.relay(actors[ai], meth, args, {})
            else:
                ref = await get_ref(route, actors[ai], relay, main)
                got = await getattr(ref, meth)(*args)
        except ValueError as e:
            want = ("in", token) if meth == "chain" else token
            if n % 7 != 6 or e.args != (want,):
                problems.append(f"{token} {op}: raised {e!r}")
            return
        if n % 7 == 6:
            problems.append(f"{token} {op}: returned {str(got)[:200]} instead of raising")
        elif not eq(got, (token, f"w{ai}", payload)):
            problems.append(f"{token} {op}: returned {str(got)[:300]}")

    async def client(i, ops):
        for j, op in enumerate(ops):
            await one((i, j), op)

    async def burst(i, ops):
        await asyncio.gather(*[one((i, j), op) for j, op in enumerate(ops)])

    try:
        await bounded(asyncio.gather(*[(burst if b else client)(i, ops) for i, (b, ops) in enumerate(c["clients"])]), 25, "concurrent calls")
        if problems:
            raise Violation("; ".join(problems[:3]))
        for i, a in enumerate(actors):
            log = await a.get_log()
            if log != expect[i]:
                d = {k: (log.get(k), expect[i].get(k)) for k in set(log) | set(expect[i]) if log.get(k) != expect[i].get(k)}
                raise Violation(f"actor w{i}: invocations (ran, wanted) {d}")
    finally:
        for a in actors + [relay]:
            await mo.destroy_actor(a)


def info_seq(c):
    return {"nontrivial": len(c["ops"]) >= 3 and any(o[1] in ("put", "push", "aput") for o in c["ops"]),
            "labels": sorted({o[0] for o in c["ops"]}) + [f"host{c['host'] % 3}"]}


def info_con(c):
    return {"nontrivial": len(c["clients"]) >= 2 and sum(len(o) for _, o in c["clients"]) >= 3,
            "labels": sorted({o[1] for _, ops in c["clients"] for o in ops} | {o[2] for _, ops in c["clients"] for o in ops})}


async def in_cluster(fn, c):
    async with Cluster(2, tcp=c["tcp"]) as cl:
        await fn(c, cl.addresses)


def run_seq(c):
    run_async(in_cluster, sequential, c, limit=60)
    return info_seq(c)


def run_con(c):
    run_async(in_cluster, concurrent, c, limit=60)
    return info_con(c)


REAL = RealPool(2)


def run_real(c):
    if "ops" in c:
        REAL.run(sequential, c, REAL.addresses)
        return info_seq(c)
    REAL.run(concurrent, c, REAL.addresses)
    return info_con(c)


def values(big):
    base = st.one_of(st.integers(-99, 99), st.sampled_from(["", "x", None, True, 1.5, [1, 2], {"#t": [1, "y"]}, {"a": [1]}, {"#b": 3, "s": 1}]),
                     st.text(max_size=4).filter(lambda s: s.isprintable()))
    if big:
        return st.one_of(base, base, base, st.tuples(st.integers(0, 300000), st.integers(0, 9)).map(lambda x: {"#b": x[0], "s": x[1]}),
                         st.integers(30, 300).map(lambda n: {"#n": n}))
    return base


def strat_seq():
    v = values(True)
    k = st.sampled_from(["a", "b", "c"])
    route = st.sampled_from(ROUTES)
    op = st.one_of(
        st.tuples(route, st.sampled_from(["put", "aput"]), st.tuples(k, v).map(list), st.just({})),
        st.tuples(route, st.just("get"), st.tuples(k).map(list), st.one_of(st.just({}), v.map(lambda x: {"default": x}))),
        st.tuples(route, st.just("pop"), st.tuples(k).map(list), st.just({})),
        st.tuples(route, st.just("push"), st.lists(v, max_size=3), st.one_of(st.just({}), st.booleans().map(lambda b: {"front": b}))),
        st.tuples(route, st.sampled_from(["take", "atake"]), st.one_of(st.just([]), st.tuples(st.integers(-2, 2)).map(list)), st.just({})),
        st.tuples(route, st.just("echo"), st.lists(v, max_size=3), st.dictionaries(st.sampled_from(["x", "y", "self_", "uid"]), v, max_size=2)),
        st.tuples(route, st.just("state"), st.just([]), st.just({})),
        st.tuples(route, st.just("fail"), st.tuples(st.sampled_from("vkzs"), st.sampled_from(["", "m", "StopIteration"])).map(list), st.just({})),
        st.tuples(route, st.just("put"), st.tuples(k).map(list), st.just({})),
    ).map(list)
    return st.fixed_dictionaries({"tcp": st.booleans(), "host": st.integers(0, 2), "relay": st.integers(0, 2), "stateless": st.booleans(),
                                  "ops": st.lists(op, min_size=1, max_size=25)})


def strat_con():
    op = st.tuples(st.integers(0, 3), st.sampled_from(["plain", "coro", "free", "chain"]), st.sampled_from(ROUTES), values(True),
                   st.integers(0, 13), st.integers(0, 6)).map(list)
    client = st.tuples(st.booleans(), st.lists(op, min_size=1, max_size=8)).map(list)
    return st.fixed_dictionaries({"tcp": st.booleans(), "hosts": st.lists(st.integers(0, 2), min_size=1, max_size=4), "relay": st.integers(0, 2),
                                  "clients": st.lists(client, min_size=2, max_size=6)})


SEARCHES = [
    Search("sequential", strat_seq, run_seq, quick=3500, thorough=100000, shards=3, rule="calls on an actor and on a plain object"),
    Search("concurrent", strat_con, run_con, quick=2500, thorough=80000, shards=3, rule="overlapping calls of several clients"),
    Search("processes", lambda: st.one_of(strat_seq(), strat_con()), run_real, quick=1200, thorough=40000, shards=2, thorough_shards=4,
           setup=REAL.setup, teardown=REAL.teardown, subreaper=True, weight=5, rule="the same over real sub-processes"),
]
