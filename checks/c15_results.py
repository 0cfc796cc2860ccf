"""C15: results made of awaitables are awaited and put back in place."""
import asyncio

import numpy as np
from hypothesis import strategies as st

import xoscar as mo
from vf.actors import Cluster, spin
from vf.core import Search, Violation, bounded, run_async

RULE = ("a case is 1-3 concurrent calls, each with a generated result expression: plain values, coroutines, tasks, futures, awaitable "
        "objects, calls of another actor and async generators (with steps yielding such expressions), alone or in tuples; "
        "non-trivial = at least one awaitable or generator together with another element or step")
ASSUMPTIONS = ["only the elements of the outermost tuple are looked at (nested tuples pass through unchanged), as in the code base's tests",
               "when several elements of one tuple fail, any of their exceptions may be raised"]
TECHNIQUE = "property-based testing: generated result expressions against a reference evaluator"

LOGS = {}


def tup(x):
    """json list with marker -> python value"""
    if isinstance(x, list) and x and x[0] == "#t":
        return tuple(tup(i) for i in x[1:])
    if isinstance(x, list) and x and x[0] == "#arr":
        return np.arange(x[1])
    if isinstance(x, list) and x and x[0] == "#odd":
        return Odd(*x[1:])
    if isinstance(x, list):
        return [tup(i) for i in x]
    return x


class Odd:
    """a value whose comparison, truth and hash are unusual"""
    __hash__ = None

    def __init__(self, eq, n):
        self.eq, self.n = eq, n

    def __eq__(self, o):
        if self.eq == "raise":
            raise RuntimeError("compared")
        return self.eq == "always"

    def __bool__(self):
        if self.eq == "raise":
            raise RuntimeError("truth value taken")
        return self.eq == "always"

    def __len__(self):
        return 0

    def __repr__(self):
        return f"Odd({self.eq}, {self.n})"


class Failing(Exception):
    pass


class Obj:
    """an awaitable that is neither coroutine nor future"""

    def __init__(self, coro):
        self.coro = coro

    def __await__(self):
        return self.coro.__await__()


async def produce(n, outcome):
    await spin(n)
    if outcome[0] == "err":
        raise Failing(outcome[1])
    return tup(outcome[1])


class Peer(mo.Actor):
    async def give(self, n, outcome):
        return await produce(n, outcome)


class A(mo.Actor):
    def __init__(self, peer):
        super().__init__()
        self.peer = peer

    def make(self, node):
        k = node[0]
        if k == "v":
            return tup(node[1])
        if k == "tuple":
            return tuple(self.make(x) for x in node[1])
        if k == "gen":
            return self.gen(node)
        if k == "defer":
            return self.defer(node[1], node[2])
        if k == "call":
            return self.peer.give(node[1], node[2])
        c = produce(node[1], node[2])
        if k == "co":
            return c
        if k == "obj":
            return Obj(c)
        t = asyncio.ensure_future(c)
        if k == "task":
            return t
        f = asyncio.get_running_loop().create_future()
        t.add_done_callback(lambda t: f.cancelled() or (f.set_exception(t.exception()) if t.exception() else f.set_result(t.result())))
        return f

    async def defer(self, n, node):
        await spin(n)
        return self.make(node)

    async def gen(self, node):
        _, lid, steps, end = node
        log = LOGS.setdefault(lid, [])
        for item, catch, n in steps:
            await spin(n)
            if catch:
                try:
                    got = yield self.make(item)
                except Failing as e:
                    log.append(["caught", e.args[0]])
                    continue
            else:
                got = yield self.make(item)
            log.append(["got", got])
        await spin(1)
        if end[0] == "ret":
            raise mo.Return(tup(end[1]))
        if end[0] == "err":
            raise Failing(end[1])

    def plain(self, node):
        return self.make(node)

    async def coro(self, n, node):
        await spin(n)
        return self.make(node)

    async def agen(self, node):
        # an async generator method
        log = LOGS.setdefault(node[1], [])
        for item, catch, n in node[2]:
            await spin(n)
            if catch:
                try:
                    got = yield self.make(item)
                except Failing as e:
                    log.append(["caught", e.args[0]])
                    continue
            else:
                got = yield self.make(item)
            log.append(["got", got])
        if node[3][0] == "ret":
            raise mo.Return(tup(node[3][1]))
        if node[3][0] == "err":
            raise Failing(node[3][1])


# ---------------------------------------------------------------- model
class Err(Exception):
    def __init__(self, keys):
        self.keys = keys


def ev_item(node, logs):
    k = node[0]
    if k == "v":
        return tup(node[1])
    if k == "gen":
        return ev_gen(node, logs)
    out = node[2]
    if out[0] == "err":
        raise Err({out[1]})
    return tup(out[1])


def ev_gen(node, logs):
    _, lid, steps, end = node
    log = logs.setdefault(lid, [])
    for item, catch, _n in steps:
        try:
            got = ev_top(item, logs)
        except Err as e:
            if not catch:
                raise
            log.append(["caught", e.keys])
            continue
        log.append(["got", got])
    if end[0] == "err":
        raise Err({end[1]})
    return tup(end[1]) if end[0] == "ret" else None


def ev_top(node, logs):
    if node[0] == "defer":
        return ev_top(node[2], logs)
    if node[0] != "tuple":
        return ev_item(node, logs)
    vals, bad = [], set()
    for x in node[1]:
        try:
            vals.append(ev_item(x, logs))
        except Err as e:
            bad |= e.keys
    if bad:
        raise Err(bad)
    return tuple(vals)


def same_typed(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_typed(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.tolist() == b.tolist()
    if isinstance(a, Odd):
        return (a.eq, a.n) == (b.eq, b.n)
    return a == b


def size(node):
    if node[0] == "tuple":
        return sum(size(x) for x in node[1])
    if node[0] == "gen":
        return 1 + sum(1 + size(s[0]) for s in node[2])
    if node[0] == "defer":
        return size(node[2])
    return 1


def awaits(node):
    if node[0] == "tuple":
        return sum(awaits(x) for x in node[1])
    return node[0] != "v"


async def go(c):
    LOGS.clear()
    async with Cluster(1, tcp=c["kind"] == "tcp") as cl:
        peer = await cl.create(Peer, where=c["peer"], uid="peer")
        a = await cl.create(A, peer, where=c["host"], uid="a")
        ref = await cl.ref(a.address, a.uid, c["kind"])

        async def one(call):
            how, n, node = call
            await spin(n)
            if how == "agen":
                return await ref.agen(node)
            if how == "plain":
                return await ref.plain(node)
            return await ref.coro(n, node)

        tasks = [asyncio.ensure_future(one(x)) for x in c["calls"]]
        await bounded(asyncio.wait(tasks), 15, "calls")
        if await bounded(ref.plain(["v", 5]), 10, "later call") != 5:
            raise Violation("the actor gives wrong results afterwards")
        return tasks


def run(c):
    tasks = run_async(go, c)
    for call, t in zip(c["calls"], tasks):
        how, n, node = call
        logs = {}
        try:
            want = ("ok", ev_top(node, logs))
        except Err as e:
            want = ("err", e.keys)
        exc = t.exception()
        if want[0] == "ok":
            if exc is not None:
                raise Violation(f"{node}: raised {exc!r}, want {want[1]!r}")
            if not same_typed(t.result(), want[1]):
                raise Violation(f"{node}: got {t.result()!r}, want {want[1]!r}")
        else:
            if exc is None:
                raise Violation(f"{node}: returned {t.result()!r}, want failure {want[1]}")
            if not isinstance(exc, Failing) or exc.args[0] not in want[1]:
                raise Violation(f"{node}: raised {exc!r}, want Failing of {want[1]}")
        for lid, log in logs.items():
            got = LOGS.get(lid, [])
            ok = len(got) == len(log) and all(
                g[0] == w[0] and (g[1] in w[1] if g[0] == "caught" else same_typed(g[1], w[1])) for g, w in zip(got, log))
            if not ok:
                raise Violation(f"{node}: the generator received {got}, want {log}")
    nodes = [x[2] for x in c["calls"]]
    return {"nontrivial": any(size(x) > 1 and awaits(x) for x in nodes) or len(nodes) > 1,
            "labels": [c["kind"]] + sorted({x[0] for x in nodes}) + (["concurrent"] if len(nodes) > 1 else [])}


COUNT = [0]


def strat():
    plain = st.one_of(st.integers(-5, 5), st.sampled_from(["", "text", None, [1, 2], ["#t", 1, "x"], ["#t"], {"k": 1}, True, 2.5, ["#arr", 3], ["#arr", 0], ["#arr", 1],
                                                                       ["#odd", "always", 1], ["#odd", "raise", 2], ["#odd", "never", 3]]))
    key = st.integers(100, 999)
    outcome = st.one_of(st.tuples(st.just("ok"), plain), st.tuples(st.just("ok"), plain), st.tuples(st.just("ok"), plain),
                        st.tuples(st.just("err"), key)).map(list)
    aw = st.tuples(st.sampled_from(["co", "co", "task", "fut", "obj", "call"]), st.integers(0, 4), outcome).map(list)
    value = st.tuples(st.just("v"), plain).map(list)
    end = st.one_of(st.just(["none"]), st.tuples(st.just("ret"), plain).map(list), st.tuples(st.just("ret"), plain).map(list),
                    st.tuples(st.just("err"), key).map(list))

    def gen_of(item):
        y = st.one_of(item, st.lists(item, max_size=4).map(lambda v: ["tuple", v]))
        return st.tuples(st.just("gen"), st.just(0), st.lists(st.tuples(y, st.booleans(), st.integers(0, 2)).map(list), max_size=4), end).map(list)

    leaf = st.one_of(value, aw, aw)
    gen1 = gen_of(leaf)
    item = st.one_of(leaf, leaf, gen1)
    gen2 = gen_of(item)
    anyitem = st.one_of(value, aw, aw, gen1, gen2)
    tupl = st.lists(anyitem, max_size=6).map(lambda v: ["tuple", v])
    top = st.one_of(anyitem, tupl, tupl, tupl, st.tuples(st.just("defer"), st.integers(0, 3), st.one_of(tupl, value)).map(list))
    pc = st.tuples(st.sampled_from(["plain", "coro"]), st.integers(0, 4), top)
    call = st.one_of(pc, pc, pc,
                     st.tuples(st.just("agen"), st.integers(0, 4), gen2)).map(list)

    def number(c):
        n = [0]

        def walk(x):
            if isinstance(x, list):
                if x and x[0] == "gen":
                    n[0] += 1
                    return ["gen", n[0], [walk(s) for s in x[2]], x[3]]
                return [walk(i) for i in x]
            return x
        c["calls"] = [[a, b, walk(d)] for a, b, d in c["calls"]]
        return c

    return st.fixed_dictionaries({
        "kind": st.sampled_from(["local", "msg", "tcp", "main"]), "host": st.integers(0, 1), "peer": st.integers(0, 1),
        "calls": st.lists(call, min_size=1, max_size=3)}).map(number)


SEARCHES = [
    Search("expressions", strat, run, quick=9000, thorough=200000, shards=8, rule=RULE),
]
