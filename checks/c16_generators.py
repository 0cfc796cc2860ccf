"""C16: iterating a remote generator yields the method's items, then ends or raises as the method did."""
import asyncio
import gc
import itertools
import threading

from hypothesis import strategies as st

import xoscar as mo
from vf.actors import Cluster, spin
from vf.core import Search, Violation, bounded, run_async
from vf.realpool import RealPool
from xoscar.core import ActorRef

RULE = ("a generated set of 1-5 generators (synchronous or asynchronous functions, or methods returning one; stateful, stateless and "
        "constructor-overriding actors; items of many kinds; suspensions; exceptions with generated types and texts at generated places), "
        "each reached by a generated route (direct by any kind of reference, passed on through one or two other actors, given to another "
        "actor that consumes it), and a generated interleaving of next, abandon, other calls on the same actors and iterating past the end. "
        "Oracle: the same function iterated in plain Python; after everything is dropped no generator is kept and all have been closed. "
        "Non-trivial = two generators interleaved or one abandoned or failing")
ASSUMPTIONS = ["a generator handed to another actor is not used by its sender any more (the receiver releases it)",
               "items are values (no awaitables, generators or actor references with resources)",
               "release is observed within a generous time (it is asynchronous)"]
TECHNIQUE = "stateful property-based testing: generated interleavings of generators, differential against plain iteration"


class Odd(Exception):
    def __init__(self, a, b=None):
        super().__init__(a)
        self.b = b


ERRORS = {
    "value": lambda t: ValueError(t), "key": lambda t: KeyError(t), "runtime": lambda t: RuntimeError(t), "plain": lambda t: Exception(t),
    "odd": lambda t: Odd(t, [t]), "stop": lambda t: StopIteration(t), "astop": lambda t: StopAsyncIteration(t), "empty": lambda t: Exception(),
    "os": lambda t: OSError(2, t), "assert": lambda t: AssertionError(t), "timeout": lambda t: asyncio.TimeoutError(t),
}
TEXTS = ["StopIteration", "x StopIteration y", "", "boom", "No iterator with id", "generator", "StopAsyncIteration", "étoile", "0"]

EVENTS = []
LOCK = threading.Lock()


def note(*a):
    with LOCK:
        EVENTS.append(a)


def decode(v):
    if isinstance(v, dict):
        if v["k"] == "exc":
            return ERRORS[v["e"]](v["t"])
        if v["k"] == "big":
            return b"z" * v["n"]
        if v["k"] == "tuple":
            return tuple(v["v"])
        if v["k"] == "set":
            return set(v["v"])
        if v["k"] == "cls":
            return StopIteration
        if v["k"] == "obj":
            return object
    return v


def sync_gen(tag, plan, ret=None):
    n = 0
    try:
        for s in plan:
            if s[0] == "item":
                n += 1
                yield decode(s[1])
            elif s[0] == "fail":
                # StopAsyncIteration out of a plain generator would end the asynchronous iteration by Python's own rules
                raise ERRORS[s[1] if s[1] != "astop" else "odd"](s[2])
        return ret
    finally:
        note("closed", tag, n)


async def async_gen(tag, plan):
    n = 0
    try:
        for s in plan:
            if s[0] == "item":
                n += 1
                yield decode(s[1])
            elif s[0] == "fail":
                raise ERRORS[s[1]](s[2])
            else:
                await spin(s[1])
    finally:
        note("closed", tag, n)


class Methods:
    @mo.generator
    def sgen(self, tag, plan):
        yield from sync_gen(tag, plan)

    @mo.generator
    async def agen(self, tag, plan):
        # an async generator function cannot be awaited; a coroutine returning one can
        return async_gen(tag, plan)

    @mo.generator
    async def agen2(self, tag, plan):
        async for x in async_gen(tag, plan):
            yield x

    @mo.generator
    def sreturn(self, tag, plan):
        return sync_gen(tag, plan, ret="never seen")

    @mo.generator
    async def areturn_s(self, tag, plan):
        return sync_gen(tag, plan)

    @mo.generator
    def sreturn_a(self, tag, plan):
        return async_gen(tag, plan)

    @mo.generator
    def nogen(self, tag, plan):
        return [tag, len(plan)]

    @mo.generator
    async def anogen(self, tag, plan):
        return [tag, len(plan)]

    def ping(self, x):
        return x

    async def hold(self, n):
        await spin(n)
        return n

    def kept(self):
        return len(getattr(self, "_generators", None) or ())

    def events(self):
        with LOCK:
            return list(EVENTS)

    async def fetch(self, ref, method, tag, plan):
        return await getattr(ref, method)(tag, plan)

    async def fetch_in(self, ref, method, tag, plan):
        return {"gen": [await getattr(ref, method)(tag, plan)]}

    async def fetch_via(self, other, ref, method, tag, plan):
        return await other.fetch(ref, method, tag, plan)

    async def keep(self, g):
        self.held = g if not isinstance(g, list) else g[0]

    async def step(self, k):
        out = []
        for _ in range(k):
            try:
                out.append(("item", await self.held.__anext__()))
            except StopAsyncIteration:
                out.append(("end",))
                break
        return out

    async def consume(self, g, limit):
        out = []
        async for x in g:
            out.append(x)
            if len(out) == limit:
                break
        return out

    async def abandon(self, ref, method, tag, plan, k):
        g = await getattr(ref, method)(tag, plan)
        out = []
        for _ in range(k):
            try:
                out.append(await g.__anext__())
            except StopAsyncIteration:
                break
        del g
        return out


class Stateful(Methods, mo.Actor):
    pass


class Stateless(Methods, mo.StatelessActor):
    pass


class Own(Methods, mo.Actor):
    def __init__(self, tag):
        self.tag = tag


class OwnLess(Methods, mo.StatelessActor):
    def __init__(self, tag):
        self.tag = tag


CLASSES = [Stateful, Stateless, Own, OwnLess]
GENS = ["sgen", "agen", "agen2", "sreturn", "areturn_s", "sreturn_a"]
COUNT = itertools.count()
gc.freeze()  # collecting all of the imported modules takes long


async def model(method, plan):
    """(items, end): what iterating the function in plain Python gives."""
    items = []
    if method == "agen" or method == "agen2" or method == "sreturn_a":
        g = async_gen("model", plan)
        if method == "agen2":
            async def wrap():
                async for x in async_gen("model", plan):
                    yield x
            g = wrap()
        try:
            async for x in g:
                items.append(x)
            return items, None
        except Exception as e:
            return items, e
    try:
        for x in sync_gen("model", plan):
            items.append(x)
        return items, None
    except Exception as e:
        return items, e


def same_item(got, want):
    if isinstance(want, Exception):
        return type(got) is type(want) and got.args == want.args and getattr(got, "b", None) == getattr(want, "b", None)
    return got == want and type(got) is type(want)


def same_error(got, want):
    if not isinstance(got, type(want)):
        return False
    return (got.args == want.args or str(want) in str(got)) and getattr(got, "b", None) == getattr(want, "b", None)


async def until(cond, what, seconds=15):
    for i in range(int(seconds * 100)):
        if i % 10 == 9:
            gc.collect()
        if await cond():
            return
        await asyncio.sleep(0.001 if i < 50 else 0.01 if i < 300 else 0.05)
    raise Violation(what)


async def scenario(c, addresses, kinds, remote):
    EVENTS.clear()
    run = next(COUNT)
    main = addresses[0]
    actors = [await bounded(mo.create_actor(CLASSES[a["cls"]], *(("t",) if a["cls"] >= 2 else ()), address=addresses[a["where"] % len(addresses)], uid=f"a{i}-{run}"), 20, "creating")
              for i, a in enumerate(c["actors"])]
    helpers = [await bounded(mo.create_actor(Stateless, address=addresses[w % len(addresses)], uid=f"h{i}-{run}"), 20, "creating")
               for i, w in enumerate(c["helpers"])]

    async def ref(a, kind):
        kind = kinds[kind % len(kinds)]
        if kind == "local":
            return await mo.actor_ref(address=a.address, uid=a.uid)
        return ActorRef(main if kind == "main" else a.address, a.uid)

    states = []
    hist = []
    for i, g in enumerate(c["gens"]):
        a = actors[g["actor"] % len(actors)]
        r = await ref(a, g["kind"])
        states.append({"g": g, "ref": r, "a": a, "tag": f"g{i}-{run}", "it": None, "begun": False, "pos": 0, "over": False, "model": await model(g["method"], g["plan"])})

    async def open_(s):
        g = s["g"]
        h = [await ref(x, g["kind"]) for x in helpers]
        args = (s["ref"], g["method"], s["tag"], g["plan"])
        if g["via"] == "direct":
            it = await bounded(getattr(s["ref"], g["method"])(s["tag"], g["plan"]), 20, f"calling the generator method; {hist}")
        elif g["via"] == "one":
            it = await bounded(h[0].fetch(*args), 20, "fetching through an actor")
        elif g["via"] == "two":
            it = await bounded(h[0].fetch_via(h[1], *args), 20, "fetching through two actors")
        elif g["via"] == "inside":
            it = (await bounded(h[0].fetch_in(*args), 20, "fetching inside a container"))["gen"][0]
        else:
            it = await bounded(getattr(s["ref"], g["method"])(s["tag"], g["plan"]), 20, f"calling the generator method; {hist}")
        if not hasattr(it, "__anext__"):
            raise Violation(f"{g['method']} gave {it!r}")
        s["it"] = it

    def compare(s, kind, value):
        items, err = s["model"]
        want = ("item", items[s["pos"]]) if s["pos"] < len(items) else ("end", None) if err is None else ("error", err)
        ok = kind == want[0] and (kind == "end" or (same_item if kind == "item" else same_error)(value, want[1]))
        if not ok:
            raise Violation(f"{s['g']['method']} via {s['g']['via']}: step {s['pos']} gave {kind} {value!r}, plain iteration gives {want}; {hist}")
        s["pos"] += 1
        if kind != "item":
            s["over"] = True

    async def next_(s):
        s["begun"] = True
        try:
            v = await bounded(s["it"].__anext__(), 20, f"next; {hist}")
        except StopAsyncIteration:
            compare(s, "end", None)
        except Violation:
            raise
        except Exception as e:
            e.__traceback__ = None
            compare(s, "error", e)
        else:
            compare(s, "item", v)

    busy = []
    interleaved = 0
    for op in c["ops"]:
        s = states[op["which"] % len(states)]
        hist.append((op["op"], op["which"] % len(states)))
        kind = op["op"]
        if kind == "next":
            if s["it"] is None and not s.get("gone"):
                await open_(s)
            if s.get("gone"):
                continue
            if s["over"]:
                # past the end: raises, whatever it is; never another item
                try:
                    v = await bounded(s["it"].__anext__(), 20, "next past the end")
                except (Exception, StopAsyncIteration) as e:
                    if isinstance(e, Violation):
                        raise
                else:
                    raise Violation(f"an ended generator gave {v!r}; {hist}")
                continue
            if any(x is not s and x["it"] is not None and not x["over"] and x["pos"] for x in states):
                interleaved += 1
            await next_(s)
        elif kind == "drop":
            if s["it"] is not None:
                s["it"] = None
                s["gone"] = True
                interleaved += 1
                hist.append("dropped")
        elif kind == "give":
            # the whole generator is handed to an actor, which goes on with it
            if s["it"] is None and not s.get("gone"):
                await open_(s)
            if s.get("gone") or s["over"]:
                continue
            h = await ref(helpers[op["n"] % len(helpers)], s["g"]["kind"])
            items, err = s["model"]
            limit = op["n"] if op["n"] else -1
            it, s["it"], s["gone"], s["begun"] = s["it"], None, True, True
            try:
                got = await bounded(h.consume(it, limit), 20, f"an actor consuming; {hist}")
                ended = None
            except Violation:
                raise
            except Exception as e:
                e.__traceback__ = None
                got, ended = None, e
            del it
            rest = items[s["pos"]:]
            if 0 < limit <= len(rest):
                want = rest[:limit]
                werr = None
            else:
                want, werr = rest, err
            if werr is None:
                if got is None or len(got) != len(want) or not all(same_item(x, y) for x, y in zip(got, want)):
                    raise Violation(f"the consuming actor got {got!r} {ended!r}, plain iteration gives {want!r}; {hist}")
            elif ended is None or not same_error(ended, werr):
                raise Violation(f"the consuming actor got {got!r} {ended!r}, plain iteration raises {werr!r}; {hist}")
        elif kind == "abandon":
            # another actor takes a generator of its own and abandons it
            h = await ref(helpers[op["n"] % len(helpers)], s["g"]["kind"])
            items, err = s["model"]
            k = min(op["n"], len(items))
            got = await bounded(h.abandon(s["ref"], s["g"]["method"], s["tag"] + "x", s["g"]["plan"], k), 20, f"an actor abandoning; {hist}")
            if len(got) != k or not all(same_item(x, y) for x, y in zip(got, items)):
                raise Violation(f"the abandoning actor got {got!r}, plain iteration gives {items[:k]!r}; {hist}")
            interleaved += 1
        elif kind == "call":
            if await bounded(s["ref"].ping(op["n"]), 20, f"another call; {hist}") != op["n"]:
                raise Violation("wrong result of another call")
        elif kind == "busy":
            busy.append(asyncio.ensure_future(s["ref"].hold(30 + op["n"] * 10)))
            await spin(4)
        elif kind == "plain":
            m = "nogen" if op["n"] % 2 else "anogen"
            got = await bounded(getattr(s["ref"], m)("q", [1, 2]), 20, "a generator method returning a value")
            if got != ["q", 2]:
                raise Violation(f"{m} gave {got!r}")
        s = None
    for b in busy:
        await bounded(b, 20, f"a call running meanwhile; {hist}")
    # those not dropped or handed over are iterated to their end
    for s in states:
        while s["it"] is not None and not s["over"]:
            await next_(s)
        s["it"] = None
        s["model"] = None
    s = it = None

    async def released():
        return all([await a.kept() == 0 for a in actors])
    await until(released, f"generators are still kept after all were ended or abandoned; {hist}")
    # every generator that was started has been closed (its cleanup code has run)
    started = {(id(s["a"]), s["tag"]) for s in states if s["begun"]}

    async def closed():
        for a in actors:
            seen = {e[1] for e in await a.events()}
            if any(k == id(a) and t not in seen for k, t in started):
                return False
        return True
    await until(closed, f"a generator that was ended or abandoned has not run its cleanup code; {hist}")
    for a in actors:
        if await bounded(a.ping(5), 20, "a call afterwards") != 5:
            raise Violation("wrong result afterwards")
    for a in actors + helpers:
        await bounded(mo.destroy_actor(a), 20, "destroying")
    fails = any(st_[0] == "fail" for g in c["gens"] for st_ in g["plan"])
    return {"nontrivial": bool(interleaved) or fails, "labels": sorted({g["method"] for g in c["gens"]} | {g["via"] for g in c["gens"]} | {o["op"] for o in c["ops"]})}


async def in_process(c):
    async with Cluster(2, tcp=c["tcp"]) as cl:
        kinds = ["msg", "main"] if c["tcp"] else ["local", "local", "msg", "main"]
        return await scenario(c, cl.addresses, kinds, False)


async def collected(f, c):
    """Nothing of a case is left to be released after its loop has stopped."""
    try:
        return await f(c)
    finally:
        gc.collect()
        await asyncio.sleep(0)


def in_process_run(c):
    return run_async(collected, in_process, c, limit=100)


POOL = RealPool(2)


async def on_processes(c):
    return await scenario(c, POOL.addresses, ["local", "msg", "main"], True)


def processes_run(c):
    return POOL.run(collected, on_processes, c, limit=100)


def items():
    return st.one_of(st.none(), st.booleans(), st.integers(-3, 3), st.sampled_from(TEXTS), st.just([]), st.just({"k": "tuple", "v": []}),
                     st.just({"k": "tuple", "v": [1, "StopIteration"]}), st.just({"k": "set", "v": [1, 2]}), st.just({"k": "cls"}), st.just({"k": "obj"}),
                     st.builds(lambda e, t: {"k": "exc", "e": e, "t": t}, st.sampled_from(["value", "stop", "astop", "odd", "plain"]), st.sampled_from(TEXTS)),
                     st.just({"k": "big", "n": 100_000}))


def strat():
    item = st.tuples(st.just("item"), items()).map(list)
    step = st.one_of(item, item, item, st.tuples(st.just("spin"), st.integers(0, 4)).map(list))
    fail = st.tuples(st.just("fail"), st.sampled_from(sorted(ERRORS)), st.sampled_from(TEXTS)).map(list)
    plan = st.builds(lambda a, b: a + b, st.lists(step, max_size=5), st.one_of(st.just([]), st.just([]), st.lists(fail, min_size=1, max_size=1)))
    gen = st.fixed_dictionaries({"actor": st.integers(0, 2), "kind": st.integers(0, 3), "method": st.sampled_from(GENS), "plan": plan,
                                 "via": st.sampled_from(["direct", "direct", "direct", "one", "two", "inside"])})
    op = st.fixed_dictionaries({"op": st.sampled_from(["next"] * 8 + ["drop", "drop", "give", "abandon", "call", "busy", "plain"]), "which": st.integers(0, 4), "n": st.integers(0, 4)})
    return st.fixed_dictionaries({
        "tcp": st.booleans(),
        "actors": st.lists(st.fixed_dictionaries({"cls": st.integers(0, 3), "where": st.integers(0, 2)}), min_size=1, max_size=2),
        "helpers": st.lists(st.integers(0, 2), min_size=2, max_size=2),
        "gens": st.lists(gen, min_size=1, max_size=4), "ops": st.lists(op, min_size=1, max_size=25)})


SEARCHES = [
    Search("in_process", strat, in_process_run, quick=1200, thorough=60000, shards=5, case_limit=120, rule=RULE),
    Search("processes", strat, processes_run, setup=POOL.setup, teardown=POOL.teardown, quick=240, thorough=15000, shards=3, case_limit=120, rule=RULE, weight=2),
]
