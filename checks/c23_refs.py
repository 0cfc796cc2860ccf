"""C23: an actor reference denotes the same actor everywhere."""
import asyncio
import copy
import gc
import itertools
import pickle
from collections import Counter, OrderedDict, defaultdict, namedtuple
from dataclasses import dataclass, field
from typing import Any

import cloudpickle
from hypothesis import strategies as st

import xoscar as mo
from vf.actors import Cluster
from vf.core import Search, Violation, bounded, run_async, weighted
from vf.realpool import RealPool
from xoscar.core import ActorRef, BufferRef, FileObjectRef
from xoscar.serialization import AioDeserializer, AioSerializer, deserialize, serialize

RULE = ("values: 2-5 generated references (id as text or bytes, address, proxies) through generated chains of pickling, copying and serialization, compared pairwise with their (address, id); "
        "travel/processes: generated histories of actors with generated ids created, destroyed, created again on 3 pools, whose references (from creation, look-up by text or bytes, self.ref(), by hand, by the main pool) travel in generated "
        "containers through chains of actors, results, batches, generators, state and pickling and are then compared, used as keys and called. Non-trivial = equal references from different ways / a call after at least one hop")
ASSUMPTIONS = ["ids are not empty (an empty id means a generated one)", "protocols 2 and up for pickling buffer references", "private names are not part of a reference", "errors of tell are not reported"]
TECHNIQUE = "property-based testing: generated references and journeys against the pair (address, id) as model"
COUNT = itertools.count(1)
gc.freeze()


@dataclass
class Box:
    value: Any
    more: dict = field(default_factory=dict)


Pair = namedtuple("Pair", "left right")


class Carrier(Exception):
    pass


class BytesReader:
    def __init__(self, data):
        self.data, self.pos = data, 0

    async def read(self, n):
        r = self.data[self.pos:self.pos + n]
        self.pos += n
        return r


async def through(x, way):
    if way.startswith("pickle"):
        return pickle.loads(pickle.dumps(x, int(way[6:])))
    if way == "cloudpickle":
        return cloudpickle.loads(cloudpickle.dumps(x))
    if way == "copy":
        return copy.copy(x)
    if way == "deepcopy":
        return copy.deepcopy(x)
    if way == "serialize":
        return deserialize(*serialize(x))
    if way == "frame":
        return await AioDeserializer(BytesReader(b"".join(bytes(b) for b in await AioSerializer(x).run()))).run()
    return x


WAYS = ["pickle0", "pickle1", "pickle2", "pickle3", "pickle4", "pickle5", "cloudpickle", "copy", "deepcopy", "serialize", "frame"]


def wrap(x, how):
    """A container of x and the way to get x out of it."""
    return {
        "plain": (x, lambda c: c), "list": ([1, [x]], lambda c: c[1][0]), "tuple": ((x, None), lambda c: c[0]), "dict": ({"k": {"v": x}}, lambda c: c["k"]["v"]),
        "key": ({x: 1}, lambda c: next(iter(c))), "set": ({x}, lambda c: next(iter(c))), "frozenset": (frozenset([x]), lambda c: next(iter(c))), "box": (Box(1, {x: [x]}), lambda c: c.more[next(iter(c.more))][0]),
        "pair": (Pair(x, 0), lambda c: c.left), "ordered": (OrderedDict([(1, x)]), lambda c: c[1]), "default": (defaultdict(list, {x: [x]}), lambda c: next(iter(c.values()))[0]), "counter": (Counter([x, x]), lambda c: next(iter(c))),
        "error": (Carrier("text", x), lambda c: c.args[1]),
    }[how]


WRAPS = ["plain", "plain", "list", "tuple", "dict", "key", "set", "frozenset", "box", "pair", "ordered", "default", "counter", "error"]


def raw(uid):
    return uid.encode() if isinstance(uid, str) else uid


def compare(ref, address, uid, proxies, what):
    if not isinstance(ref, ActorRef):
        raise Violation(f"{what}: {ref!r} is no reference")
    if ref.uid != uid or type(ref.uid) is not bytes or ref.address != address:
        raise Violation(f"{what}: ({ref.address!r}, {ref.uid!r}) instead of ({address!r}, {uid!r})")
    if proxies != "any" and (ref.proxy_addresses or None) != (proxies or None):
        raise Violation(f"{what}: proxies are {ref.proxy_addresses}, were {proxies}")


def related(a, ka, b, kb, what):
    """Equality and hashing of references with the given identities."""
    if (a == b) != (ka == kb) or (b == a) != (ka == kb) or (a != b) == (ka == kb):
        raise Violation(f"{what}: {a!r} == {b!r} is {a == b}/{b == a}, != is {a != b}; identities {ka} {kb}")
    if ka == kb and hash(a) != hash(b):
        raise Violation(f"{what}: equal references {a!r} and {b!r} hash differently")
    if (b in {a: 1}) != (ka == kb) or len({a, b}) != (1 if ka == kb else 2):
        raise Violation(f"{what}: look-up of {b!r} in a dict of {a!r} is {b in {a: 1}}; identities {ka} {kb}")


# ------------------------------------------------------------------ values
def text_of(s):
    k, x = s
    return x if k == "text" else x.encode("utf-8", "surrogatepass") if k == "utf8" else bytes(x)


def values_run(c):
    async def go():
        refs = []
        interesting = False
        for r in c["refs"]:
            uid = text_of(r["uid"])
            ref = ActorRef(r["address"], uid, *([r["proxies"]] if r["proxies"] is not None else []))
            original, key = ref, (r["address"], raw(uid))
            compare(ref, *key, r["proxies"], "construction")
            for way, how in r["journey"]:
                x, out = wrap(ref, how)
                if isinstance(x, Exception) and way in ("serialize", "frame"):
                    x, out = (x,), lambda c, out=out: out(c[0])
                got = out(await through(x, way))
                compare(got, *key, r["proxies"], f"{way} of {how}")
                related(ref, key, got, key, f"{way} of {how}")
                ref = got
            if r["again"]:
                ref = ActorRef(ref.address, ref.uid.decode() if r["again"] == "text" and _is_text(ref.uid) else ref.uid)
            related(original, key, ref, key, "journey")
            for other in (None, 1, key, uid, r["address"], object()):
                if ref == other or not ref != other:
                    raise Violation(f"{ref!r} == {other!r}")
            refs.append((ref, key))
        for (a, ka), (b, kb) in itertools.combinations(refs, 2):
            related(a, ka, b, kb, "pair")
            interesting |= ka == kb
        d = {}
        for i, (ref, key) in enumerate(refs):
            d[ref] = i
        want = {}
        for i, (_, key) in enumerate(refs):
            want[key] = i
        if {(r.address, r.uid): i for r, i in d.items()} != want:
            raise Violation(f"a dict of references is {d}, must be {want}")
        # references of buffers and files
        kinds = [BufferRef, FileObjectRef]
        others = [(kinds[r["kind"]](r["address"], raw(text_of(r["uid"]))), (r["kind"], r["address"], raw(text_of(r["uid"])))) for r in c["refs"]]
        moved = []
        for (o, key), r in zip(others, c["refs"]):
            for way, how in r["journey"]:
                if way in ("pickle0", "pickle1"):
                    continue
                x, out = wrap(o, how)
                o = out((await through((x,), way))[0])
            if type(o) is not kinds[key[0]] or (o.address, o.uid) != key[1:]:
                raise Violation(f"{key} became {o!r}")
            moved.append((o, key))
        for (a, ka), (b, kb) in itertools.combinations(others + moved, 2):
            related(a, ka, b, kb, "buffer or file reference")
        for o, key in others:
            if o == ActorRef(key[1], key[2]) or ActorRef(key[1], key[2]) == o:
                raise Violation(f"a reference of an actor equals {o!r}")
        return interesting

    return {"nontrivial": run_async(go, limit=30), "labels": sorted({w for r in c["refs"] for w, _ in r["journey"]})}


def _is_text(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False


def uid_strat():
    text = st.one_of(st.sampled_from(["a", "b", "A", "a ", "ab", "x/y:1", "é", "\N{SNOWMAN}", "a\0", "0", "b'a'", "e\u0301"]), st.text(st.characters(exclude_categories=["Cs"]), min_size=1, max_size=12))
    return st.one_of(st.tuples(st.just("text"), text), st.tuples(st.just("utf8"), text), st.tuples(st.just("bytes"), st.lists(st.integers(0, 255), min_size=1, max_size=40)))


def values_strat():
    addr = st.sampled_from(["127.0.0.1:1", "127.0.0.1:11", "127.0.0.2:1", "test://127.0.0.1:1", "localhost:1", "[::1]:1", "unixsocket:///tmp/x"])
    return st.lists(uid_strat(), min_size=1, max_size=3).flatmap(lambda uids: st.fixed_dictionaries({
        "refs": st.lists(st.fixed_dictionaries({
            "uid": st.one_of(st.sampled_from(uids), st.sampled_from(uids).map(lambda u: ("utf8", u[1]) if u[0] == "text" else ("text", u[1]) if u[0] == "utf8" else u), uid_strat()),
            "address": addr, "proxies": st.sampled_from([None, None, [], ["127.0.0.9:1"], ["127.0.0.9:1", "127.0.0.8:2"]]), "kind": st.integers(0, 1), "again": st.sampled_from([None, "text", "bytes"]),
            "journey": st.lists(st.tuples(st.sampled_from(WAYS), st.sampled_from(WRAPS)), max_size=4)}), min_size=2, max_size=5)}))


# ------------------------------------------------------------------ journeys through actors
class Target(mo.Actor):
    SECRET = 5

    def __init__(self, token):
        super().__init__()
        self.token, self.n = token, 0
        self.value = 3

    def hit(self):
        self.n += 1
        return self.token, self.n, self.uid, self.address

    @property
    def prop(self):
        return 4

    async def me(self):
        return self.ref()

    def _private(self):
        self.n += 100

    @mo.no_lock
    async def count(self):
        return self.n


class Hop(mo.StatelessActor):
    def __init__(self):
        super().__init__()
        self.kept = {}

    async def echo(self, x):
        return x

    async def forward(self, x, how, rest):
        """Sends the reference in x on through the actors of rest."""
        if not rest:
            return x
        uid, address, wrapping = rest[0]
        ref = wrap(None, how)[1](x)
        y, out = wrap(ref, wrapping)
        nxt = await mo.actor_ref(uid=uid, address=address)
        back = await nxt.forward(y, wrapping, rest[1:])
        how_back = rest[-1][2]
        return wrap(wrap(None, how_back)[1](back), how_back)[0]

    async def keep(self, k, x):
        self.kept[k] = x

    async def give(self, k):
        return self.kept[k]

    async def use(self, x, how):
        return await outcome(_hit(wrap(None, how)[1](x)))

    @mo.extensible
    async def each(self, x):
        return x

    @each.batch
    async def each(self, args_list, kwargs_list):
        return [self.each.bind(*a, **k)[0] for a, k in zip(args_list, kwargs_list)]

    @mo.generator
    def stream(self, x):
        for i in range(2):
            yield x

    async def fail(self, x):
        raise Carrier("here", x)

    async def same(self, a, b):
        return a == b, hash(a) == hash(b), a in {b: 1}


async def outcome(aw):
    try:
        return ["ok", await aw]
    except asyncio.CancelledError:
        return ["Cancelled", ""]
    except Exception as e:
        names = [k.__name__ for k in type(e).__mro__]
        return [next((n for n in ("ActorNotExist", "AttributeError", "TypeError") if n in names), type(e).__name__), str(e)[:200]]


async def scenario(c, addrs, hops, tag, shared):
    n = len(addrs)
    main = addrs[0]
    lives = {}    # (address, uid) -> [token, hits]
    specs = {}    # (address, uid) -> id as given
    bag = []      # (reference, key)
    tokens = itertools.count(1)
    hist = []
    hopped = 0

    def complain(what):
        raise Violation(f"{what}; addresses {addrs}; history {hist}")

    async def check_call(ref, key, what, via=None, how="plain"):
        x, _ = wrap(ref, how)
        out = await bounded(hops[via % n].use(x, how) if via is not None else outcome(_hit(ref)), 20, what)
        life = lives.get(key)
        if life is None:
            if out[0] != "ActorNotExist":
                complain(f"{what}: calling {ref!r} of a destroyed actor gave {out}")
            return
        life[1] += 1
        if out[0] != "ok" or list(out[1]) != [life[0], life[1], key[1], key[0]]:
            complain(f"{what}: calling {ref!r} gave {out}, must be {[life[0], life[1], key[1], key[0]]}")

    def add(ref, key, what):
        compare(ref, *key, "any", f"{what}; history {hist}")
        for other, k in bag[-6:]:
            related(other, k, ref, key, f"{what}; history {hist}")
        bag.append((ref, key))

    for op in c["ops"]:
        k = op["pool"] % n
        hist.append([x for x in op.values()])
        if op["op"] == "create":
            given = text_of(op["uid"])
            given = given + (tag if isinstance(given, str) else tag.encode())
            if op["auto"]:
                given = None
            key = (addrs[k], raw(given)) if given is not None else None
            if key and (key in lives or any(u == key[1] and a != key[0] for a, u in specs)):
                # one id in one pool only
                continue
            token = next(tokens)
            ref = await bounded(mo.create_actor(Target, token, uid=given, address=addrs[k]), 20, "create")
            if key is None:
                key = (addrs[k], ref.uid)
                given = ref.uid
            lives[key] = [token, 0]
            specs[key] = given
            add(ref, key, "creation")
        elif not specs:
            continue
        elif op["op"] == "find":
            key = sorted(specs)[op["x"] % len(specs)]
            uid = specs[key]
            if op["swap"]:
                uid = uid.encode() if isinstance(uid, str) else uid.decode() if _is_text(uid) else uid
            if op["how"] == "hand":
                ref = ActorRef(key[0], uid)
            elif op["how"] == "self":
                if key not in lives:
                    continue
                ref = await bounded(ActorRef(key[0], uid).me(), 20, "me")
            elif op["how"] == "ref":
                if not bag:
                    continue
                ref0, key = bag[op["x"] % len(bag)]
                ref = await bounded(outcome(mo.actor_ref(ref0)), 20, "actor_ref")
            else:
                address = main if op["how"] == "main" else key[0]
                ref = await bounded(outcome(mo.actor_ref(address, uid) if op["x"] % 2 else mo.actor_ref(uid=uid, address=address)), 20, "actor_ref")
            if isinstance(ref, list):
                if key not in lives:
                    if ref[0] != "ActorNotExist":
                        complain(f"looking up the destroyed {key} gave {ref}")
                    continue
                if ref[0] != "ok":
                    complain(f"looking up {key} gave {ref}")
                ref = ref[1]
            add(ref, key, f"look-up ({op['how']})")
        elif op["op"] == "destroy":
            key = sorted(specs)[op["x"] % len(specs)]
            mine = [r for r, kk in bag if kk == key] or [ActorRef(*key)]
            ref = mine[op["pool"] % len(mine)]
            out = await bounded(outcome(ref.destroy() if op["swap"] and hasattr(type(ref), "destroy") else mo.destroy_actor(ref)), 20, "destroy")
            if (out[0] == "ok") != (key in lives):
                complain(f"destroying {key} gave {out}")
            lives.pop(key, None)
        elif op["op"] == "bury":
            # a reference outlives its actor
            live = sorted(lives)
            if not live:
                continue
            key = live[op["x"] % len(live)]
            ref = await bounded(mo.actor_ref(*key), 20, "actor_ref")
            if op["swap"]:
                await check_call(ref, key, "before the end")
            await bounded(mo.destroy_actor(ref), 20, "destroy")
            lives.pop(key)
            got = ref
            for way, how in zip(op["ways"], op["wraps"] * 3):
                x, out = wrap(ref, how)
                got = out(await through(x, way) if not isinstance(x, Exception) else (await through((x,), way))[0])
                add(got, key, f"{way} of {how} after the end")
            await check_call(got, key, "after the end")
        elif op["op"] == "again":
            key = sorted(specs)[op["x"] % len(specs)]
            if key in lives:
                continue
            token = next(tokens)
            ref = await bounded(mo.create_actor(Target, token, uid=specs[key], address=key[0]), 20, "again")
            lives[key] = [token, 0]
            add(ref, key, "creation again")
        elif not bag:
            continue
        elif op["op"] == "travel":
            ref, key = bag[op["x"] % len(bag)]
            how = op["wraps"][0]
            x, out = wrap(ref, how)
            t = op["by"]
            hop = hops[k]
            if t == "echo":
                got = out(await bounded(hop.echo(x), 20, t))
            elif t == "tuple":
                got = out((await bounded(hop.echo((1, x)), 20, t))[1])
            elif t == "keep":
                await bounded(hop.keep("k" + tag, x), 20, t)
                got = out(await bounded(hop.give("k" + tag), 20, t))
            elif t == "batch":
                got = out((await bounded(hop.each.batch(hop.each.delay(x), hop.each.delay(None)), 20, t))[0])
            elif t == "stream":
                got = ref
                async for y in await bounded(hop.stream(x), 20, t):
                    got = out(y)
            elif t == "fail":
                try:
                    await bounded(hop.fail(x), 20, t)
                    complain("no error")
                except Carrier as e:
                    got = out(e.args[1])
            elif t == "local":
                for way in op["ways"]:
                    y = (x,) if isinstance(x, Exception) else x
                    y = await through(y, way)
                    x = y[0] if isinstance(x, Exception) else y
                    compare(out(x), *key, "any", f"{way} of {how}; history {hist}")
                got = out(x)
            else:
                rest = [(h.uid, h.address, w) for h, w in zip([hops[(k + i + 1) % n] for i in range(len(op["wraps"]) - 1)], op["wraps"][1:])]
                got = wrap(None, op["wraps"][-1])[1](await bounded(hop.forward(x, how, rest), 20, t))
            add(got, key, f"{t} of {how}")
            if key in lives:
                hopped += 1
            await check_call(got, key, f"after {t} of {how}")
        elif op["op"] == "use":
            ref, key = bag[op["x"] % len(bag)]
            await check_call(ref, key, "used by an actor", op["pool"] if op["swap"] else None, op["wraps"][0])
        elif op["op"] == "same":
            (a, ka), (b, kb) = bag[op["x"] % len(bag)], bag[op["y"] % len(bag)]
            got = await bounded(hops[k].same(a, b), 20, "same")
            if (got[0], got[2]) != (ka == kb, ka == kb) or ka == kb and not got[1]:
                complain(f"{a!r} and {b!r} compare as {got} at {addrs[k]}; identities {ka} {kb}")
        elif op["op"] == "miss":
            ref, key = bag[op["x"] % len(bag)]
            if key not in lives:
                continue
            name = op["name"]
            if name.startswith("_") and type(ref) is not ActorRef:
                continue
            out = await bounded(outcome(_miss(ref, name)), 20, "miss")
            if out[0] not in ("AttributeError", "TypeError"):
                complain(f"calling {name} of {ref!r} gave {out}")
            got = await bounded(ActorRef(*key).count(), 20, "count")
            if got != lives[key][1]:
                complain(f"calling {name} changed the actor: {got} instead of {lives[key][1]}")
            await check_call(ref, key, f"after calling {name}")
    for ref, key in bag:
        compare(ref, *key, "any", f"at the end; history {hist}")
        await check_call(ref, key, "at the end")
    for key in lives:
        await bounded(mo.destroy_actor(ActorRef(*key)), 20, "cleaning up")
    return {"nontrivial": hopped > 0, "labels": sorted({o.get("by", o["op"]) for o in c["ops"]})}


async def _hit(ref):
    return await ref.hit()


async def _miss(ref, name):
    return await getattr(ref, name)(1)


async def travel(c):
    async with Cluster(2, tcp=c["tcp"]) as cl:
        hops = [await mo.create_actor(Hop, uid=f"hop{i}", address=a) for i, a in enumerate(cl.addresses)]
        if c["remote"]:
            hops = [ActorRef(h.address, h.uid) for h in hops]
        return await scenario(c, cl.addresses, hops, "", True)


def travel_run(c):
    return run_async(travel, c, limit=100)


POOL = RealPool(2)
STATE = {}


def setup():
    POOL.setup()
    STATE["hops"] = [POOL.run(lambda a=a, i=i: mo.create_actor(Hop, uid=f"hop{i}", address=a)) for i, a in enumerate(POOL.addresses)]


async def on_processes(c):
    return await scenario(c, POOL.addresses, STATE["hops"], f"-{next(COUNT)}", False)


def processes_run(c):
    return POOL.run(on_processes, c, limit=100)


def ops():
    x = st.integers(0, 20)
    pool = st.integers(0, 2)
    wraps = st.lists(st.sampled_from(WRAPS), min_size=1, max_size=4)
    create = st.fixed_dictionaries({"op": st.just("create"), "pool": pool, "uid": uid_strat(), "auto": weighted((4, st.just(False)), (1, st.just(True)))})
    find = st.fixed_dictionaries({"op": st.just("find"), "pool": pool, "x": x, "swap": st.booleans(), "how": st.sampled_from(["hand", "self", "main", "direct", "ref"])})
    other = st.fixed_dictionaries({"op": st.sampled_from(["destroy", "again", "again"]), "pool": pool, "x": x, "swap": st.booleans()})
    trip = st.fixed_dictionaries({"op": st.just("travel"), "pool": pool, "x": x, "wraps": wraps, "by": st.sampled_from(["echo", "tuple", "keep", "batch", "stream", "fail", "local", "local", "forward", "forward"]), "ways": st.lists(st.sampled_from(WAYS), min_size=1, max_size=3)})
    bury = st.fixed_dictionaries({"op": st.just("bury"), "pool": pool, "x": x, "swap": st.booleans(), "ways": st.lists(st.sampled_from(WAYS), min_size=1, max_size=3), "wraps": wraps})
    use = st.fixed_dictionaries({"op": st.just("use"), "pool": pool, "x": x, "swap": st.booleans(), "wraps": wraps})
    same = st.fixed_dictionaries({"op": st.just("same"), "pool": pool, "x": x, "y": x})
    miss = st.fixed_dictionaries({"op": st.just("miss"), "pool": pool, "x": x, "name": st.sampled_from(["nope", "value", "prop", "SECRET", "_private", "__nope__", "hitt", "Hit", "é"])})
    return st.tuples(st.lists(create, min_size=1, max_size=3), st.lists(weighted((1, create), (3, find), (2, other), (1, bury), (4, trip), (2, use), (1, same), (1, miss)), min_size=1, max_size=14)).map(lambda t: t[0] + t[1])


def travel_strat():
    return st.fixed_dictionaries({"tcp": st.booleans(), "remote": st.booleans(), "ops": ops()})


def processes_strat():
    return st.fixed_dictionaries({"ops": ops()})


SEARCHES = [
    Search("values", values_strat, values_run, quick=1500, thorough=60000, shards=2),
    Search("travel", travel_strat, travel_run, quick=1500, thorough=60000, shards=4, case_limit=150),
    Search("processes", processes_strat, processes_run, setup=setup, teardown=POOL.teardown, quick=300, thorough=12000, shards=2, case_limit=150, weight=2),
]
