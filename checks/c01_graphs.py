"""C01: object graphs survive serialization (round-trip + isomorphism oracle)."""
import asyncio
import io
import pickle

import cloudpickle
import numpy as np
from hypothesis import strategies as st

from vf import graph as G
from vf.core import Search, Violation, check, run_async
from xoscar.aio import AioFileObject
from xoscar.serialization import AioDeserializer, AioSerializer, Serializer, deserialize, serialize, serialize_with_spawn
from xoscar.serialization.core import buffered

RULE = ("a case is a random object graph (<= 15 nodes, or a wide one around the spawn threshold) with a way of "
        "driving the serializer; non-trivial = at least one container with content, or a buffer-sized scalar; "
        "distinct by case content")
ASSUMPTIONS = [
    "sharing is judged for list/dict/tuple/registered-type positions; objects travelling as one pickled unit (sets, "
    "deques, plain instances, exceptions, Counter, dict subclasses without init arguments) keep sharing only inside",
    "cycles run through lists and dict values; instance attributes of container subclasses are outside the domain",
    "memoryview and bytes-like buffers are compared by content",
]


class TreeSer(Serializer):
    @buffered
    def serial(self, obj, context):
        return (obj.label, type(obj)), list(obj.kids), False

    def deserial(self, serialized, context, subs):
        label, cls = serialized
        return cls(label, list(subs))


class LooseSer(Serializer):
    def serial(self, obj, context):
        return (len(obj.items),), [list(obj.items), {}, tuple(obj.items)], False

    def deserial(self, serialized, context, subs):
        if len(subs[0]) != serialized[0] or subs[1] != {} or len(subs[2]) != serialized[0]:
            raise Violation(f"sub-objects of a serializer came back wrong: {subs!r}")
        return G.Loose(subs[0])


class BlobSer(Serializer):
    @buffered
    def serial(self, obj, context):
        return (len(obj.parts),), list(obj.parts), True

    def deserial(self, serialized, context, subs):
        return G.Blob([bytes(x) for x in subs])


class Pack:
    def __init__(self, style, vals):
        self.style, self.vals = style, vals

    def __eq__(self, o):
        return type(o) is Pack and (self.style, self.vals) == (o.style, o.vals)

    def __repr__(self):
        return f"Pack({self.style}, {str(self.vals)[:60]})"


def temporaries(style, vals):
    """fresh objects only this serialization knows"""
    if style == "lists":
        return [[v] for v in vals]
    if style == "list":
        return [list(vals)]
    if style == "tuples":
        return [(v, v) for v in vals]
    if style == "nested":
        return [[[v], (v,)] for v in vals]
    if style == "dicts":
        return [{"k": v} for v in vals]
    if style == "bytes":
        return [v.encode() for v in vals]
    if style == "strs":
        return [v[:-1] + v[-1:] for v in vals]
    if style == "arrays":
        return [np.frombuffer(v.encode(), "u1").copy() for v in vals]
    return [G.Plain(v=v) for v in vals]


def from_temporaries(style, subs):
    if style == "lists":
        return [x for x, in subs]
    if style == "list":
        return list(subs[0])
    if style == "tuples":
        if any(a != b for a, b in subs):
            raise Violation(f"tuple of twice the same string became {subs}")
        return [a for a, b in subs]
    if style == "nested":
        if any(x[0] != y[0] for x, y in subs):
            raise Violation(f"nested {subs}")
        return [x[0] for x, y in subs]
    if style == "dicts":
        return [x["k"] for x in subs]
    if style == "bytes":
        return [bytes(x).decode() for x in subs]
    if style == "strs":
        return list(subs)
    if style == "arrays":
        return [x.tobytes().decode() for x in subs]
    return [x.v for x in subs]


class PackSer(Serializer):
    @buffered
    def serial(self, obj, context):
        return (obj.style,), temporaries(obj.style, obj.vals), False

    def deserial(self, serialized, context, subs):
        return Pack(serialized[0], from_temporaries(serialized[0], subs))


PackSer.register(Pack)
TreeSer.register(G.Tree)
LooseSer.register(G.Loose)
BlobSer.register(G.Blob)

BUF = {"bytes": bytes, "memoryview": lambda b: memoryview(bytes(b))}


def via_plain(obj, mode):
    header, bufs = serialize(obj)
    header = cloudpickle.loads(cloudpickle.dumps(header))
    return deserialize(header, [BUF[mode["buf"]](b) for b in bufs])


async def via_spawn(obj, mode):
    header, bufs = await serialize_with_spawn(obj, spawn_threshold=mode["threshold"])
    header = cloudpickle.loads(cloudpickle.dumps(header))
    return deserialize(header, [BUF[mode["buf"]](b) for b in bufs])


async def via_file(obj, mode):
    bufs = await AioSerializer(obj).run()
    data = b"".join(bytes(b) for b in bufs)
    tail = b"\x01tail"
    f = AioFileObject(io.BytesIO(data + tail))
    size = await AioDeserializer(f).get_size()
    check(size == len(data), f"announced size {size}, stream has {len(data)}")
    await f.seek(0)
    r = await AioDeserializer(f).run()
    pos = await f.tell()
    check(pos == len(data), f"deserializer consumed {pos} of {len(data)} bytes")
    return r


async def via_stream(obj, mode):
    """two messages back to back through a StreamReader, in chunks"""
    bufs = await AioSerializer(obj).run()
    data = b"".join(bytes(b) for b in bufs)
    bufs2 = await AioSerializer(["end", 7]).run()
    data += b"".join(bytes(b) for b in bufs2)
    r = asyncio.StreamReader(limit=2**20)

    async def feed():
        pos, i = 0, 0
        sizes = mode["chunks"] or [len(data)]
        while pos < len(data):
            n = max(sizes[i % len(sizes)], len(data) // 64 + 1)
            r.feed_data(data[pos:pos + n])
            pos += n
            i += 1
            await asyncio.sleep(0)
        r.feed_eof()

    t = asyncio.ensure_future(feed())
    out = await AioDeserializer(r).run()
    nxt = await AioDeserializer(r).run()
    await t
    check(nxt == ["end", 7], f"the message after it became {nxt!r}")
    return out


def run_graph(case):
    spec, mode = case["g"], case["m"]
    g, twin = G.Graph(spec), G.Graph(spec)
    how = mode["how"]
    if how == "plain":
        out = via_plain(g.root, mode)
    elif how == "direct":
        out = deserialize(*serialize(g.root))
    else:
        out = run_async({"spawn": via_spawn, "file": via_file, "stream": via_stream}[how], g.root, mode)
    try:
        G.isomorphic(g.root, out, sharing=how != "direct")
    except G.Different as e:
        raise Violation(f"{how}: result differs from what was serialized: {e}")
    try:
        G.isomorphic(twin.root, g.root)
    except G.Different as e:
        raise Violation(f"{how}: serializing altered the object: {e}")
    if how != "direct":
        try:
            G.isomorphic(twin.root, out)
        except G.Different as e:
            raise Violation(f"{how}: result differs: {e}")
    labs = G.features(spec)
    nt = any(G.kids(n) for n in spec["n"]) or any(n[0] in ("str", "bytes") and n[1] > 1000 for n in spec["n"])
    labels = ["how:" + how] + sorted(labs & {"shared", "shared-empty", "back-edge", "tree", "loose", "blob", "exc", "noargdict", "counter"})
    if g.cyclic:
        labels.append("cyclic")
    return {"nontrivial": nt, "labels": labels}


modes = st.one_of(
    st.builds(lambda b: {"how": "plain", "buf": b}, st.sampled_from(sorted(BUF))),
    st.builds(lambda b, t: {"how": "spawn", "buf": b, "threshold": t}, st.sampled_from(sorted(BUF)),
              st.sampled_from([1, 1, 2, 3, 4, 7, 100])),
    st.just({"how": "file"}), st.just({"how": "direct"}),
    st.builds(lambda c: {"how": "stream", "chunks": c}, st.lists(st.integers(1, 200), max_size=3)))


def run_temps(case):
    """serializers that hand out temporary objects: nothing may remember their addresses"""
    objs = [Pack(s, [v * 30 + str(i) for v in vals]) for i, (s, vals) in enumerate(case["objs"])]
    tops = [[objs[i % len(objs)]] if i % 2 else objs[i % len(objs)] for i in case["top"]]
    mode = case["m"]
    how = mode["how"]
    if how == "plain":
        out = via_plain(tops, mode)
    elif how == "direct":
        out = deserialize(*serialize(tops))
    else:
        out = run_async({"spawn": via_spawn, "file": via_file, "stream": via_stream}[how], tops, mode)
    if out != tops:
        bad = next((i for i, (a, b) in enumerate(zip(out, tops)) if a != b), -1)
        raise Violation(f"{how}: element {bad}: {str(out[bad])[:300]} instead of {str(tops[bad])[:300]}")
    firsts = {}
    for i, x in zip(case["top"], out):
        x = x[0] if i % 2 else x
        if firsts.setdefault(i % len(objs), x) is not x:
            raise Violation("an object met twice came back as two")
    return {"nontrivial": len(set(i % len(objs) for i in case["top"])) > 1, "labels": sorted({s for s, _ in case["objs"]}) + ["how:" + how]}


def strat_temps():
    obj = st.tuples(st.sampled_from(["lists", "list", "tuples", "nested", "dicts", "bytes", "strs", "arrays", "plain"]),
                    st.lists(st.text("abcdefgh", min_size=1, max_size=2), max_size=4)).map(list)
    return st.one_of(
        st.fixed_dictionaries({"objs": st.lists(obj, min_size=2, max_size=8), "top": st.lists(st.integers(0, 15), min_size=2, max_size=20), "m": modes}),
        st.builds(lambda s, v, n, m: {"objs": [[s, v]] * n, "top": list(range(0, 2 * n, 2)) + list(range(1, 2 * n, 2)), "m": m},
                  st.sampled_from(["lists", "list", "tuples", "nested", "dicts"]), st.lists(st.sampled_from("abc"), min_size=1, max_size=3),
                  st.integers(2, 12), modes))


def strat():
    return st.fixed_dictionaries({"g": G.graphs(), "m": modes})


def strat_wide():
    return st.fixed_dictionaries({"g": G.wide(), "m": st.one_of(
        st.builds(lambda t: {"how": "spawn", "buf": "bytes", "threshold": t}, st.sampled_from([1, 5, 50, 99, 100, 101, 200])),
        st.just({"how": "file"}), st.just({"how": "stream", "chunks": [4000]}))})


# ---- which serializer handles which type ------------------------------------
def run_dispatch(case):
    """register serializers for some classes of a random hierarchy; every instance must be
    handled by the serializer of the nearest registered ancestor, whatever was looked up before"""
    classes = [type("Base", (), {})]
    for i, parents in enumerate(case["parents"]):
        bases = []
        for p in sorted(set(parents), reverse=True):
            c = classes[-1 - p % len(classes)]
            if not any(issubclass(b, c) for b in bases):
                bases.append(c)
        try:
            classes.append(type(f"K{i}", tuple(bases) or (object,), {"__module__": __name__}))
        except TypeError:
            classes.append(type(f"K{i}", (classes[0],), {}))
    done = []
    registered = {}
    used = []
    try:
        for op, k in [["reg", 0]] + case["ops"]:
            cls = classes[k % len(classes)]
            if op == "reg" and cls not in registered:
                n = len(done)

                class Ser(Serializer):
                    serializer_id = 30000 + n

                    @buffered
                    def serial(self, obj, context):
                        return (self.serializer_id,), [], True

                    def deserial(self, serialized, context, subs):
                        return ("handled", serialized[0], type(self).serializer_id)

                Ser.register(cls)
                registered[cls] = Ser
                done.append((Ser, cls))
            elif op == "unreg" and cls in registered:
                ser = registered.pop(cls)
                ser.unregister(cls)
            elif op == "use":
                want = next((registered[c].serializer_id for c in cls.__mro__ if c in registered), None)
                if want is None:
                    continue  # falls to pickle of a local class
                h, b = serialize([cls(), "x"])
                out = deserialize(cloudpickle.loads(cloudpickle.dumps(h)), b)
                if out != [("handled", want, want), "x"]:
                    raise Violation(f"instance of {cls.__name__} handled as {out!r}, want serializer {want}")
                used.append(cls)
    finally:
        for cls, ser in list(registered.items()):
            ser.unregister(cls)
    return {"nontrivial": len(used) > 0, "labels": ["used%d" % min(len(used), 3)]}


def strat_dispatch():
    return st.fixed_dictionaries({
        "parents": st.lists(st.lists(st.sampled_from([0, 0, 0, 1, 1, 2, 3]), min_size=1, max_size=2), min_size=1, max_size=6),
        "ops": st.lists(st.tuples(st.sampled_from(["reg", "reg", "use", "use", "use", "unreg"]), st.integers(0, 6)).map(list), min_size=2, max_size=14)})


SEARCHES = [
    Search("temporaries", strat_temps, run_temps, quick=3000, thorough=60000, shards=1,
           rule="objects whose serializer hands out temporary containers, strings, arrays"),
    Search("graphs", strat, run_graph, quick=14000, thorough=400000, shards=6,
           rule="random graph, isomorphism of types, values, order and sharing before/after"),
    Search("wide", strat_wide, run_graph, quick=600, thorough=20000, shards=1,
           rule="graphs of 20-400 nodes around the thresholds of the spawning serializers"),
    Search("dispatch", strat_dispatch, run_dispatch, quick=2500, thorough=60000, shards=1,
           rule="random class hierarchy, history of register/unregister/use"),
]
