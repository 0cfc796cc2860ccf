"""C03: every protocol message survives the wire with every field."""
import asyncio
import traceback as tbmod

import cloudpickle
from hypothesis import strategies as st

import xoscar as mo
from vf import graph as G
from vf.core import Search, Violation, run_async
from xoscar.backends import message as M
from xoscar.backends.allocate_strategy import AddressSpecified, IdleLabel, MainPool, ProcessIndex, Random, RandomLabel
from xoscar.serialization import AioDeserializer, AioSerializer, deserialize, serialize

RULE = ("a case is a message kind with random field values and a random object-graph payload, possibly wrapped in 0-3 forward "
        "messages, transported in memory or over a stream; non-trivial = a payload, reference, trace or wrapping is present")
ASSUMPTIONS = ["message ids are 32 bytes or absent; traces are lists of (message id, text) entries as the code produces"]


class DummyActor(mo.Actor):
    pass


class OtherActor(mo.StatelessActor):
    pass


class Boom:
    """payload that cannot be reconstructed"""

    def __init__(self, kind):
        self.kind = kind

    def __reduce__(self):
        return _explode, (self.kind,)


def _explode(kind):
    raise {"v": ValueError, "k": KeyError, "t": TypeError, "a": AttributeError}[kind]("cannot rebuild")


class CtorErr(Exception):
    def __init__(self, a, b):
        super().__init__(f"{a}-{b}")
        self.a, self.b = a, b

    def __reduce__(self):
        return CtorErr, (self.a, self.b)


def make_exc(spec, payload):
    kind, depth, cause = spec

    def f(n):
        if n:
            return f(n - 1)
        cls = {"value": ValueError, "key": KeyError, "cancel": asyncio.CancelledError, "os": OSError, "my": G.MyErr,
               "base": KeyboardInterrupt, "stop": StopAsyncIteration}.get(kind)
        e = CtorErr(1, "x") if kind == "ctor" else cls(3, "m") if cls in (G.MyErr, OSError) else cls("text")
        if cause:
            raise e from RuntimeError("the cause")
        raise e

    try:
        f(depth)
    except BaseException as e:
        return e


def ref(spec):
    addr, uid, proxies = spec
    uid = uid if uid is None else bytes.fromhex(uid)
    return mo.create_actor_ref(addr, uid, proxies) if proxies is not None else mo.create_actor_ref(addr, uid)


def strategy_of(p):
    if p is None:
        return None
    return [lambda: MainPool(), lambda: Random(), lambda: ProcessIndex(3), lambda: RandomLabel("lb"),
            lambda: IdleLabel("x", "mark"), lambda: AddressSpecified("127.0.0.1:77")][p]()


def build(c):
    g = G.Graph(c["g"]).root if c["g"] else None
    mid = bytes.fromhex(c["mid"]) if c["mid"] else None
    trace = None if c["trace"] is None else [(bytes.fromhex(x), "frame %d" % t) for t, x in c["trace"]]
    kw = dict(message_id=mid, message_trace=trace)
    k = c["kind"]
    fields = {"message_id": mid, "message_trace": trace, "protocol": 0}
    if k == "control":
        f = dict(address=c["addr"], control_message_type=list(M.ControlMessageType)[c["n"] % 7], content=g)
        cls = M.ControlMessage
    elif k == "result":
        f = dict(result=g, profiling_context=c["prof"])
        cls = M.ResultMessage
    elif k == "error":
        e = make_exc(c["exc"], g)
        f = dict(address=c["addr"], pid=c["n"], error_type=type(e), error=e, traceback=e.__traceback__)
        cls = M.ErrorMessage
    elif k == "create":
        f = dict(actor_cls=[DummyActor, OtherActor][c["n"] % 2], actor_id=bytes.fromhex(c["ref"][1]), args=(g, c["n"]),
                 kwargs={"kw": g, "z": c["addr"]}, allocate_strategy=strategy_of(c["strat"]), from_main=bool(c["n"] % 3))
        cls = M.CreateActorMessage
    elif k in ("destroy", "has", "ref"):
        f = dict(actor_ref=ref(c["ref"]))
        if k == "destroy":
            f["from_main"] = bool(c["n"] % 2)
        cls = {"destroy": M.DestroyActorMessage, "has": M.HasActorMessage, "ref": M.ActorRefMessage}[k]
    elif k in ("send", "tell"):
        f = dict(actor_ref=ref(c["ref"]), content=g, profiling_context=c["prof"])
        cls = {"send": M.SendMessage, "tell": M.TellMessage}[k]
    elif k == "cancel":
        f = dict(address=c["addr"], cancel_message_id=bytes.fromhex(c["ref"][1]))
        cls = M.CancelMessage
    else:
        f = dict(content=g)
        cls = {"buffers": M.CopyToBuffersMessage, "fileobjs": M.CopyToFileObjectsMessage}[k]
    msg = cls(**kw, **f)
    fields.update(f)
    return msg, fields


def state_of(x):
    if x is None:
        return None
    names = set(getattr(x, "__dict__", ()))
    for k in type(x).__mro__:
        names.update(getattr(k, "__slots__", ()))
    return {n: getattr(x, n) for n in names if hasattr(x, n) and n not in ("__dict__", "__weakref__")}


def compare(out, cls, fields, where):
    if type(out) is not cls:
        raise Violation(f"{where}: {cls.__name__} came back as {type(out).__name__}")
    if out.message_type is not cls.message_type:
        raise Violation(f"{where}: message type changed")
    for name, want in fields.items():
        got = getattr(out, name)
        if name == "traceback":
            a = [(x.filename, x.lineno, x.name) for x in tbmod.extract_tb(want)]
            b = [(x.filename, x.lineno, x.name) for x in tbmod.extract_tb(got)]
            if a != b:
                raise Violation(f"{where}.traceback: {a} -> {b}")
        elif name == "error":
            if type(got) is not type(want) or got.args != want.args or vars(got) != vars(want):
                raise Violation(f"{where}.error: {want!r} -> {got!r}")
        elif name == "actor_ref":
            if (got.address, got.uid, got.proxy_addresses) != (want.address, want.uid, want.proxy_addresses) or got != want:
                raise Violation(f"{where}.actor_ref: {(want.address, want.uid, want.proxy_addresses)} -> {(got.address, got.uid, got.proxy_addresses)}")
        elif name == "allocate_strategy":
            if type(got) is not type(want) or state_of(got) != state_of(want):
                raise Violation(f"{where}.allocate_strategy changed")
        else:
            try:
                G.isomorphic(want, got)
            except G.Different as e:
                raise Violation(f"{where}.{name} changed: {e}")


async def over_stream(msgs, chunk):
    data = b"".join([bytes(b) for m in msgs for b in await AioSerializer(m).run()])
    r = asyncio.StreamReader(limit=2 ** 22)

    async def feed():
        for i in range(0, len(data), max(chunk, len(data) // 50 + 1)):
            r.feed_data(data[i:i + max(chunk, len(data) // 50 + 1)])
            await asyncio.sleep(0)
        r.feed_eof()

    t = asyncio.ensure_future(feed())
    out = [await AioDeserializer(r).run() for _ in msgs]
    await t
    return out


def wrap(msg, wraps, mid):
    for i, addr in enumerate(wraps):
        msg = M.ForwardMessage(message_id=mid, address=addr, raw_message=msg, message_trace=None if i % 2 else [])
    return msg


def run(c):
    msg, fields = build(c)
    cls = type(msg)
    mid = fields["message_id"]
    wrapped = wrap(msg, c["wraps"], mid)
    repr(wrapped)
    if c["chunk"]:
        out, end = run_async(over_stream, [wrapped, M.ResultMessage(message_id=b"e" * 32, result="end")], c["chunk"])
        if end.message_id != b"e" * 32 or end.result != "end":
            raise Violation("the message after it changed")
    else:
        h, b = serialize(wrapped)
        out = deserialize(cloudpickle.loads(cloudpickle.dumps(h)), [bytes(x) for x in b])
    for i in range(len(c["wraps"]) - 1, -1, -1):
        compare(out, M.ForwardMessage, {"message_id": mid, "address": c["wraps"][i], "protocol": 0,
                                        "message_trace": None if i % 2 else []}, f"forward[{i}]")
        out = out.raw_message
    compare(out, cls, fields, c["kind"])
    return {"nontrivial": bool(c["g"] or c["wraps"] or c["trace"] or c["kind"] in ("destroy", "has", "ref", "cancel", "error")),
            "labels": [c["kind"], f"wraps{len(c['wraps'])}"]}


def run_fail(c):
    """undeliverable payload: the error names the message"""
    mid = bytes.fromhex(c["mid"])
    bad = Boom(c["boom"])
    content = {"plain": bad, "list": [1, "x" * 2000, bad, {"k": 2}], "tuple": ("m", 1, (b"y" * 1500, bad), {"kw": bad}), "dict": {"a": {"b": [bad]}}}[c["where"]]
    r = mo.create_actor_ref("127.0.0.1:1", b"u")
    k = c["kind"]
    msg = {"send": lambda: M.SendMessage(mid, r, content), "tell": lambda: M.TellMessage(mid, r, content), "result": lambda: M.ResultMessage(mid, content),
           "control": lambda: M.ControlMessage(mid, "a", M.ControlMessageType.stop, content), "buffers": lambda: M.CopyToBuffersMessage(mid, content),
           "create": lambda: M.CreateActorMessage(mid, DummyActor, b"u", (content,), {}), "createkw": lambda: M.CreateActorMessage(mid, DummyActor, b"u", (), {"k": content}),
           }[k]()
    msg = wrap(msg, c["wraps"], mid)

    async def go():
        data = b"".join([bytes(b) for m in (msg, M.ResultMessage(b"n" * 32, "next")) for b in await AioSerializer(m).run()])
        rd = asyncio.StreamReader(limit=2 ** 22)
        rd.feed_data(data)
        rd.feed_eof()
        try:
            out = await AioDeserializer(rd).run()
        except M.DeserializeMessageFailed as e:
            if e.message_id != mid:
                raise Violation(f"failure names {e.message_id!r}, message id is {mid!r}")
            if not isinstance(e.__cause__, (ValueError, KeyError, TypeError, AttributeError)):
                raise Violation(f"cause of the failure lost: {e.__cause__!r}")
        except Exception as e:
            raise Violation(f"failure does not name the message: {e!r}")
        else:
            raise Violation(f"delivered {out!r}")
        nxt = await AioDeserializer(rd).run()
        if nxt.message_id != b"n" * 32 or nxt.result != "next":
            raise Violation("the following message was damaged")

    run_async(go)
    return {"nontrivial": True, "labels": [k, c["where"]]}


HEX32 = st.binary(min_size=32, max_size=32).map(bytes.hex)
ADDR = st.sampled_from(["127.0.0.1:1234", "unixsocket:///1", "dummy://0", "ucx://h:1", "[::1]:9", "\u00e9:1"])


def strat():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["control", "result", "result", "error", "error", "create", "create", "destroy", "has", "ref", "send", "send", "tell", "cancel", "buffers", "fileobjs"]),
        "mid": st.one_of(HEX32, HEX32, HEX32, st.none()), "addr": st.one_of(ADDR, st.none()),
        "trace": st.one_of(st.none(), st.lists(st.tuples(st.integers(0, 9), HEX32).map(list), max_size=3)),
        "prof": st.one_of(st.none(), st.fixed_dictionaries({"a": st.integers()})), "n": st.integers(0, 2 ** 31 - 1),
        "g": st.one_of(st.none(), G.graphs(max_nodes=8, containers=G.PLAIN_CONTAINERS)),
        "ref": st.tuples(ADDR, st.binary(min_size=0, max_size=40).map(bytes.hex), st.one_of(st.none(), st.lists(ADDR, max_size=3))).map(list),
        "strat": st.one_of(st.none(), st.integers(0, 5)),
        "exc": st.tuples(st.sampled_from(["value", "key", "cancel", "os", "my", "base", "ctor", "stop"]), st.integers(0, 4), st.booleans()).map(list),
        "wraps": st.one_of(st.just([]), st.lists(ADDR, max_size=3)), "chunk": st.sampled_from([0, 0, 1, 7, 64, 5000])})


def strat_fail():
    return st.fixed_dictionaries({"kind": st.sampled_from(["send", "tell", "result", "control", "buffers", "create", "createkw"]),
                                  "mid": HEX32, "boom": st.sampled_from("vkta"), "where": st.sampled_from(["plain", "list", "tuple", "dict"]),
                                  "wraps": st.one_of(st.just([]), st.lists(ADDR, max_size=2))})


SEARCHES = [
    Search("roundtrip", strat, run, quick=14000, thorough=400000, shards=6, rule="message with fields, payload and wrappings"),
    Search("undeliverable", strat_fail, run_fail, quick=1500, thorough=20000, shards=1, rule="payload whose reconstruction raises"),
]
