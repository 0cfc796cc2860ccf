"""C05: a damaged or cut byte stream never becomes a message."""
import asyncio
import gc
import itertools
import os
import socket
import struct

import numpy as np
from hypothesis import strategies as st

import xoscar as mo
from vf.actors import Cluster
from vf.core import TSCALE, HarnessError, Search, Violation, run_async, weighted
from xoscar.backends.communication.base import ChannelType
from xoscar.backends.communication.socket import SocketChannel
from xoscar.backends.message import CreateActorMessage, ErrorMessage, HasActorMessage, ResultMessage, SendMessage, TellMessage, new_message_id
from xoscar.core import ActorRef
from xoscar.serialization import AioDeserializer, AioSerializer

RULE = ("frames: generated messages as bytes, cut anywhere, continued by garbage, or with a damaged version, length or compression field, fed in generated pieces to a receiver; "
        "server: generated raw connections to a pool that send complete calls and then such damage, beside healthy connections; client: a generated server that answers some calls of a caller and then "
        "damages or ends the stream. Non-trivial = a damage after at least one byte of a message")
ASSUMPTIONS = ["garbage does not begin with the version byte", "the bytes of a frame's body are only cut, not changed: there is no checksum", "a frame announced too long is noticed when the bytes run out or do not fit"]
TECHNIQUE = "fault-injecting property-based testing: generated damage of byte streams against the messages that arrived complete"
COUNT = itertools.count(1)
gc.freeze()
VERSION = 1


def make(spec):
    k, n, x = spec
    if k == "b":
        return (b"%d," % x * (n // 2 + 1))[:n]
    if k == "a":
        return ((np.arange(n) * (x + 1)) % 251).astype("u1")
    if k == "w":
        return [{"i": i, "v": "x" * (i % 5)} for i in range(n % 150)]
    if k == "l":
        return [((np.arange(n % 50 + j) * (x + 1)) % 251).astype("u1") for j in range(3)]
    return x


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


async def frame(obj):
    return b"".join(bytes(b) for b in await AioSerializer(obj).run())


def damaged(frames, d):
    """The stream, the number of frames that are complete and whether all frames stay intact."""
    k = d["at"] % (len(frames) + 1)
    before = b"".join(frames[:k])
    kind = d["kind"]
    if kind == "none":
        return b"".join(frames), len(frames)
    rest = b"".join(frames[k:])
    if kind == "cut":
        return before + rest[:int(d["where"] * len(frames[k]))] if k < len(frames) else before, k
    if kind == "garbage":
        g = bytes([d["byte"] if d["byte"] != VERSION else 0]) + bytes(d["garbage"])
        return before + g + (rest if d["then"] else b""), k
    if kind == "alien":
        # a header that only its sender can load
        head = b"cno_such_module\nThing\n."
        return before + struct.pack("<BQH", VERSION, len(head), 0) + head + bytes([VERSION]) * 50 + (rest if d["then"] else b""), k
    if k == len(frames):
        return before, k
    f = frames[k]
    after = b"".join(frames[k + 1:])
    if kind == "version":
        return before + bytes([d["byte"] if d["byte"] != VERSION else 255]) + f[1:] + after, k
    if kind == "compress":
        # not used: it changes nothing
        return before + f[:9] + struct.pack("<H", d["byte"]) + f[11:] + after, len(frames)
    n = struct.unpack("<Q", f[1:9])[0]
    new = {"longer": n + 1 + d["delta"], "shorter": max(0, n - 1 - d["delta"]), "zero": 0, "huge": (1 << (33 + d["delta"] % 31)) - 1}[kind]
    return before + f[:1] + struct.pack("<Q", new) + f[9:] + after, k


class FakeWriter:
    class transport:
        @staticmethod
        def set_write_buffer_limits(**kw):
            pass

    def is_closing(self):
        return False

    def close(self):
        pass

    async def wait_closed(self):
        pass


# ------------------------------------------------------------------ frames
def frames_run(c):
    async def go():
        objs = [["m", i, make(s)] for i, s in enumerate(c["messages"])]
        frames = [await frame(o) for o in objs]
        stream, complete = damaged(frames, c["damage"])
        if c["damage"]["kind"] == "cut" and complete < len(frames) and len(stream) == len(b"".join(frames[:complete + 1])):
            complete += 1
        reader = asyncio.StreamReader(limit=c["limit"])

        class Transport:
            def pause_reading(self):
                pass

            def resume_reading(self):
                pass

        reader.set_transport(Transport())
        if c["through"] == "channel":
            channel = SocketChannel(reader, FakeWriter(), channel_type=ChannelType.remote)
            recv = channel.recv
        else:
            async def recv():
                return await AioDeserializer(reader).run()

        got, error, over = [], None, []

        async def feed():
            pos = 0
            for size in itertools.cycle(c["pieces"]):
                if pos >= len(stream):
                    break
                reader.feed_data(stream[pos:pos + size])
                pos += size
                await asyncio.sleep(0)
            if c["end"] == "reset":
                # what was not read yet is lost
                while reader._buffer and reader._waiter is None and not over:
                    await asyncio.sleep(0)
                reader.set_exception(ConnectionResetError())
            else:
                reader.feed_eof()

        task = asyncio.ensure_future(feed())
        try:
            while True:
                got.append(await asyncio.wait_for(recv(), 10 * TSCALE))
        except asyncio.TimeoutError:
            raise Violation(f"the receiver still waits after the stream has ended ({c['damage']['kind']})") from None
        except Exception as e:
            error = e
        over.append(True)
        await task
        n = len(got)
        if n > len(objs) or not all(same(a, b) for a, b in zip(got, objs)):
            raise Violation(f"{c['damage']['kind']}: received {got!r:.300}, sent were {objs!r:.300}")
        if n != complete:
            raise Violation(f"{c['damage']['kind']}: received {n} messages, {complete} arrived complete; then {error!r}")
        if c["damage"]["kind"] in ("none", "cut", "version", "garbage", "compress", "huge", "longer") and not isinstance(error, (EOFError, ConnectionError)):
            raise Violation(f"{c['damage']['kind']}: the end of the stream is reported as {error!r}")
        return len(stream)

    n = run_async(go, limit=30)
    return {"nontrivial": n > 0 and c["damage"]["kind"] != "none", "labels": [c["damage"]["kind"]]}


def damage_strat():
    return st.fixed_dictionaries({
        "kind": weighted((5, st.just("cut")), (2, st.just("garbage")), (2, st.just("version")), (2, st.just("longer")), (2, st.just("shorter")), (1, st.just("zero")), (1, st.just("huge")), (1, st.just("compress")), (2, st.just("alien")), (1, st.just("none"))),
        "at": st.integers(0, 5), "where": st.one_of(st.floats(0, 1), st.sampled_from([0.0, 0.01, 0.5, 0.99, 0.999])), "byte": st.integers(0, 255), "garbage": st.lists(st.integers(0, 255), max_size=60), "then": st.booleans(),
        "delta": weighted((3, st.integers(0, 12)), (1, st.integers(0, 4000)))})


def message_strat():
    return st.tuples(st.sampled_from(["b", "a", "w", "l", "x"]), weighted((4, st.integers(0, 200)), (1, st.integers(0, 70000))), st.integers(0, 250))


def frames_strat():
    return st.fixed_dictionaries({"messages": st.lists(message_strat(), max_size=5), "damage": damage_strat(), "limit": st.sampled_from([1 << 16, 1, 64]),
                                  "pieces": st.lists(st.sampled_from([1, 3, 11, 12, 100, 1000, 1000, 65536]), min_size=1, max_size=4).filter(lambda p: sum(p) > 30 * len(p) or len(p) < 3),
                                  "end": weighted((5, st.just("eof")), (1, st.just("reset"))), "through": st.sampled_from(["channel", "channel", "object"])})


# ------------------------------------------------------------------ a server
RAN = []


class Target(mo.Actor):
    def hit(self, key, payload):
        RAN.append((key, payload))
        return key, payload

    def ping(self, n):
        return n


def server_run(c):
    async def go():
        RAN.clear()
        async with Cluster(1, tcp=True) as cl:
            refs = [await cl.create(Target, where=w, uid=f"t{w}") for w in (0, 1)]
            expected = []
            possible = []

            async def healthy(k, n):
                for i in range(n):
                    got = await refs[k % 2].ping((k, i))
                    if got != (k, i):
                        raise Violation(f"a healthy connection got {got} for {(k, i)}")
                    await asyncio.sleep(0)

            async def raw(k, spec):
                where = spec["where"] % 2
                host, port = cl.addresses[where].rsplit(":", 1)
                frames, calls = [], []
                for i, s in enumerate(spec["calls"]):
                    payload = make(s)
                    mid = new_message_id()
                    msg = SendMessage(mid, ActorRef(cl.addresses[where], f"t{where}"), ("hit", 0, ((k, i), payload), {}))
                    frames.append(await frame(msg))
                    calls.append((mid, (k, i), payload))
                stream, complete = damaged(frames, spec["damage"])
                if spec["damage"]["kind"] == "cut" and complete < len(frames) and len(stream) == len(b"".join(frames[:complete + 1])):
                    complete += 1
                reader, writer = await asyncio.open_connection(host, int(port))
                answers = {}

                async def listen():
                    try:
                        while True:
                            m = await AioDeserializer(reader).run()
                            answers[m.message_id] = m
                    except (EOFError, ConnectionError):
                        pass

                async def write(data):
                    pos = 0
                    try:
                        for size in itertools.cycle(spec["pieces"]):
                            if pos >= len(data):
                                break
                            writer.write(data[pos:pos + size])
                            pos += size
                            await writer.drain()
                    except ConnectionError:
                        # the server has closed the connection already
                        pass

                lt = asyncio.ensure_future(listen())
                expected.extend((key, p) for _, key, p in calls[:complete])
                possible.extend(key for _, key, _ in calls[:complete])
                if spec["wait"]:
                    # the answers of all complete calls arrive
                    intact = sum(map(len, frames[:complete]))
                    await write(stream[:intact])
                    for _ in range(5000):
                        if len(answers) >= complete:
                            break
                        await asyncio.sleep(0.002)
                    else:
                        raise Violation(f"{len(answers)} of {complete} complete calls were answered (damage {spec['damage']['kind']})")
                    await write(stream[intact:])
                else:
                    await write(stream)
                try:
                    if spec["end"] == "eof":
                        writer.write_eof()
                    elif spec["end"] == "reset":
                        writer.get_extra_info("socket").setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                        writer.close()
                    else:
                        writer.close()
                except (OSError, RuntimeError):
                    pass
                if spec["end"] == "eof":
                    done, _ = await asyncio.wait([lt], timeout=10 * TSCALE)
                    if not done:
                        raise Violation(f"the server does not close a connection that has ended (damage {spec['damage']['kind']})")
                lt.cancel()
                for mid, m in answers.items():
                    want = [x for x in calls[:complete] if x[0] == mid]
                    if not want:
                        raise Violation(f"an answer {m!r:.200} to a call that was not made completely")
                    if not isinstance(m, ResultMessage) or not same(list(m.result), [want[0][1], want[0][2]]):
                        raise Violation(f"the answer to {want!r:.200} is {m!r:.200}")
                writer.close()

            await asyncio.gather(*[healthy(k, n) for k, n in enumerate(c["healthy"])], *[raw(k, s) for k, s in enumerate(c["raw"])])
            for _ in range(2000):
                if len(RAN) >= len(expected):
                    break
                await asyncio.sleep(0.002)
            resets = any(s["end"] != "eof" for s in c["raw"])
            keys = [k for k, _ in RAN]
            if len(set(keys)) != len(keys):
                raise Violation(f"calls ran twice: {keys}")
            for key, p in RAN:
                want = [x for x in expected if x[0] == key]
                if not want or not same(want[0][1], p):
                    raise Violation(f"ran {(key, p)!r:.200}, complete calls are {[x[0] for x in expected]}")
            if len(RAN) != len(expected) and not resets:
                raise Violation(f"{len(RAN)} of {len(expected)} complete calls ran: {keys}, must be {[x[0] for x in expected]}")
            # new connections are accepted
            for w in (0, 1):
                host, port = cl.addresses[w].rsplit(":", 1)
                r, wr = await asyncio.open_connection(host, int(port))
                mid = new_message_id()
                wr.write(await frame(HasActorMessage(mid, ActorRef(cl.addresses[w], f"t{w}"))))
                m = await asyncio.wait_for(AioDeserializer(r).run(), 10 * TSCALE)
                if m.message_id != mid or m.result is not True:
                    raise Violation(f"a new connection got {m!r}")
                wr.close()
                if await refs[w].ping(7) != 7:
                    raise Violation("a healthy connection is broken")

    run_async(go, limit=60)
    return {"nontrivial": any(s["calls"] for s in c["raw"]), "labels": sorted({s["damage"]["kind"] for s in c["raw"]})}


def server_strat():
    raw = st.fixed_dictionaries({"where": st.integers(0, 1), "calls": st.lists(message_strat(), max_size=4), "damage": damage_strat(), "pieces": st.lists(st.sampled_from([5, 11, 100, 1000, 65536, 65536]), min_size=1, max_size=3),
                                 "wait": weighted((3, st.just(True)), (1, st.just(False))), "end": weighted((4, st.just("eof")), (2, st.just("close")), (1, st.just("reset")))})
    return st.fixed_dictionaries({"raw": st.lists(raw, min_size=1, max_size=3), "healthy": st.lists(st.integers(0, 6), max_size=2)})


# ------------------------------------------------------------------ a client
def client_run(c):
    state = {"open": 0}

    async def go():
        from xoscar.backends.router import Router
        from vf.actors import NoMapRouter
        Router.set_instance(None)
        Router.set_instance(NoMapRouter([], None))
        conns = []
        seen = asyncio.Event()

        async def serve(reader, writer):
            k = len(conns)
            conns.append(writer)
            plan = c["connections"][k] if k < len(c["connections"]) else None
            n = 0
            asked = []
            try:
                while True:
                    m = await AioDeserializer(reader).run()
                    asked.append(m)
                    if plan is None:
                        # a healthy server from now on
                        writer.write(await frame(ResultMessage(m.message_id, ["ok", list(m.content[2])])))
                        await writer.drain()
                        continue
                    if len(asked) < plan["collect"]:
                        continue
                    frames = []
                    answered = asked[:plan["answer"]]
                    for a in reversed(answered) if plan["reverse"] else answered:
                        frames.append(await frame(ResultMessage(a.message_id, ["ok", list(a.content[2])])))
                    stream, complete = damaged(frames, plan["damage"])
                    if plan["damage"]["kind"] == "cut" and complete < len(frames) and len(stream) == len(b"".join(frames[:complete + 1])):
                        complete += 1
                    order = list(reversed(answered)) if plan["reverse"] else answered
                    good[k] = {a.content[2][0] for a in order[:complete]}
                    pos = 0
                    for size in itertools.cycle(plan["pieces"]):
                        if pos >= len(stream):
                            break
                        writer.write(stream[pos:pos + size])
                        pos += size
                        await writer.drain()
                    if plan["damage"]["kind"] == "alien" and plan["end"] == "eof":
                        # stays open until the client closes it
                        try:
                            while True:
                                m = await AioDeserializer(reader).run()
                                late.append(m)
                        except (EOFError, ConnectionError):
                            pass
                    if plan["end"] == "reset":
                        await asyncio.sleep(0.05)
                        writer.get_extra_info("socket").setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    writer.close()
                    return
            except (EOFError, ConnectionError):
                pass
            finally:
                writer.close()

        good = {}
        late = []
        server = await asyncio.start_server(serve, "127.0.0.1", 0)
        address = "127.0.0.1:%d" % server.sockets[0].getsockname()[1]
        try:
            ref = ActorRef(address, b"x")
            key = 0
            for k, plan in enumerate(c["connections"]):
                batch = list(range(key, key + plan["collect"]))
                key += plan["collect"]
                tasks = {i: asyncio.ensure_future(ref.anything(i, make(plan["payload"]))) for i in batch}
                done, pending = await asyncio.wait(tasks.values(), timeout=15 * TSCALE)
                if pending:
                    for w in conns:
                        w.close()
                    raise Violation(f"calls wait although the connection has ended ({plan['damage']['kind']}, {plan['end']}; answered are {good.get(k)})")
                if len(conns) != k + 1:
                    raise HarnessError(f"{len(conns)} connections, expected {k + 1}")
                for i, t in tasks.items():
                    if t.exception() is None:
                        if not same(t.result(), ["ok", [i, make(plan["payload"])]]):
                            raise Violation(f"call {i} got {t.result()!r:.200}")
                        if i not in good[k]:
                            raise Violation(f"call {i} got a result although its answer did not arrive completely ({plan['damage']['kind']})")
                    else:
                        if i in good[k]:
                            raise Violation(f"call {i} failed with {t.exception()!r:.200} although its answer arrived completely before ({plan['damage']['kind']}, answered {good[k]})")
                        state["open"] += 1
                if late:
                    raise Violation("the caller uses a connection on which it lost track of the messages")
            # the caller connects again
            for _ in range(200):
                task = asyncio.ensure_future(ref.again(key, 1))
                if not (await asyncio.wait([task], timeout=10 * TSCALE))[0]:
                    for w in conns:
                        w.close()
                    raise Violation("a call after the damage is not answered")
                try:
                    got = task.result()
                    break
                except (ConnectionError, mo.ServerClosed, EOFError):
                    await asyncio.sleep(0.005)
            else:
                raise Violation("the caller does not connect again")
            if not same(got, ["ok", [key, 1]]):
                raise Violation(f"after the damage a call got {got!r}")
        finally:
            server.close()
            for w in conns:
                w.close()
            Router.set_instance(None)

    run_async(go, limit=60)
    return {"nontrivial": state["open"] > 0, "labels": sorted({p["damage"]["kind"] for p in c["connections"]})}


def client_strat():
    plan = st.fixed_dictionaries({"collect": st.integers(1, 5), "answer": st.integers(0, 5), "reverse": st.booleans(), "damage": damage_strat(), "payload": message_strat(),
                                  "pieces": st.lists(st.sampled_from([5, 11, 100, 1000, 65536, 65536]), min_size=1, max_size=3), "end": weighted((4, st.just("eof")), (1, st.just("reset")))})
    return st.fixed_dictionaries({"connections": st.lists(plan, min_size=1, max_size=2)})


SEARCHES = [
    Search("frames", frames_strat, frames_run, quick=1200, thorough=40000, shards=3),
    Search("server", server_strat, server_run, quick=500, thorough=10000, shards=3),
    Search("client", client_strat, client_run, quick=500, thorough=10000, shards=2),
]
