"""C04: channels deliver every message once, in order and intact."""
import asyncio
import itertools
import json
import os
import socket

import numpy as np
from hypothesis import strategies as st

from vf.actors import spin
from vf.core import Search, Violation, bounded, run_async, weighted
from xoscar.backends.communication import DummyServer, SocketServer, UnixSocketServer
from xoscar.backends.communication.errors import ChannelClosed

RULE = ("1-3 connections of one kind (in-process, TCP, unix socket) to one server, both directions at once, 1-3 concurrent sending tasks per "
        "direction with 1-8 messages each (0 B - 3 MB, buffers, wide graphs, some cancelled), paced receivers, small kernel buffers; "
        "non-trivial = overlapping sends or at least 64 kB or more than 100 objects in one message")
ASSUMPTIONS = ["a message counts as issued when its send starts running",
               "a cancelled send may arrive or not, but never partly",
               "in-process channels hand over the object itself, so objects are not changed after sending there; "
               "closing an in-process channel may discard what was not received yet"]
TECHNIQUE = "property-based testing: generated send/receive schedules against a FIFO queue model per direction"

COUNT = itertools.count(os.getpid() * 100000)


def make(spec):
    k = spec[0]
    if k == "b":
        return (b"%d," % spec[2] * (spec[1] // 2 + 1))[:spec[1]]
    if k == "a":
        return ((np.arange(spec[1]) * (spec[2] + 1)) % 251).astype("u1")
    if k == "A":
        return np.asfortranarray((np.arange(spec[1] * 3) * (spec[2] + 1)).reshape(-1, 3))
    if k == "s":
        return chr(97 + spec[2] % 26) * spec[1]
    if k == "w":
        return [{"i": i, "v": ["x" * (i % 7)]} for i in range(spec[1])]
    if k == "l":
        return [make(s) for s in spec[1]]
    return spec[1]


def arrays(obj):
    if isinstance(obj, np.ndarray):
        yield obj
    elif isinstance(obj, list):
        for x in obj:
            yield from arrays(x)


def equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and (a == b).all()
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(equal, a, b))
    return a == b


def weight(spec):
    if spec[0] == "l":
        return sum(map(weight, spec[1]))
    return spec[1] * (24 if spec[0] == "A" else 1) if spec[0] in "baAs" else 66000 if spec[0] == "w" and spec[1] > 20 else 0


def capped(spec, limit):
    """the same kind of message within the number of bytes that a small kernel buffer can move in a test's time"""
    if spec[0] == "l":
        return ["l", [capped(x, limit // len(spec[1])) for x in spec[1]]]
    if spec[0] in "baAs":
        return [spec[0], min(spec[1], limit // (24 if spec[0] == "A" else 1)), spec[2]]
    return spec


async def sending(channel, plan, issued, side):
    """runs the senders of one direction; issued gets [key, spec, surely sent]"""
    async def one(si, msgs):
        for mi, (delay, spec, mutate, cancel) in enumerate(msgs):
            await spin(delay)
            obj = make(spec)
            key = [side, si, mi]
            entry = [key, spec, True]
            if cancel is None:
                issued.append(entry)
                await channel.send([key, obj])
                if mutate:
                    for a in arrays(obj):
                        a[...] = 255
            else:
                async def go():
                    issued.append(entry)
                    await channel.send([key, obj])
                t = asyncio.ensure_future(go())
                await asyncio.sleep(0)
                await spin(cancel)
                t.cancel()
                try:
                    await t
                except asyncio.CancelledError:
                    entry[2] = False

    await asyncio.gather(*[one(i, m) for i, m in enumerate(plan["senders"])])


async def receiving(channel, plan, got, eof):
    async def one():
        i = 0
        while True:
            p = plan["pace"][i % len(plan["pace"])] if plan["pace"] else 0
            i += 1
            if p > 5:
                await asyncio.sleep(0.0005 * p)
            else:
                await spin(p)
            try:
                msg = await channel.recv()
            except (EOFError, ConnectionError, ChannelClosed) as e:
                eof.append(e)
                return
            got.append(msg)

    await spin(plan["start"])
    await asyncio.gather(*[one() for _ in range(plan["receivers"])])


def compare(what, issued, got):
    i = 0
    for msg in got:
        if not isinstance(msg, list) or len(msg) != 2:
            raise Violation(f"{what}: received something never sent: {str(msg)[:200]}")
        while i < len(issued) and issued[i][0] != msg[0] and not issued[i][2]:
            i += 1
        if i >= len(issued):
            raise Violation(f"{what}: extra message {msg[0]}; sent {[e[0] for e in issued]}, received {[m[0] for m in got]}")
        if issued[i][0] != msg[0]:
            raise Violation(f"{what}: message {msg[0]} received where {issued[i][0]} was due; sent {[e[0] for e in issued]}, received {[m[0] for m in got]}")
        if not equal(msg[1], make(issued[i][1])):
            raise Violation(f"{what}: message {msg[0]} of {issued[i][1]} arrived altered: {str(msg[1])[:200]}")
        i += 1
    rest = [e[0] for e in issued[i:] if e[2]]
    if rest:
        raise Violation(f"{what}: messages {rest} never arrived; sent {[e[0] for e in issued]}, received {[m[0] for m in got]}")


def shrink_buffers(channel, size):
    sock = channel.writer.get_extra_info("socket")
    sock.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, size)


async def case(c):
    kind = c["kind"]
    for conn in c["conns"]:
        msgs = [m for d in conn["dirs"] for s in d["senders"] for m in s]
        for m in msgs:
            m[1] = capped(m[1], (80000 if conn["buf"] and kind != "dummy" else 6000000) // len(msgs) + 70000 * (not conn["buf"]))
    accepted = asyncio.Queue()
    hold = asyncio.Event()

    async def handler(channel):
        accepted.put_nowait(channel)
        await hold.wait()

    conf = {"handle_channel": handler}
    if kind == "tcp":
        server = await SocketServer.create({**conf, "host": "127.0.0.1", "port": 0})
    elif kind == "unix":
        server = await UnixSocketServer.create({**conf, "process_index": next(COUNT)})
    else:
        server = await DummyServer.create({**conf, "address": f"dummy://{next(COUNT)}"})
    await server.start()
    logs = []
    try:
        jobs, clients, ends = [], [], []
        for ci, conn in enumerate(c["conns"]):
            client = await bounded(server.client_type.connect(server.address, local_address=f"client{ci}"), 20, "connect")
            chan = await bounded(accepted.get(), 20, "accept")
            clients.append(client)
            ends.append(chan)
            if kind != "dummy" and conn["buf"]:
                shrink_buffers(client.channel, conn["buf"])
                shrink_buffers(chan, conn["buf"])
            for side, (src, dst) in enumerate([(client, chan), (chan, client)]):
                plan = conn["dirs"][side]
                issued, got, eof = [], [], []
                logs.append((f"{kind} connection {ci} {'client->server' if side == 0 else 'server->client'}", issued, got, src, dst, eof))
                jobs.append((asyncio.ensure_future(sending(src, plan, issued, side)), asyncio.ensure_future(receiving(dst, plan, got, eof))))
        try:
            await bounded(asyncio.gather(*[s for s, _ in jobs]), 20, "sending")
            # closing one side after its last message still delivers everything
            early = kind != "dummy" and c["close"] != "none"
            if early:
                for i, cl in enumerate(clients):
                    closer, other = (cl, jobs[2 * i + 1]) if c["close"] == "client" else (ends[i], jobs[2 * i])
                    # what the closing side still has to receive comes first
                    which = 2 * i + 1 if c["close"] == "client" else 2 * i
                    await wait_for_all(logs[which])
                    await closer.close()
                await asyncio.wait([r for _, r in jobs], timeout=20)
            else:
                for log in logs:
                    await wait_for_all(log)
        finally:
            for pair in jobs:
                for t in pair:
                    if not t.done():
                        t.cancel()
            await asyncio.wait([t for p in jobs for t in p])
        for _, r in jobs:
            if not r.cancelled() and r.exception() is not None:
                raise r.exception()
        for what, issued, got, *_ in logs:
            compare(what, issued, got)
        for cl in clients:
            await bounded(cl.close(), 10, "closing")
    finally:
        hold.set()
        await bounded(server.stop(), 10, "stopping the server")
    return logs


async def wait_for_all(log):
    what, issued, got, *_ = log
    for k in range(5000):
        if len(got) >= sum(e[2] for e in issued):
            await spin(3)
            if len(got) == len(issued) or k > 20 or all(e[2] for e in issued):
                return
        await asyncio.sleep(0 if k < 200 else 0.004)


def run(c):
    run_async(case, json.loads(json.dumps(c)), limit=60)
    specs = [m[1] for k in c["conns"] for d in k["dirs"] for s in d["senders"] for m in s]
    par = any(len(d["senders"]) > 1 for k in c["conns"] for d in k["dirs"])
    labels = [c["kind"], "close:" + c["close"]] + (["parallel"] if par else []) + (["big"] if any(weight(s) >= 65536 for s in specs) else [])
    labels += ["cancel"] if any(m[3] is not None for k in c["conns"] for d in k["dirs"] for s in d["senders"] for m in s) else []
    labels += ["mutate"] if any(m[2] for k in c["conns"] for d in k["dirs"] for s in d["senders"] for m in s) else []
    return {"nontrivial": len(specs) > 1 and (par or any(weight(s) >= 65536 for s in specs)), "labels": labels}


def strat():
    n = st.one_of(st.integers(0, 40), st.integers(0, 3000), st.sampled_from([4096, 30000, 65535, 65536, 65537, 131072, 300000, 1000000, 3000000]))
    leaf = st.one_of(st.tuples(st.sampled_from("bbaAs"), n, st.integers(0, 30)).map(list), st.tuples(st.just("o"), st.integers(0, 9)).map(list),
                     st.tuples(st.just("w"), st.sampled_from([1, 5, 24, 25, 26, 60, 200])).map(list))
    spec = st.one_of(leaf, leaf, st.lists(leaf, max_size=4).map(lambda x: ["l", x]))

    def build(kind):
        msg = st.tuples(st.integers(0, 3), spec, st.booleans() if kind != "dummy" else st.just(False),
                        weighted((4, st.none()), (1, st.integers(0, 4)))).map(list)
        direction = st.fixed_dictionaries({
            "senders": st.one_of(st.lists(st.lists(msg, min_size=1, max_size=6), max_size=3), st.lists(st.lists(msg, min_size=1, max_size=8), min_size=1, max_size=1)),
            "receivers": st.sampled_from([1, 1, 1, 2]), "pace": st.lists(st.sampled_from([0, 0, 0, 1, 3, 6]), max_size=3), "start": st.integers(0, 20)})
        conn = st.fixed_dictionaries({"dirs": st.tuples(direction, direction).map(list), "buf": st.sampled_from([0, 0, 5000, 20000])})
        return st.fixed_dictionaries({"kind": st.just(kind), "close": st.sampled_from(["none", "client", "server"]),
                                      "conns": st.one_of(st.lists(conn, min_size=1, max_size=1), st.lists(conn, min_size=1, max_size=3))})

    return st.one_of(build("tcp"), build("unix"), build("dummy"), build("tcp"))


SEARCHES = [
    Search("channels", strat, run, quick=2600, thorough=100000, shards=8, rule=RULE),
]
