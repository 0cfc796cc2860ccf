"""C13: losing a server fails its calls promptly and only those."""
import asyncio
import gc
import itertools
import os
import signal

import xoscar as mo
from hypothesis import strategies as st
from xoscar.backends.communication import DummyServer, SocketServer, UnixSocketServer
from xoscar.backends.message import CancelMessage, ErrorMessage, ResultMessage, SendMessage, new_message_id
from xoscar.backends.router import Router
from xoscar.core import ActorRef
from xoscar.errors import CannotCancelTask, ServerClosed

from vf.actors import Cluster, spin
from vf.core import Search, Violation, bounded, run_async, weighted
from vf.realpool import RealPool

RULE = ("scripted: 1-10 overlapping calls to two servers that answer in any order, twice, with an error, with a payload that cannot be loaded, after the "
        "caller gave up, with an unknown id, or never, and drop the connection at any point; pools: calls in flight while an in-process pool stops; "
        "processes: calls in flight (also relayed by actors and the main pool) while a sub-pool process is killed; "
        "non-trivial = at least two calls outstanding at a loss or one abnormal reply")
ASSUMPTIONS = ["a call whose answer races with the loss of its connection may get either",
               "later calls to a lost address fail with ServerClosed or a connection error",
               "a call caught by the loss before its message is sent may also see the connection error itself",
               "promptly = within 15 s on a loaded machine"]
TECHNIQUE = "property-based testing: fault injection by scripted servers and killed processes, against the set of outcomes allowed per call"

COUNT = itertools.count(os.getpid() * 100000)
LOST = (ServerClosed, ConnectionError, EOFError, BrokenPipeError)


def freeze():
    """makes the collections below cheap"""
    gc.collect()
    gc.freeze()


class CannotLoad(Exception):
    pass


def _fail(i):
    raise CannotLoad(i)


class Unloadable:
    def __init__(self, i):
        self.i = i

    def __reduce__(self):
        return _fail, (self.i,)


class Fake:
    """a server that answers calls by script"""

    def __init__(self, kind, calls):
        self.kind, self.calls = kind, calls
        self.channels = []
        self.seen = []
        self.tasks = []
        self.waiting = {}
        self.closed = asyncio.Event()
        self.gone = False

    async def start(self):
        conf = {"handle_channel": self.handle}
        if self.kind == "tcp":
            self.server = await SocketServer.create({**conf, "host": "127.0.0.1", "port": 0})
        elif self.kind == "unix":
            self.server = await UnixSocketServer.create({**conf, "process_index": next(COUNT)})
        else:
            self.server = await DummyServer.create({**conf, "address": f"dummy://{next(COUNT)}"})
        await self.server.start()
        # callers know an external address that maps to this server
        self.address = f"127.0.0.1:{next(COUNT) % 50000 + 1}" if self.kind != "tcp" else self.server.address
        if self.kind != "tcp":
            Router.get_instance().add_router(Router([], None, {self.address: self.server.address}))
        return self

    async def handle(self, channel):
        self.channels.append(channel)
        try:
            while not self.gone:
                try:
                    msg = await channel.recv()
                except Exception:
                    return
                t = asyncio.ensure_future(self.answer(msg, channel, self.closed))
                self.tasks.append(t)
                await asyncio.sleep(0)
        finally:
            try:
                await channel.close()
            except Exception:
                pass

    async def answer(self, msg, channel, closed):
        async def send(m):
            try:
                await channel.send(m)
            except Exception:
                pass

        if isinstance(msg, CancelMessage):
            ev = self.waiting.get(msg.cancel_message_id)
            if ev is None:
                try:
                    raise CannotCancelTask("no such task")
                except CannotCancelTask as e:
                    await send(ErrorMessage(msg.message_id, "x", 1, CannotCancelTask, e, e.__traceback__))
                return
            ev.set()
            await send(ResultMessage(msg.message_id, True))
            return
        if not isinstance(msg, SendMessage):
            await send(ResultMessage(msg.message_id, ("other", type(msg).__name__)))
            return
        i = msg.content[2][0]
        self.seen.append(i)
        delay, action = self.calls[i] if i < len(self.calls) else (0, "ok")
        ev = self.waiting[msg.message_id] = asyncio.Event()
        for _ in range(delay if action != "never" else 10 ** 9):
            if ev.is_set() and action != "late":
                break
            if delay > 40 or action == "never":
                await asyncio.sleep(0.001)
            else:
                await asyncio.sleep(0)
            if closed.is_set():
                return
        self.waiting.pop(msg.message_id, None)
        if ev.is_set() and action in ("never", "ok", "err"):
            try:
                raise asyncio.CancelledError()
            except asyncio.CancelledError as e:
                await send(ErrorMessage(msg.message_id, "x", 1, asyncio.CancelledError, e, e.__traceback__))
            return
        if action == "unknown" or action == "twice":
            await send(ResultMessage(new_message_id(), "stray"))
        if action == "badunknown":
            await send(ResultMessage(new_message_id(), "stray" if self.kind == "dummy" else Unloadable(-1)))
        if action == "err":
            try:
                raise KeyError(i)
            except KeyError as e:
                await send(ErrorMessage(msg.message_id, "x", 1, KeyError, e, e.__traceback__))
        elif action == "bad" and self.kind != "dummy":
            await send(ResultMessage(msg.message_id, Unloadable(i)))
        else:
            await send(ResultMessage(msg.message_id, ("r", i)))
        if action == "twice":
            await send(ResultMessage(msg.message_id, ("second", i)))

    async def drop(self, how):
        self.closed.set()
        if how == "server":
            await self.server.stop()
            self.gone = True
        while self.channels:
            ch = self.channels.pop()
            try:
                if how == "abort" and self.kind != "dummy":
                    ch.writer.transport.abort()
                else:
                    await ch.close()
            except Exception:
                pass
        self.closed = asyncio.Event()

    async def stop(self):
        self.closed.set()
        for t in self.tasks:
            t.cancel()
        try:
            await asyncio.wait_for(self.server.stop(), 5)
        except Exception:
            pass


async def outcome(aw):
    try:
        return ["value", await aw]
    except asyncio.CancelledError:
        return ["cancelled"]
    except Exception as e:
        return ["error", e]


def as_expected(kind, action, out, i):
    if action == "err":
        return out[0] == "error" and isinstance(out[1], KeyError) and out[1].args == (i,)
    if action == "bad" and kind != "dummy":
        return out[0] == "error" and isinstance(out[1], CannotLoad)
    return out == ["value", ("r", i)]


async def scripted(c):
    Router.set_instance(Router([], None))
    servers = []
    try:
        for s in c["servers"]:
            servers.append(await Fake(s["kind"], [(x["delay"], x["action"]) for x in s["calls"]]).start())
        jobs = []
        dropped = [bool(s["drops"]) for s in c["servers"]]

        async def call(si, i, x):
            await spin(x["start"])
            ref = ActorRef(servers[si].address, b"a")
            t = asyncio.ensure_future(outcome(ref.m(i)))
            if x["cancel"] is not None:
                await spin(x["cancel"])
                t.cancel()
            await asyncio.wait([t])
            return ["cancelled"] if t.cancelled() else t.result()

        async def drops(si):
            for at, how in c["servers"][si]["drops"]:
                await spin(at)
                await servers[si].drop(how)

        for si, s in enumerate(c["servers"]):
            for i, x in enumerate(s["calls"]):
                jobs.append((si, i, x, asyncio.ensure_future(call(si, i, x))))
        droppers = [asyncio.ensure_future(drops(si)) for si in range(len(servers))]
        await bounded(asyncio.gather(*droppers), 15, "dropping")
        # connections that were being accepted when a server stopped are only closed with their sockets (CPython 3.12)
        await spin(5)
        gc.collect()
        # everything that can settle does, then the rest loses its server
        able = [j[3] for j in jobs if j[2]["action"] != "never" or j[2]["cancel"] is not None]
        if able:
            done, pending = await asyncio.wait(able, timeout=15)
            if pending:
                raise_pending(c, jobs, pending, "did not settle though it was answered, cancelled or lost its server")
        # the other calls go on
        for si, s in enumerate(servers):
            gone = any(h == "server" for _, h in c["servers"][si]["drops"])
            ref = ActorRef(s.address, b"a")
            for k in range(20):
                out = await bounded(outcome(ref.m(1000)), 15, f"a later call to server {si}")
                if gone != (out == ["value", ("r", 1000)]):
                    break
                await asyncio.sleep(0.01)
            if gone and not (out[0] == "error" and isinstance(out[1], LOST)):
                raise Violation(f"a call to the stopped server {si} gave {out}")
            if not gone and out != ["value", ("r", 1000)]:
                raise Violation(f"a later call to the live server {si} gave {out}")
        last = [j[3] for j in jobs]
        for s in servers:
            await s.drop("close")
        done, pending = await asyncio.wait(last, timeout=15)
        if pending:
            raise_pending(c, jobs, pending, "is left waiting after its server is gone")
        for si, i, x, t in jobs:
            out = t.result()
            kind = c["servers"][si]["kind"]
            what = f"call {i} of server {si} ({kind}) {x}"
            if x["action"] == "never":
                good = out[0] == "error" and isinstance(out[1], LOST)
            else:
                good = as_expected(kind, x["action"], out, i)
                if dropped[si]:
                    good = good or out[0] == "error" and isinstance(out[1], LOST)
            if x["cancel"] is not None:
                good = good or out == ["cancelled"]
            if not good:
                raise Violation(f"{what} gave {out}")
            if servers[si].seen.count(i) > 1:
                raise Violation(f"{what} was sent {servers[si].seen.count(i)} times")
    finally:
        for s in servers:
            await s.stop()
        Router.set_instance(None)


def raise_pending(c, jobs, pending, why):
    names = [f"call {i} of server {si} ({c['servers'][si]['kind']}) {x}" for si, i, x, t in jobs if t in pending]
    raise Violation(f"{'; '.join(names)} {why}")


def scripted_run(c):
    run_async(scripted, c, limit=90)
    labels = sorted({x["action"] for s in c["servers"] for x in s["calls"]} | {s["kind"] for s in c["servers"]}
                    | {"drop:" + h for s in c["servers"] for _, h in s["drops"]})
    odd = sum(x["action"] != "ok" or x["cancel"] is not None for s in c["servers"] for x in s["calls"])
    return {"nontrivial": sum(len(s["calls"]) for s in c["servers"]) > 1 and (odd > 0 or any(s["drops"] for s in c["servers"])), "labels": labels}


def scripted_strat():
    call = st.fixed_dictionaries({
        "start": st.integers(0, 12), "delay": st.one_of(st.integers(0, 12), st.integers(0, 12), st.integers(13, 60)),
        "action": st.sampled_from(["ok", "ok", "ok", "err", "bad", "never", "twice", "unknown", "badunknown", "late"]),
        "cancel": weighted((2, st.none()), (1, st.integers(0, 15)))})
    server = st.fixed_dictionaries({
        "kind": st.sampled_from(["tcp", "unix", "dummy"]),
        "calls": st.lists(call, min_size=1, max_size=6),
        "drops": st.one_of(st.just([]), st.lists(st.tuples(st.integers(0, 40), st.sampled_from(["close", "abort", "close", "server"])).map(list), min_size=1, max_size=2))})
    return st.fixed_dictionaries({"servers": st.lists(server, min_size=1, max_size=2)})


# --- pools -----------------------------------------------------------------------------------------------------------


class Worker(mo.Actor):
    async def quick(self, i):
        return ["quick", i]

    @mo.extensible
    async def ext(self, i):
        return ["quick", i]

    @mo.no_lock
    async def forever(self, i):
        await asyncio.Event().wait()

    @mo.no_lock
    async def steps(self, i, n):
        for _ in range(n):
            await asyncio.sleep(0)
        return ["steps", i]

    @mo.no_lock
    async def relay(self, ref, method, *args):
        return await getattr(ref, method)(*args)

    async def pid(self):
        return os.getpid()

    async def exit(self, code):
        os._exit(code)

    @mo.no_lock
    async def busy(self, n):
        """occupies its process without ever giving way"""
        import time
        time.sleep(n)
        return "busy"


def expected(method, i):
    return ["quick", i] if method in ("quick", "ext") else ["steps", i]


async def pools(c):
    cl = Cluster(2, tcp=c["tcp"])
    if not c["tcp"]:
        # the sub-pools of the "test" backend keep their in-process servers open by design
        for x in c["calls"]:
            x["to"], x["via"] = 0, x["via"] and 0
    async with cl:
        refs = {}
        for k in range(3):
            refs[k] = await cl.create(Worker, where=k, uid=f"w{k}")
        jobs = []

        async def call(x):
            await spin(x["start"])
            ref = await cl.ref(cl.addresses[x["to"]], f"w{x['to']}".encode(), x["ref"])
            args = (x["i"],) if x["method"] != "steps" else (x["i"], x["n"])
            if x["via"] is not None:
                via = await cl.ref(cl.addresses[x["via"]], f"w{x['via']}".encode(), "msg")
                return await via.relay(ref, x["method"], *args)
            return await getattr(ref, x["method"])(*args)

        for n, x in enumerate(c["calls"]):
            x["i"] = n
            jobs.append((x, asyncio.ensure_future(outcome(call(x)))))
        await spin(c["at"])
        await bounded(cl.pool.stop(), 30, "stopping the pool")
        await spin(5)
        gc.collect()
        done, pending = await asyncio.wait([t for _, t in jobs], timeout=15)
        if pending:
            raise Violation("calls left waiting after the pool has stopped: " + "; ".join(str(x) for x, t in jobs if t in pending))
        for x, t in jobs:
            out = t.result()
            good = out[0] == "error" and isinstance(out[1], LOST + (mo.ActorNotExist,)) or out[0] == "cancelled"
            if x["method"] != "forever":
                good = good or out == ["value", expected(x["method"], x["i"])]
            if not good:
                raise Violation(f"{x} gave {out}")


def pools_run(c):
    run_async(pools, c, limit=90)
    return {"nontrivial": any(x["method"] == "forever" for x in c["calls"]), "labels": ["tcp" if c["tcp"] else "dummy"]}


def pools_strat():
    call = st.fixed_dictionaries({
        "start": st.integers(0, 20), "to": st.integers(0, 2), "method": st.sampled_from(["quick", "ext", "forever", "forever", "steps"]),
        "n": st.integers(0, 30), "ref": st.just("msg"), "via": weighted((2, st.none()), (1, st.integers(0, 2)))})
    return st.fixed_dictionaries({"calls": st.lists(call, min_size=1, max_size=6), "at": st.integers(0, 40), "tcp": st.booleans()})


# --- processes -------------------------------------------------------------------------------------------------------

POOL = RealPool(3, auto_recover=False)


async def processes(c):
    # one victim per case, in a pool of its own
    addrs = POOL.addresses
    victim = 1 + c["victim"]
    refs = {}
    for k in range(4):
        refs[k] = await bounded(mo.create_actor(Worker, uid=f"w{k}", address=addrs[k]), 30, "creating")
    pid = await refs[victim].pid()
    jobs = []

    async def call(x):
        await spin(x["start"])
        to = victim if x["to"] == 0 else [k for k in range(4) if k != victim][x["to"] - 1]
        ref = ActorRef(addrs[0] if x["main"] else addrs[to], f"w{to}".encode())
        args = (x["i"],) if x["method"] != "steps" else (x["i"], x["n"])
        if x["via"] is not None:
            via = refs[[k for k in range(4) if k != victim][x["via"]]]
            return to, await outcome(via.relay(ref, x["method"], *args))
        return to, await outcome(getattr(ref, x["method"])(*args))

    for n, x in enumerate(c["calls"]):
        x["i"] = n
        jobs.append((x, asyncio.ensure_future(call(x))))
    if c["at"] > 20:
        await asyncio.sleep((c["at"] - 20) / 500)
    else:
        await spin(c["at"])
    killer = None
    if c["how"] in ("KILL", "TERM"):
        os.kill(pid, signal.SIGKILL if c["how"] == "KILL" else signal.SIGTERM)
    elif c["how"] == "exit":
        killer = asyncio.ensure_future(outcome(refs[victim].exit(3)))
    else:
        killer = asyncio.ensure_future(outcome(mo.kill_actor(refs[victim])))
    due = [(x, t) for x, t in jobs if x["to"] == 0 or x["method"] != "forever"]
    if due:
        await asyncio.wait([t for _, t in due], timeout=15)
    bad = [x for x, t in due if not t.done()]
    if bad:
        raise Violation(f"calls left waiting after their server was lost ({c['how']}): {bad}")
    if killer is not None:
        out = await bounded(killer, 20, c["how"])
        if c["how"] == "exit" and not (out[0] == "error" and isinstance(out[1], LOST)):
            raise Violation(f"the call that ended its process gave {out}")
        if c["how"] == "kill_actor" and out[0] != "value":
            raise Violation(f"kill_actor gave {out}")
    for x, t in jobs:
        if not t.done():
            continue
        to, out = t.result()
        good = x["method"] != "forever" and out == ["value", expected(x["method"], x["i"])]
        if to == victim:
            good = good or out[0] == "error" and isinstance(out[1], LOST + (mo.ActorNotExist,))
            if c["how"] == "TERM":
                good = good or out[0] == "cancelled" or isinstance(out[1], asyncio.CancelledError)
        if not good:
            raise Violation(f"victim {victim} lost by {c['how']}: {x} gave {out}")
    # the others still work, directly, relayed and by the main pool; the victim fails
    for k in range(4):
        for ref in (ActorRef(addrs[k], f"w{k}".encode()), ActorRef(addrs[0], f"w{k}".encode())):
            for relay in (None, 0, 1, 2):
                via = refs[[j for j in range(4) if j != victim][relay]] if relay is not None else None
                out = await bounded(outcome(ref.quick(7) if via is None else via.relay(ref, "quick", 7)), 20, f"a later call to pool {k}")
                if k == victim:
                    if not (out[0] == "error" and isinstance(out[1], LOST + (mo.ActorNotExist,))):
                        raise Violation(f"a later call to lost pool {k} ({c['how']}, relayed by {relay}) gave {out}")
                elif out != ["value", ["quick", 7]]:
                    raise Violation(f"a later call to live pool {k} (lost: {victim} by {c['how']}, relayed by {relay}) gave {out}")
    for x, t in jobs:
        t.cancel()


def processes_run(c):
    POOL.start()
    try:
        POOL.run(processes, c, limit=120)
    finally:
        POOL.stop()
    n = sum(x["to"] == 0 for x in c["calls"])
    return {"nontrivial": n >= 1, "labels": [c["how"]]}


def processes_setup():
    POOL.loop = asyncio.new_event_loop()
    POOL.loop.set_exception_handler(lambda *_: None)
    asyncio.set_event_loop(POOL.loop)


def processes_strat():
    call = st.fixed_dictionaries({
        "start": st.integers(0, 20), "to": st.sampled_from([0, 0, 1, 2, 3]), "method": st.sampled_from(["quick", "ext", "forever", "forever", "steps"]),
        "n": st.integers(0, 30), "main": st.booleans(), "via": weighted((2, st.none()), (1, st.integers(0, 2)))})
    return st.fixed_dictionaries({"calls": st.lists(call, min_size=2, max_size=8), "at": st.integers(0, 40), "victim": st.integers(0, 2),
                                  "how": st.sampled_from(["KILL", "TERM", "exit", "kill_actor"])})


SEARCHES = [
    Search("scripted", scripted_strat, scripted_run, setup=freeze, quick=1600, thorough=60000, shards=5, case_limit=150, rule=RULE),
    Search("pools", pools_strat, pools_run, setup=freeze, quick=400, thorough=20000, shards=2, case_limit=150, rule=RULE),
    Search("processes", processes_strat, processes_run, setup=processes_setup, quick=24, thorough=600, shards=3, case_limit=200, weight=3, rule=RULE, subreaper=True),
]
