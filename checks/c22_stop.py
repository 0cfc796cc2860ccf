"""C22: stopping a pool leaves nothing behind."""
import asyncio
import gc
import itertools
import json
import os
import select
import signal
import socket
import subprocess
import sys
import threading
import time

import psutil
from hypothesis import strategies as st

import vf
import vf.warm  # noqa: F401
import xoscar as mo
from vf.core import TSCALE, Hang, HarnessError, Search, Skip, Violation, bounded, lean_env, weighted
from xoscar.backends.router import Router
from xoscar.core import ActorRef

RULE = ("single: pools without sub-processes, several at a time, stopped in generated orders and ways while calls, raw connections, joiners and clients are there; stop: pools of 1-3 real sub-processes stopped (explicitly, leaving the context, "
        "twice, concurrently, by message) while actors wait, block their process, ignore SIGTERM, hold threads, are frozen, are recovering, or sub-pools are being added; failed_start: start-ups with taken ports, missing modules, broken "
        "environments, huge configurations, or cancelled at any time; orphans: main processes killed at any time. Afterwards processes, ports, waiters, file descriptors, tasks and routes are inspected and the addresses are used "
        "again. Non-trivial = something was going on at the stop")
ASSUMPTIONS = ["a stop ends within a minute, orphans end within half a minute", "calls of local references run in the caller and are not waiters", "processes started by actors themselves and files of killed processes' Unix sockets are not considered"]
TECHNIQUE = "fault injection with property-based testing: generated activities, stops, failing start-ups and kills, with an inspection of processes, ports, descriptors, tasks and waiters afterwards"
IDS = itertools.count(1)
gc.freeze()


class Busy(mo.StatelessActor):
    async def hello(self, x):
        return x

    async def wait(self):
        await asyncio.Event().wait()

    async def block(self):
        time.sleep(3600)

    async def hold(self):
        threading.Thread(target=time.sleep, args=(3600,)).start()

    async def ignore(self):
        signal.signal(signal.SIGTERM, signal.SIG_IGN)
        threading.Thread(target=time.sleep, args=(3600,)).start()

    async def ask(self, address, uid):
        return await ActorRef(address, uid).wait()

    async def swallow(self):
        while True:
            try:
                await asyncio.Event().wait()
            except asyncio.CancelledError:
                pass


class Plain(mo.Actor):
    async def hello(self, x):
        return x

    async def wait(self):
        await asyncio.Event().wait()


async def outcome(aw):
    try:
        return ["ok", await aw]
    except asyncio.CancelledError:
        return ["Cancelled", ""]
    except Exception as e:
        names = [k.__name__ for k in type(e).__mro__]
        return [next((n for n in ("ServerClosed", "ConnectionError", "ChannelClosed", "OSError") if n in names), type(e).__name__), str(e)[:200]]


GONE = ("ServerClosed", "ConnectionError", "ChannelClosed")


def sub_processes():
    out = set()
    for x in psutil.Process().children():
        try:
            if x.status() != psutil.STATUS_ZOMBIE and any("start_sub_pool" in y for y in x.cmdline()):
                out.add(x.pid)
        except psutil.NoSuchProcess:
            pass
    return out


def fds():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            out[f] = os.readlink("/proc/self/fd/" + f)
        except OSError:
            pass
    return {f: t for f, t in out.items() if t.startswith(("socket:", "pipe:", "anon_inode:[pidfd"))}


#: a host of this process alone: nobody else takes its ports
HOST = f"127.{20 + os.getpid() % 200}.{os.getpid() // 200 % 250}.9"
PORTS = itertools.count(21000)


def free_port():
    port = next(PORTS)
    if port > 64000:
        raise HarnessError("out of ports")
    return port


def listening(address):
    host, port = address.rsplit(":", 1)
    with socket.socket() as s:
        s.settimeout(5)
        try:
            s.connect((host, int(port)))
        except OSError:
            return False
        return True


async def until(cond, limit, what):
    end = time.monotonic() + limit * TSCALE
    while True:
        x = cond()
        if not x:
            return
        if time.monotonic() > end:
            raise Hang(f"{what}: {x}")
        await asyncio.sleep(0.02)


async def settle():
    gc.collect()
    for _ in range(20):
        await asyncio.sleep(0)


def run_loop(coro_fn, *args, limit=200):
    async def main():
        asyncio.get_running_loop().set_exception_handler(lambda *_: None)
        task = asyncio.ensure_future(coro_fn(*args))
        done, _ = await asyncio.wait([task], timeout=limit * TSCALE)
        if not done:
            task.cancel()
            raise Hang(f"case did not finish within {limit * TSCALE:.0f}s")
        return task.result()

    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(main())
    finally:
        # actors that wait for ever are left behind on purpose
        for t in asyncio.all_tasks(loop):
            t.cancel()
        loop.run_until_complete(asyncio.sleep(0))
        loop.close()
        asyncio.set_event_loop(None)


async def stop_how(pool, how, complain):
    if how == "twice":
        await bounded(pool.stop(), 60, "stop")
        out = await bounded(outcome(pool.stop()), 60, "second stop")
        if out[0] != "ok":
            complain(f"the second stop gave {out}")
    elif how == "concurrent":
        tasks = [asyncio.ensure_future(outcome(pool.stop())) for _ in range(2)]
        for t in tasks:
            out = await bounded(t, 60, "one of two stops at the same time")
            if out[0] != "ok":
                complain(f"one of two stops gave {out}")
    elif how == "context":
        async def body():
            async with pool:
                raise KeyError("body")
        out = await bounded(outcome(body()), 60, "leaving the context")
        if out[0] != "KeyError":
            complain(f"leaving the context gave {out}")
    else:
        out = await bounded(outcome(pool.stop()), 60, "stop")
        if out[0] != "ok":
            complain(f"stop gave {out}")


async def check_stopped(pool, addresses, complain):
    if not pool.stopped:
        complain("the pool does not say it is stopped")
    for a in addresses:
        await until(lambda: listening(a), 5, f"{a} is still served")
        out = await bounded(outcome(mo.has_actor(ActorRef(a, "x"))), 20, f"call to the stopped {a}")
        if out[0] not in GONE and out[0] != "OSError":
            complain(f"the stopped {a} answers {out}")
        internal = Router.get_instance().get_internal_address(a) if Router.get_instance() else None
        if internal:
            complain(f"{a} is still routed to {internal}")
    out = await bounded(outcome(pool.start()), 20, "start")
    if out[0] == "ok":
        complain("a stopped pool can be started")


# ------------------------------------------------------------------ single
def single_run(c):
    async def go():
        base = None
        hist = []
        busy = False

        def complain(what):
            raise Violation(f"{what}; case {c}")

        Router.set_instance(None)
        first = await mo.create_actor_pool(HOST, n_process=0, use_uvloop=False)
        await bounded(first.stop(), 30, "stop")
        await settle()
        base = fds()
        tasks0 = asyncio.all_tasks()
        pools = []
        hanging = False
        for k, spec in enumerate(c["pools"]):
            port = free_port()
            pool = await bounded(mo.create_actor_pool(f"{HOST}:{port}", n_process=0, use_uvloop=False), 30, "creation")
            pools.append((pool, f"{HOST}:{port}", [], spec))
        for k, (pool, a, waits, spec) in enumerate(pools):
            for i, act in enumerate(spec["acts"]):
                busy = True
                uid = f"p{k}-{i}"
                other = pools[spec["x"] % len(pools)][1]
                if act in ("call", "tcp", "tell"):
                    hanging = True
                    await bounded(mo.create_actor(Busy, uid=uid, address=a), 20, "create")
                    ref = ActorRef(a, uid)
                    if act == "tell":
                        await bounded(ref.wait.tell(), 20, "tell")
                    elif act == "tcp":
                        waits.append(("call", await remote_call(a, uid)))
                    else:
                        waits.append(("call", asyncio.ensure_future(outcome(ref.wait()))))
                elif act == "across":
                    hanging = True
                    await bounded(mo.create_actor(Busy, uid=uid, address=a), 20, "create")
                    await bounded(mo.create_actor(Busy, uid=uid + "o", address=other), 20, "create")
                    pools[spec["x"] % len(pools)][2].append(("call", asyncio.ensure_future(outcome(ActorRef(a, uid).ask(other, uid + "o")))))
                elif act == "queue":
                    hanging = True
                    await bounded(mo.create_actor(Plain, uid=uid, address=a), 20, "create")
                    for _ in range(3):
                        waits.append(("call", asyncio.ensure_future(outcome(ActorRef(a, uid).wait()))))
                elif act == "join":
                    waits.append(("join", asyncio.ensure_future(outcome(pool.join()))))
                elif act == "recovered":
                    out = await bounded(outcome(mo.wait_actor_pool_recovered("127.0.0.1:1", a)), 20, "waiting for an unknown pool")
                elif act == "raw":
                    r, w = await asyncio.open_connection(*a.rsplit(":", 1))
                    w.write(b"\x00" * (spec["x"] % 5))
                    waits.append(("raw", asyncio.ensure_future(outcome(r.read())), w))
                elif act == "idle":
                    await bounded(mo.create_actor(Plain, uid=uid, address=a), 20, "create")
                    ref = await bounded(mo.actor_ref(a, uid), 20, "find")
                    if await bounded(ref.hello(1), 20, "call") != 1:
                        complain("call")
                    if await bounded(await remote_call(a, uid, "hello"), 20, "call") != ["ok", 5]:
                        complain("call")
        for _ in range(c["steps"]):
            await asyncio.sleep(0)
        order = [x for x in dict.fromkeys(c["order"]) if x < len(pools)] + [i for i in range(len(pools)) if i not in c["order"]]
        alive = {a for _, a, _, _ in pools}
        for i in order:
            pool, a, waits, spec = pools[i]
            await stop_how(pool, spec["how"], complain)
            alive.discard(a)
            await check_stopped(pool, [a], complain)
            for w in waits:
                out = await bounded(w[1], 20, f"{w[0]} is not released by the stop; case {c}")
                want = {"call": GONE, "join": ("ok",), "raw": ("ok", "ConnectionError")}[w[0]]
                if out[0] not in want:
                    complain(f"{w[0]} ended with {out}")
                if w[0] == "raw":
                    w[2].close()
            # the others go on
            for b in alive:
                if await bounded(mo.has_actor(ActorRef(b, "nobody")), 20, "has"):
                    complain(f"{b} has everybody")
            if spec["again"]:
                out = await bounded(outcome(mo.create_actor_pool(a, n_process=0, use_uvloop=False)), 30, "using the address again")
                if out[0] != "ok":
                    complain(f"the address of the stopped pool cannot be used: {out}")
                new = out[1]
                if await bounded(mo.has_actor(ActorRef(a, f"p{i}-0")), 20, "has"):
                    complain("an actor of the stopped pool is in the new one")
                ref = await bounded(mo.create_actor(Plain, uid="new", address=a), 20, "create")
                if await bounded(ref.hello(2), 20, "call") != 2 or await bounded(await remote_call(a, "new", "hello"), 20, "call") != ["ok", 5]:
                    complain("call of the new pool")
                await bounded(new.stop(), 60, "stop")
                await check_stopped(new, [a], complain)
        await settle()

        def leaked():
            gc.collect()
            return {f: t for f, t in fds().items() if f not in base or base[f] != t}

        await until(leaked, 10, f"descriptors are left behind; case {c}")
        if not hanging:
            await until(lambda: [str(t)[:300] for t in asyncio.all_tasks() - tasks0 - {asyncio.current_task()}], 10, f"tasks are left behind; case {c}")
        return {"nontrivial": busy, "labels": sorted({x for s in c["pools"] for x in s["acts"]} | {s["how"] for s in c["pools"]})}

    return run_loop(go)


async def remote_call(address, uid, method="wait"):
    """a call through a connection of its own, as from elsewhere"""
    from xoscar.backends.communication.socket import SocketClient
    from xoscar.backends.message import SendMessage, new_message_id
    from xoscar.core import ActorRef as Ref

    client = await SocketClient.connect(address)
    args = (5,) if method == "hello" else ()
    await client.send(SendMessage(new_message_id(), Ref(address, uid.encode()), (method, 0, args, {})))

    async def answer():
        try:
            return (await client.recv()).result
        except EOFError as e:
            raise ConnectionError(str(e)) from None
        finally:
            await client.close()

    return asyncio.ensure_future(outcome(answer()))


def single_strat():
    acts = st.lists(st.sampled_from(["call", "tcp", "tell", "across", "queue", "join", "recovered", "raw", "idle", "idle"]), max_size=4)
    spec = st.fixed_dictionaries({"acts": acts, "x": st.integers(0, 5), "how": st.sampled_from(["plain", "twice", "concurrent", "context"]), "again": st.booleans()})
    return st.fixed_dictionaries({"pools": st.lists(spec, min_size=1, max_size=3), "order": st.lists(st.integers(0, 2), max_size=3), "steps": st.integers(0, 30)})


# ------------------------------------------------------------------ stop
async def start_pool(n, **kw):
    for _ in range(3):
        out = await bounded(outcome(mo.create_actor_pool(HOST, n_process=n, use_uvloop=False, **kw)), 120, "start of a pool")
        if out[0] == "ok":
            return out[1]
    raise HarnessError(f"cannot start a pool: {out}")


def stop_run(c):
    async def go():
        def complain(what):
            raise Violation(f"{what}; case {c}")

        Router.set_instance(None)
        await settle()
        before = sub_processes()
        pool = await start_pool(c["n"], auto_recover=c["recover"])
        addresses = list(pool._config.get_external_addresses())
        main, subs = addresses[0], addresses[1:]
        waits = []
        for i, (act, x) in enumerate(c["acts"]):
            a = subs[x % len(subs)]
            uid = f"a{i}"
            if act in ("wait", "block", "hold", "ignore", "swallow", "across", "frommain", "tell"):
                where = main if act == "frommain" else a
                out = await bounded(outcome(mo.create_actor(Busy, uid=uid, address=where)), 3, "create") if not dead_or_stuck(c["acts"][:i], x, len(subs)) else None
                if out is None:
                    continue
                if out[0] != "ok":
                    complain(f"creation gave {out}")
                ref = ActorRef(where, uid)
                if act in ("hold", "ignore"):
                    await bounded(getattr(ref, act)(), 20, "call")
                elif act == "tell":
                    await bounded(ref.wait.tell(), 20, "tell")
                elif act in ("across", "frommain"):
                    b = subs[(x + 1) % len(subs)]
                    if dead_or_stuck(c["acts"][:i], x + 1, len(subs)):
                        continue
                    await bounded(mo.create_actor(Busy, uid=uid + "o", address=b), 20, "create")
                    waits.append(asyncio.ensure_future(outcome(ref.ask(b, uid + "o"))))
                else:
                    waits.append(asyncio.ensure_future(outcome(getattr(ref, act)())))
                    await asyncio.sleep(0.05)
            elif act == "freeze":
                try:
                    os.kill(pool.sub_processes[a].pid, signal.SIGSTOP)
                except ProcessLookupError:
                    pass
            elif act == "crash":
                try:
                    os.kill(pool.sub_processes[a].pid, signal.SIGKILL)
                except ProcessLookupError:
                    # dead already
                    pass
                await asyncio.sleep((x % 7) * 0.2)
            elif act == "recovered":
                waits.append(asyncio.ensure_future(outcome(mo.wait_actor_pool_recovered(a, main))))
            elif act == "join":
                waits.append(asyncio.ensure_future(outcome(pool.join())))
            elif act == "append":
                waits.append(asyncio.ensure_future(outcome(pool.append_sub_pool())))
        await asyncio.sleep(c["delay"])
        await stop_how(pool, c["how"], complain)
        left = sub_processes() - before
        if left:
            # those of additions under way end with them
            if not any(act == "append" for act, _ in c["acts"]):
                complain(f"processes {left} are left after the stop")
        for w in waits:
            out = await bounded(w, 30, f"a waiter is not released by the stop; case {c}")
        await until(lambda: sub_processes() - before, 20, f"processes are left behind; case {c}")
        await check_stopped(pool, addresses, complain)
        if c["again"]:
            ports = [int(a.rsplit(":", 1)[1]) for a in addresses]
            out = await bounded(outcome(mo.create_actor_pool(main, n_process=c["n"], ports=ports[1:], use_uvloop=False)), 120, "using the addresses again")
            if out[0] != "ok":
                complain(f"the addresses of the stopped pool cannot be used: {out}")
            new = out[1]
            for a in addresses:
                ref = await bounded(mo.create_actor(Plain, uid="new" + a, address=a), 20, "create")
                if await bounded(ref.hello(1), 20, "call") != 1:
                    complain("call of the new pool")
            await bounded(new.stop(), 60, "stop")
            await until(lambda: sub_processes() - before, 20, f"processes are left behind; case {c}")
        return {"nontrivial": bool(c["acts"]), "labels": sorted({x for x, _ in c["acts"]} | {c["how"]})}

    try:
        return run_loop(go)
    finally:
        kill_all()


def dead_or_stuck(acts, x, n):
    """whether the sub-pool cannot answer any more"""
    return any(a in ("block", "freeze", "crash") and y % n == x % n for a, y in acts)


def kill_all():
    for pid in sub_processes():
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


def stop_strat():
    act = st.tuples(st.sampled_from(["wait", "block", "hold", "ignore", "swallow", "across", "frommain", "tell", "freeze", "crash", "crash", "recovered", "join", "append", "append"]), st.integers(0, 20)).map(list)
    return st.fixed_dictionaries({"n": st.integers(1, 3), "recover": st.sampled_from([True, "process", False]), "acts": st.lists(act, min_size=1, max_size=4), "delay": st.sampled_from([0, 0, 0.1, 0.4, 0.7, 1.0]),
                                  "how": st.sampled_from(["plain", "twice", "concurrent", "context"]), "again": st.booleans()})


# ------------------------------------------------------------------ failed start
def failed_run(c):
    async def go():
        def complain(what):
            raise Violation(f"{what}; case {c}")

        Router.set_instance(None)
        n = c["n"]
        before = sub_processes()
        # warm up
        warm = await mo.create_actor_pool(HOST, n_process=0, use_uvloop=False)
        await warm.stop()
        await settle()
        base = fds()
        ports = []
        while len(set(ports)) < n + 1:
            ports = [free_port() for _ in range(n + 1)]
        addresses = [f"{HOST}:{p}" for p in ports]
        kw = {"ports": ports[1:]}
        taken = None
        fail = c["fail"]
        k = c["x"] % n
        if fail == "main_port":
            taken = ports[0]
        elif fail == "sub_port":
            taken = ports[1 + k]
        elif fail == "modules":
            kw["modules"] = ["no_such_module"]
        elif fail == "env":
            kw["envs"] = [{"PYTHONHOME": "/nonexistent"} if i == k else {} for i in range(n)]
        elif fail == "huge":
            kw["envs"] = [{"VF_HUGE": "x" * (4000 * (1 + c["x"]))} for i in range(n)]
        elif fail == "labels":
            kw["labels"] = ["x"] * (n + 3)
        sock = None
        if taken:
            sock = socket.socket()
            sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            sock.bind((HOST, taken))
            sock.listen()
        task = asyncio.ensure_future(outcome(mo.create_actor_pool(addresses[0], n_process=n, use_uvloop=False, **kw)))
        if fail == "cancel":
            await asyncio.wait([task], timeout=c["delay"])
            task.cancel()
        out = await bounded(task, 120, f"start; case {c}")
        if fail == "huge":
            if out[0] != "ok":
                complain(f"a pool with a large configuration cannot be started: {out}")
        elif fail != "cancel" and out[0] == "ok":
            complain("the start succeeded")
        if out[0] == "ok":
            # it was quicker than the cancellation, or nothing was wrong
            ref = await bounded(mo.create_actor(Plain, uid="x", address=addresses[1]), 30, "create")
            if await bounded(ref.hello(1), 30, "call") != 1:
                complain("call")
            del ref
            await bounded(out[1].stop(), 60, "stop")
        await until(lambda: sub_processes() - before, 20, f"processes are left behind; case {c}")
        for a in addresses:
            if a != f"{HOST}:{taken}":
                # killed processes lose their command line before their sockets
                await until(lambda: listening(a), 5, f"{a} is still served; case {c}")
            if Router.get_instance() and Router.get_instance().get_internal_address(a):
                complain(f"{a} is still routed to {Router.get_instance().get_internal_address(a)}")
        if sock:
            sock.close()
        out = None

        def leaked():
            gc.collect()
            return {f: t for f, t in fds().items() if f not in base or base[f] != t}

        await until(leaked, 10, f"descriptors are left behind; case {c}")
        if c["again"]:
            out = await bounded(outcome(mo.create_actor_pool(addresses[0], n_process=n, use_uvloop=False, ports=ports[1:])), 120, "using the addresses")
            if out[0] != "ok":
                complain(f"the addresses cannot be used afterwards: {out}")
            for a in addresses:
                ref = await bounded(mo.create_actor(Plain, uid="x" + a, address=a), 30, "create")
                if await bounded(ref.hello(1), 30, "call") != 1:
                    complain("call")
            await bounded(out[1].stop(), 60, "stop")
            await until(lambda: sub_processes() - before, 20, f"processes are left behind; case {c}")
        return {"nontrivial": True, "labels": [fail]}

    try:
        return run_loop(go)
    finally:
        kill_all()


def failed_strat():
    return st.fixed_dictionaries({"n": st.integers(1, 3), "fail": st.sampled_from(["main_port", "sub_port", "modules", "env", "huge", "labels", "cancel", "cancel", "cancel"]), "x": st.integers(0, 5),
                                  "delay": st.one_of(st.floats(0, 2.5).map(lambda x: round(x, 3)), st.sampled_from([0, 0.01, 0.05])), "again": weighted((2, st.just(False)), (1, st.just(True)))})


# ------------------------------------------------------------------ orphans
def orphans_run(c):
    """The main process dies: with it, all its sub-processes."""
    p = subprocess.Popen([sys.executable, "-m", "vf.orphan", json.dumps(c)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)
    children = []
    try:
        deadline = time.monotonic() + 60 * TSCALE
        if c["when"] == "ready":
            if select.select([p.stdout], [], [], 60 * TSCALE)[0] and not p.stdout.readline():
                raise HarnessError("the main process did not start")
        time.sleep(c["delay"])
        main = psutil.Process(p.pid)
        os.kill(p.pid, signal.SIGSTOP)
        while main.status() != psutil.STATUS_STOPPED and time.monotonic() < deadline:
            time.sleep(0.002)
        children = [x for x in main.children(recursive=True)]
        if c["when"] == "ready" and not children:
            raise HarnessError("no sub-processes")
        os.kill(p.pid, getattr(signal, c["sig"]))
        if c["sig"] != "SIGKILL":
            os.kill(p.pid, signal.SIGCONT)
        if c["reaped"]:
            p.wait(30)
        end = time.monotonic() + 30 * TSCALE
        while True:
            left = [x for x in children if x.is_running() and x.status() != psutil.STATUS_ZOMBIE]
            if not left:
                break
            if time.monotonic() > end:
                raise Violation(f"sub-processes {left} outlive the main process; case {c}")
            time.sleep(0.02)
    finally:
        try:
            p.kill()
        except OSError:
            pass
        p.wait(30)
        p.stdin.close()
        p.stdout.close()
        for x in children:
            try:
                if x.is_running():
                    x.kill()
            except psutil.NoSuchProcess:
                pass
    return {"nontrivial": bool(children), "labels": [c["when"], c["sig"]] + sorted(c["acts"])}


def orphans_strat():
    return st.fixed_dictionaries({"n": st.integers(1, 3), "when": st.sampled_from(["ready", "ready", "start"]), "delay": st.floats(0, 2.5).map(lambda x: round(x, 3)), "sig": st.sampled_from(["SIGKILL", "SIGKILL", "SIGTERM", "SIGABRT"]),
                                  "reaped": st.booleans(), "acts": st.lists(st.sampled_from(["block", "ignore", "hold", "append", "crash", "wait"]), max_size=3, unique=True)})


SEARCHES = [
    Search("single", single_strat, single_run, quick=500, thorough=20000, shards=2, case_limit=230),
    Search("stop", stop_strat, stop_run, quick=64, thorough=2400, shards=4, case_limit=260, weight=3, env=lean_env(), quick_budget=45),
    Search("failed_start", failed_strat, failed_run, quick=64, thorough=2400, shards=3, case_limit=260, weight=3, env=lean_env(), quick_budget=45),
    Search("orphans", orphans_strat, orphans_run, quick=18, thorough=1000, shards=2, case_limit=200, weight=2, env=lean_env(), quick_budget=45),
]
