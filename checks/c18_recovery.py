"""C18: a crashed sub-pool recovers as configured."""
import asyncio
import gc
import itertools
import os
import shutil
import signal
import tempfile
import time

import psutil
from hypothesis import strategies as st

import xoscar as mo
from vf.core import TSCALE, Hang, Search, Violation, bounded, lean_env, weighted
from vf.realpool import RealPool
from xoscar.backends.allocate_strategy import MainPool, ProcessIndex
from xoscar.core import ActorRef

RULE = ("histories: pools with every recovery setting, 1-3 sub-processes, labels and environments; generated sequences of creations (through the main pool, directly, by actors in other sub-pools, depending on earlier actors, "
        "failing when created again), destructions, state changes, crashes (SIGKILL, exit inside a call, kill_actor; one or two pools; again while recovering; with calls running and waiters in several places), additions and "
        "removals of sub-pools around crashes; after every crash the actors, processes, addresses, environments and call-backs are compared with a model. Non-trivial = some crash of a pool with actors")
ASSUMPTIONS = ["waiting for recovery starts when the main process has seen the death", "creation arguments are not changed by the caller afterwards, actors others depend on at creation are not destroyed", "sub-processes are started within a minute"]
TECHNIQUE = "fault injection with property-based testing: generated histories of creations, destructions and crashes of real sub-processes against a model"
LEVEL_NOTE = None
IDS = itertools.count(1)
gc.freeze()


class Worker(mo.StatelessActor):
    def __init__(self, token, need=None, *, once=None, more=()):
        super().__init__()
        self.state = [token, list(more)]
        self.need = need
        if once is not None and once[0] == "init":
            self.only_once(once[1])
        self.once = once
        self.count = 0

    @staticmethod
    def only_once(path):
        if os.path.exists(path):
            raise ValueError("only once")
        with open(path, "w"):
            pass

    async def __post_create__(self):
        if self.need is not None:
            who = await ActorRef(*self.need).who()
            self.state.append(who[0][0])
        if self.once is not None and self.once[0] == "post":
            self.only_once(self.once[1])

    async def who(self):
        self.count += 1
        return self.state, self.address, self.count, os.getpid()

    async def env(self, name):
        return os.environ.get(name)

    async def die(self):
        os._exit(1)

    async def wait(self):
        await asyncio.Event().wait()

    async def ask(self, address, uid):
        return await outcome(ActorRef(address, uid).who())

    async def make(self, address, uid, args, kw):
        return await outcome(mo.create_actor(Worker, *args, **kw, uid=uid, address=address))

    async def recovered(self, address, main):
        return await outcome(mo.wait_actor_pool_recovered(address, main))


async def outcome(aw):
    try:
        return ["ok", await aw]
    except asyncio.CancelledError:
        return ["Cancelled", ""]
    except Exception as e:
        names = [k.__name__ for k in type(e).__mro__]
        return [next((n for n in ("ActorNotExist", "ServerClosed", "ConnectionError", "ValueError", "KeyError") if n in names), type(e).__name__), str(e)[:200]]


def sub_processes():
    out = set()
    for x in psutil.Process().children():
        try:
            if x.status() != psutil.STATUS_ZOMBIE and any("start_sub_pool" in y for y in x.cmdline()):
                out.add(x.pid)
        except psutil.NoSuchProcess:
            pass
    return out


LOST = ("ServerClosed", "ConnectionError")


async def until(cond, limit, what):
    end = time.monotonic() + limit * TSCALE
    while not cond():
        if time.monotonic() > end:
            raise Hang(what)
        await asyncio.sleep(0.01)


class Down:
    """Calls of the process call-backs."""

    def __init__(self):
        self.down, self.up = [], []

    def on_down(self, pool, address):
        self.down.append(address)

    def on_up(self, pool, address):
        self.up.append(address)


async def scenario(c, p, calls, scratch):
    pool, main = p.pool, p.main
    mode = {True: "actor"}.get(c["recover"], c["recover"])
    pools = {a: (lb, env) for a, lb, env in zip(p.addresses[1:], p.kw["labels"][1:], [f"VF_{i}" for i in range(9)])}
    live = {}     # uid -> dict
    gone = set()
    dead = set()  # addresses of pools that are not restarted
    crashed = 0   # with actors
    ids = itertools.count()
    hist = []
    expected_down = {}

    def complain(what):
        raise Violation(f"{what}; recovery {c['recover']!r}; pools {pools}; dead {dead}; living {live}; history {hist}")

    def pid_of(a):
        return pool.sub_processes[a].pid

    async def check_actor(uid, via=None, fresh=False):
        m = live[uid]
        for ref in (ActorRef(m["address"], uid), ActorRef(main, uid)):
            out = await bounded(outcome(ref.who()), 30, f"call; history {hist}")
            m["count"] += 1
            if out[0] != "ok":
                complain(f"calling {uid} at {ref.address} gave {out}")
            state, address, count, pid = out[1]
            if state != m["state"] or address != m["address"]:
                complain(f"{uid} says {out[1]}")
            if count != m["count"]:
                complain(f"{uid} has been called {count} times since it was created instead of {m['count']}")
            if m["address"] != main and pid != pid_of(m["address"]):
                complain(f"{uid} runs in {pid}, its sub-pool in {pid_of(m['address'])}")
            if not await bounded(mo.has_actor(ref), 20, "has"):
                complain(f"{uid} is not there at {ref.address}")
        found = await bounded(outcome(mo.actor_ref(main, uid)), 20, "find")
        if found[0] != "ok" or found[1].address != m["address"]:
            complain(f"looking {uid} up gave {found}")
        others = [u for u in live if u != uid and live[u]["address"] != m["address"]]
        if others and via is not None:
            other = others[via % len(others)]
            out = await bounded(ActorRef(live[other]["address"], other).ask(m["address"], uid), 30, "ask")
            m["count"] += 1
            if out[0] != "ok" or out[1][0] != m["state"]:
                complain(f"{other} calling {uid} gave {out}")

    async def check_gone(uid, address):
        ref = ActorRef(main, uid)
        if await bounded(mo.has_actor(ref), 20, "has"):
            complain(f"{uid} is still there")
        for what, aw in (("looking up", mo.actor_ref(main, uid)), ("calling", ref.who())):
            out = await bounded(outcome(aw), 20, what)
            if out[0] != "ActorNotExist":
                complain(f"{what} {uid}, which is gone, gave {out}")
        if address in pools and address not in dead:
            out = await bounded(outcome(ActorRef(address, uid).who()), 20, "call")
            if out[0] != "ActorNotExist":
                complain(f"calling {uid}, which is gone, at {address} gave {out}")

    async def check_pool(a):
        """`a` serves as it was configured"""
        label, env = pools[a]
        conf = await bounded(mo.get_pool_config(a), 20, "configuration")
        i = conf.get_process_index(a)
        d = conf.get_pool_config(i)
        if d["label"] != label or conf.get_external_addresses()[1:] != list(pools):
            complain(f"{a} knows pools {conf.get_external_addresses()[1:]}, itself as {d}")
        if await bounded(mo.has_actor(ActorRef(a, "nobody")), 20, "has"):
            complain(f"{a} has everybody")

    async def create(op, a=None):
        n = next(ids)
        uid = f"w{n}"
        up = [x for x in pools if x not in dead]
        if a is None:
            a = (up + up + [main])[op["x"] % (2 * len(up) + 1)]
        same = [u for u in live if live[u]["address"] == a and not live[u]["once"]]
        need = None
        state = [uid, [1] * (op["x"] % 3)]
        if op["need"] and same:
            u = same[op["x"] % len(same)]
            need = (a, u)
            live[u]["count"] += 1
            live[u]["needed"] = True
            state.append(live[u]["state"][0])
        once = (op["once"], os.path.join(scratch, uid)) if op["once"] and a != main else None
        args, kw = (uid, need), {"once": once, "more": [1] * (op["x"] % 3)}
        others = [u for u in live if live[u]["address"] != a]
        how = op["how"]
        if how == "other" and others:
            o = others[op["x"] % len(others)]
            out = await bounded(ActorRef(live[o]["address"], o).make(a, uid, args, kw), 30, "make")
        elif how == "direct" or a == main:
            out = await bounded(outcome(mo.create_actor(Worker, *args, **kw, uid=uid, address=a, **({"allocate_strategy": MainPool()} if a == main else {}))), 30, "create")
        else:
            out = await bounded(outcome(mo.create_actor(Worker, *args, **kw, uid=uid, address=main, allocate_strategy=ProcessIndex(1 + list(pools).index(a)))), 30, "create")
        if out[0] != "ok" or out[1].address != a:
            complain(f"creating {uid} at {a} ({how}) gave {out}")
        live[uid] = {"address": a, "state": state, "count": 0, "once": once, "needed": False}
        await check_actor(uid)

    async def destroy(uid, through_main):
        a = live.pop(uid)["address"]
        out = await bounded(outcome(mo.destroy_actor(ActorRef(main if through_main else a, uid))), 30, "destroy")
        if out[0] != "ok":
            complain(f"destroying {uid} gave {out}")
        gone.add((uid, a))
        await check_gone(uid, a)

    async def kill(a, how):
        """ends when the main process has seen the death"""
        process = pool.sub_processes[a]
        pid = process.pid
        there = [u for u in live if live[u]["address"] == a]
        if how == "exit" and there:
            out = await bounded(outcome(ActorRef(a, there[0]).die()), 30, f"dying call; history {hist}")
            if out[0] not in LOST:
                complain(f"a call that ended its process gave {out}")
        elif how == "kill_actor" and there:
            out = await bounded(outcome(mo.kill_actor(ActorRef(a, there[-1]))), 30, f"kill_actor; history {hist}")
            if out[0] != "ok" and out[0] not in LOST:
                complain(f"kill_actor gave {out}")
        else:
            os.kill(pid, signal.SIGKILL)
        await until(lambda: not psutil.pid_exists(pid), 30, f"process {pid} does not end")
        await asyncio.sleep(0.005)

    async def wait_for(a, places, targets):
        """All kinds of waiters are released."""
        tasks = []
        for place in places:
            others = [u for u in live if live[u]["address"] not in targets and live[u]["address"] not in dead]
            if place == "actor" and others:
                u = others[0]
                tasks.append(asyncio.ensure_future(ActorRef(live[u]["address"], u).recovered(a, main)))
            else:
                tasks.append(asyncio.ensure_future(outcome(mo.wait_actor_pool_recovered(a, main))))
        for t in tasks:
            out = await bounded(t, 40, f"waiter for {a} is not released; history {hist}")
            if out[0] != "ok":
                complain(f"waiting for {a} gave {out}")

    def crash_effects(a):
        nonlocal crashed
        expected_down[a] = expected_down.get(a, 0) + 1
        lost = [u for u in live if live[u]["address"] == a]
        crashed += bool(lost)
        for u in lost:
            live[u]["count"] = 0
        for u in lost:
            if mode != "actor" or live[u]["once"]:
                del live[u]
                gone.add((u, a))
        if mode == "actor":
            # creations that depend on others call them
            for u in lost:
                if u in live and live[u].get("need"):
                    pass
        if not mode:
            dead.add(a)

    async def crash(op):
        up = [a for a in pools if a not in dead]
        if not up:
            return
        targets = [up[op["x"] % len(up)]]
        if op["two"] and len(up) > 1:
            targets.append(up[(op["x"] + 1) % len(up)])
        running = []
        for a in targets:
            there = [u for u in live if live[u]["address"] == a]
            if op["busy"] and there:
                running.append(asyncio.ensure_future(outcome(ActorRef(a, there[0]).wait())))
        if running:
            await asyncio.sleep(0.02)
        before = {a: pid_of(a) for a in targets}
        for a in targets:
            await kill(a, op["how"])
        for t in running:
            out = await bounded(t, 30, f"call running in the lost process; history {hist}")
            if out[0] not in LOST:
                complain(f"the call running in the lost process gave {out}")
        others = [u for u in live if live[u]["address"] not in targets]
        for u in others[:3]:
            # others are not affected
            await check_actor(u)
        again = op["again"] and mode
        for a in targets:
            if not mode or not again:
                crash_effects(a)
        if again:
            # again while it is recovering
            a = targets[0]
            await asyncio.sleep(op["delay"])
            await wait_until_started(a, before[a])
            if op["delay2"]:
                await asyncio.sleep(op["delay2"])
            os.kill(pid_of(a), signal.SIGKILL)
            old = pid_of(a)
            await until(lambda: not psutil.pid_exists(old), 30, f"process {old} does not end")
            await asyncio.sleep(0.005)
            for x in targets:
                crash_effects(x)
            expected_down[a] += 1
        if op["change"] and mode is not None:
            await change_meanwhile(op, targets)
        for a in targets:
            if a in pools:
                await wait_for(a, op["waiters"], targets)
        for a in targets:
            if a not in pools:
                continue
            if mode:
                if not psutil.pid_exists(pid_of(a)) or pid_of(a) == before[a]:
                    complain(f"after waiting for {a} its process is {pid_of(a)}, before it was {before[a]}")
                await check_pool(a)
            else:
                # nothing to wait for: the loss is noticed within a second
                await until(lambda: a in calls.down, 30, f"the loss of {a} is not noticed; history {hist}")
                await asyncio.sleep(0.05)
                out = await bounded(outcome(mo.has_actor(ActorRef(a, "x"))), 30, "has")
                if out[0] not in LOST:
                    complain(f"the lost {a} answers {out}")
        await fix_counts(targets)
        for u in sorted(live):
            await check_actor(u, op["x"])
        for u, a in sorted(gone):
            await check_gone(u, a)
        for a in targets:
            if a in pools and mode:
                await create({"x": op["x"], "need": False, "once": None, "how": "main"}, a)
                u = f"e{next(ids)}"
                live[u] = {"address": a, "state": [u, []], "count": 0, "once": None, "needed": False}
                ref = await bounded(mo.create_actor(Worker, u, uid=u, address=a), 30, "create")
                env = pools[a][1]
                if await bounded(ref.env(env), 20, "env") != "yes":
                    complain(f"the environment of the restarted {a} is gone")

    async def fix_counts(targets):
        """Recreated actors may call those they depend on, learn how often."""
        for u, m in live.items():
            if m["address"] in targets and m["needed"]:
                out = await bounded(outcome(ActorRef(m["address"], u).who()), 30, "call")
                if out[0] != "ok":
                    complain(f"calling {u} gave {out}")
                if out[1][2] > 20:
                    complain(f"{u} seems to be called very often: {out}")
                m["count"] = out[1][2]

    async def wait_until_started(a, old):
        await until(lambda: pid_of(a) != old, 60, f"{a} is not restarted; history {hist}")

    async def change_meanwhile(op, targets):
        """Sub-pools are added or removed while others recover."""
        await asyncio.sleep(op["delay"])
        if op["change"] == "append":
            if len(pools) < 4:
                await append("late")
        else:
            a = targets[-1]
            await remove(a, op["x"] % 2 == 0)

    async def append(label):
        env = f"VF_A{next(ids)}"
        out = await bounded(outcome(pool.append_sub_pool(label=label, env={env: "yes"})), 60, f"append; history {hist}")
        if out[0] != "ok":
            complain(f"append gave {out}")
        pools[out[1]] = (label, env)

    async def remove(a, force):
        out = await bounded(outcome(pool.remove_sub_pool(a, force=force)), 60, f"remove; history {hist}")
        if out[0] != "ok":
            complain(f"remove of {a} gave {out}")
        del pools[a]
        dead.discard(a)
        expected_down.pop(a, None)
        for u in [u for u in live if live[u]["address"] == a]:
            del live[u]
            gone.add((u, a))

    for op in c["ops"]:
        hist.append(list(op.values()))
        k = op["op"]
        if k == "create":
            await create(op)
        elif k == "destroy":
            free = [u for u in live if not live[u]["needed"]]
            if free:
                await destroy(sorted(free)[op["x"] % len(free)], op["main"])
        elif k == "crash":
            await crash(op)
        elif k == "append":
            if len(pools) < 4:
                await append("added")
                for a in pools:
                    if a not in dead:
                        await check_pool(a)
        elif k == "remove":
            if pools:
                await remove(list(pools)[op["x"] % len(pools)], op["force"])
                for a in pools:
                    if a not in dead:
                        await check_pool(a)
        elif k == "look":
            for u in sorted(live):
                await check_actor(u, op["x"])
    # late effects
    await asyncio.sleep(1.2)
    for u in sorted(live):
        await check_actor(u, 1)
    for u, a in sorted(gone):
        await check_gone(u, a)
    for a in expected_down:
        n, m = calls.down.count(a), expected_down[a]
        if not (1 <= n <= m):
            complain(f"the call-back for the loss of {a} was called {n} times, it was lost {m} times")
        n = calls.up.count(a)
        if not (1 <= n <= m if mode else n == 0):
            complain(f"the call-back for the recovery of {a} was called {n} times, it was lost {m} times")
    for a in set(calls.down + calls.up) & set(pools) - set(expected_down):
        complain(f"a call-back was called for {a}, which was not lost")
    def stray():
        want = {pid_of(a) for a in pools if a not in dead}
        return sub_processes() - want

    end = time.monotonic() + 20 * TSCALE
    while stray():
        if time.monotonic() > end:
            complain(f"processes {stray()} belong to no sub-pool")
        await asyncio.sleep(0.05)
    out = await bounded(outcome(mo.wait_actor_pool_recovered("127.0.0.1:1", main)), 30, "waiting for the recovery of an unknown pool never ends")
    return {"nontrivial": crashed > 0, "labels": [str(c["recover"])] + sorted({o["op"] for o in c["ops"]} | {o["change"] for o in c["ops"] if o.get("change")})}


def processes_run(c):
    labels = c["labels"]
    calls = Down()
    scratch = tempfile.mkdtemp(prefix="vf-c18-")
    kw = {} if c["recover"] == "default" else {"auto_recover": c["recover"]}
    p = RealPool(len(labels) - 1, labels=labels, envs=[{f"VF_{i}": "yes"} for i in range(len(labels) - 1)], on_process_down=calls.on_down, on_process_recover=calls.on_up, **kw)
    try:
        p.setup()
        try:
            return p.run(scenario, dict(c, recover=True if c["recover"] == "default" else c["recover"]), p, calls, scratch, limit=300)
        finally:
            p.teardown()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def hist_strat():
    x = st.integers(0, 9)
    create = st.fixed_dictionaries({"op": st.just("create"), "x": x, "need": st.booleans(), "once": weighted((5, st.none()), (1, st.sampled_from(["init", "post"]))), "how": st.sampled_from(["main", "direct", "other"])})
    destroy = st.fixed_dictionaries({"op": st.just("destroy"), "x": x, "main": st.booleans()})
    crash = st.fixed_dictionaries({"op": st.just("crash"), "x": x, "two": weighted((3, st.just(False)), (1, st.just(True))), "busy": st.booleans(), "how": st.sampled_from(["kill", "kill", "exit", "kill_actor"]),
                                   "again": weighted((3, st.just(False)), (1, st.just(True))), "delay": st.sampled_from([0, 0, 0.05, 0.3, 0.8, 1.2]), "delay2": st.sampled_from([0, 0, 0.1, 0.5, 1.0]),
                                   "waiters": st.lists(st.sampled_from(["here", "actor"]), min_size=1, max_size=3), "change": weighted((2, st.none()), (2, st.just("append")), (1, st.just("remove")))})
    other = st.one_of(st.fixed_dictionaries({"op": st.just("append"), "x": x}), st.fixed_dictionaries({"op": st.just("remove"), "x": x, "force": st.booleans()}), st.fixed_dictionaries({"op": st.just("look"), "x": x}))
    op = weighted((6, create), (3, destroy), (3, crash), (1, other))
    labels = st.lists(st.sampled_from(["a", "b", None]), min_size=1, max_size=3).map(lambda t: ["m"] + t)
    pre = st.lists(weighted((3, create), (1, destroy)), min_size=1, max_size=5)
    post = st.lists(op, max_size=5)
    return st.fixed_dictionaries({"recover": st.sampled_from(["default", True, "actor", "process", "process", False, False]), "labels": labels,
                                  "ops": st.tuples(pre, crash, post).map(lambda t: t[0] + [t[1]] + t[2])})


SEARCHES = [
    Search("processes", hist_strat, processes_run, quick=56, thorough=2400, shards=8, case_limit=330, weight=3, quick_budget=45, env=lean_env()),
]
