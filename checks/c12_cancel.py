"""C12: cancelling a call affects that call only."""
import asyncio

import xoscar as mo
from hypothesis import strategies as st
from xoscar.core import ActorRef

from vf.actors import Cluster, spin
from vf.core import TSCALE, Search, Violation, bounded, run_async
from vf.realpool import RealPool

RULE = ("1-14 steps (issue a call that waits on a gate / finishes / fails / delegates to another actor / swallows its cancellation, cancel it by cancel, timeout or cancelled wait_for, "
        "open its gate, or both at once) on a locked and a lock-free actor by local, message, TCP, main-pool and relayed references; "
        "model = one running call per locked actor + a set of waiting ones; non-trivial = some call cancelled while running or waiting")
ASSUMPTIONS = ["which waiting call runs next is not prescribed (C08 covers order)",
               "a call cancelled in the same moment as its gate opens may end either way, its log must agree"]
TECHNIQUE = "property-based testing: generated cancellation histories against a model of running and waiting calls"


class Boom(Exception):
    pass


class Common:
    def setup_log(self, name):
        self.name, self.log, self.gates = name, [], {}

    async def body(self, token, mode, cleanup):
        self.log.append([token, "start"])
        try:
            if mode in ("hold", "swallow", "fail"):
                ev = self.gates.setdefault(token, asyncio.Event())
                await ev.wait()
            elif mode == "sleep":
                while not self.gates.setdefault(token, asyncio.Event()).is_set():
                    await asyncio.sleep(0.001)
            else:
                await spin(2)
        except asyncio.CancelledError:
            self.log.append([token, "cancelled"])
            await spin(cleanup)
            self.log.append([token, "cleaned"])
            if mode == "swallow":
                return ["kept", token]
            raise
        self.log.append([token, "end"])
        if mode == "fail":
            raise Boom(f"boom {token}")
        return ["done", token]

    async def through(self, token, mode, cleanup, ref):
        """delegates to another actor"""
        self.log.append([token, "start"])
        try:
            got = await ref.work(token, mode, cleanup)
        except asyncio.CancelledError:
            self.log.append([token, "cancelled"])
            self.log.append([token, "cleaned"])
            raise
        except Boom:
            self.log.append([token, "end"])
            raise
        self.log.append([token, "end"])
        return got


class Locked(Common, mo.Actor):
    def __init__(self, name):
        super().__init__()
        self.setup_log(name)

    async def work(self, token, mode, cleanup, pay=None):
        return await self.body(token, mode, cleanup)

    async def deleg(self, token, mode, cleanup, ref):
        return await self.through(token, mode, cleanup, ref)

    @mo.no_lock
    async def open(self, token):
        self.gates.setdefault(token, asyncio.Event()).set()

    @mo.no_lock
    async def get_log(self):
        return self.log


class Free(Common, mo.StatelessActor):
    def __init__(self, name):
        super().__init__()
        self.setup_log(name)

    async def work(self, token, mode, cleanup, pay=None):
        return await self.body(token, mode, cleanup)

    async def deleg(self, token, mode, cleanup, ref):
        return await self.through(token, mode, cleanup, ref)

    async def open(self, token):
        self.gates.setdefault(token, asyncio.Event()).set()

    async def get_log(self):
        return self.log


class Relay(mo.StatelessActor):
    async def relay(self, ref, name, args):
        return await getattr(ref, name)(*args)


class Call:
    def __init__(self, token, actor, mode, deleg, task):
        self.token, self.actor, self.mode, self.deleg, self.task = token, actor, mode, deleg, task
        self.state = "sent"      # sent -> running -> over
        self.racy = False
        self.how = None
        self.opened = False


async def outcome(aw):
    try:
        return ["value", await aw]
    except asyncio.CancelledError:
        return ["cancelled"]
    except (asyncio.TimeoutError, TimeoutError):
        return ["timeout"]
    except BaseException as e:
        return ["error", "Boom" if isinstance(e, Boom) else type(e).__name__, str(e)]


async def start_call(aw, how):
    if how == "wait_for":
        return await mo.wait_for(aw, 3600)
    if how == "nested":
        return await asyncio.wait_for(aw, 3600)
    return await aw


async def scenario(c, addrs, kinds, settle_time):
    n = len(addrs)
    main = addrs[0]
    actors = []
    for i, (cls, where) in enumerate(((Locked, c["where"][0]), (Free, c["where"][1]), (Free, c["where"][2]))):
        actors.append(await mo.create_actor(cls, f"a{i}", address=addrs[where % n]))
    relay = await mo.create_actor(Relay, address=addrs[c["where"][3] % n])
    locked = [True, False, False]
    calls = []
    hist = []
    cancelled_live = 0

    async def logs():
        out = []
        for a in actors:
            out.append(await bounded(a.get_log(), 20, f"reading a log; history {hist}"))
        return out

    def events(ls, call):
        return [e for t, e in ls[call.actor] if t == call.token]

    def complain(what, ls=None):
        raise Violation(f"{what}; history {hist}; logs {ls}")

    def running(actor):
        return [x for x in calls if x.actor == actor and x.state == "running"]

    def waiting(actor):
        return [x for x in calls if x.actor == actor and x.state == "sent"]

    def expected(call):
        if call.mode == "fail":
            return ["error", "Boom"]
        return ["value", ["done", call.token]]

    async def finish(call, may_cancel=False):
        out = await bounded(call.task, 20, f"call {call.token} ({call.mode}) which should be over; history {hist}")
        if call.how == "timeout" and out == ["cancelled"]:
            out = ["timeout!"]
        want = expected(call)
        if out[:2] != want:
            complain(f"call {call.token} gave {out}, want {want}", await logs())
        ls = await logs()
        if events(ls, call) != ["start", "end"]:
            complain(f"call {call.token} returned {out} with log {events(ls, call)}", ls)
        call.state = "over"

    async def settle():
        """wait until the calls the model wants to run do"""
        for actor in range(len(actors)):
            while True:
                w = waiting(actor)
                r = running(actor)
                if not w or (locked[actor] and r):
                    break
                t = 0
                while True:
                    ls = await logs()
                    started = [x for x in w if "start" in events(ls, x)]
                    if started if locked[actor] else len(started) == len(w):
                        break
                    await asyncio.sleep(0.002)
                    t += 1
                    if t > 1500 * TSCALE:
                        complain(f"calls {[x.token for x in w]} of actor {actor} wait though {[x.token for x in r]} are running", ls)
                if locked[actor] and len([x for x in started if "end" not in events(ls, x) and "cleaned" not in events(ls, x)]) > 1:
                    complain("two calls of the locked actor run", ls)
                for x in started:
                    x.state = "running"
                    if x.mode == "quick":
                        await finish(x)

    async def after_cancel(call, was):
        nonlocal cancelled_live
        out = await bounded(call.task, 20, f"cancelled call {call.token} ({call.how}); history {hist}")
        want = ["timeout"] if call.how == "timeout" else ["cancelled"]
        ls = await logs()
        if was == "waiting":
            cancelled_live += 1
            if out != want:
                complain(f"call {call.token} cancelled while waiting gave {out}", ls)
            call.state = "never"
            return
        # running: it ends in its own time
        cancelled_live += 1
        kept = call.mode == "swallow" and call.deleg is None and call.how != "timeout"
        if kept and out != ["value", ["kept", call.token]] and not (call.how == "wait_for" and out == ["cancelled"]):
            complain(f"call {call.token} that swallows its cancellation gave {out}", ls)
        if call.mode == "swallow" and call.deleg is not None:
            if out not in (want, ["value", ["kept", call.token]]):
                complain(f"call {call.token} gave {out}", ls)
        elif not kept and out != want:
            complain(f"running call {call.token} was cancelled ({call.how}) but gave {out}", ls)
        call.state = "over"
        for k in range(int(1500 * TSCALE)):
            ev = events(ls, call)
            if ev[-1:] == ["cleaned"] or (call.mode == "swallow" and call.deleg is not None and ev[-1:] == ["end"]):
                break
            if "end" in ev:
                complain(f"call {call.token} ran to its end after its cancellation", ls)
            await asyncio.sleep(0.002)
            ls = await logs()
        else:
            complain(f"call {call.token} was cancelled but its method runs on: {ev}", ls)
        if call.deleg is not None:
            # so does the method it was waiting for
            for k in range(int(1500 * TSCALE)):
                ev = [e for t, e in ls[call.deleg] if t == call.token]
                if not ev or ev[-1] == "cleaned":
                    break
                await asyncio.sleep(0.002)
                ls = await logs()
            else:
                complain(f"call {call.token} was cancelled but the method it called on actor {call.deleg} runs on: {ev}", ls)

    for op in c["ops"]:
        hist.append(op)
        if op["op"] == "call":
            token = len(calls)
            actor = op["actor"] % 3
            deleg = 2 if op["deleg"] and actor != 2 else None
            target = actors[actor]
            kind = kinds[op["kind"] % len(kinds)]
            name, args = "work", [token, op["mode"], op["cleanup"]]
            if deleg is not None:
                name = "deleg"
                args.append(actors[deleg])
            elif op["pay"]:
                args.append(bytes(op["pay"]))
            if kind == "local":
                ref = await mo.actor_ref(address=target.address, uid=target.uid)
            elif kind == "main":
                ref = ActorRef(main, target.uid)
            else:
                ref = ActorRef(target.address, target.uid)
            aw = relay.relay(ref, name, args) if kind == "relay" else getattr(ref, name)(*args)
            how = op["how"]
            if how == "timeout":
                # never before it started: its timeout comes with the cancel step
                ev = asyncio.Event()

                async def timed(aw=aw, ev=ev):
                    inner = asyncio.ensure_future(aw)
                    w = asyncio.ensure_future(ev.wait())
                    await asyncio.wait([inner, w], return_when=asyncio.FIRST_COMPLETED)
                    w.cancel()
                    return await mo.wait_for(inner, None if inner.done() else 0.001)

                task = asyncio.ensure_future(outcome(timed()))
            else:
                task = asyncio.ensure_future(outcome(start_call(aw, how)))
                ev = None
            call = Call(token, actor, op["mode"], deleg, task)
            call.how, call.ev = how, ev
            calls.append(call)
            if op["racy"] is not None and how != "timeout":
                blocked = locked[actor] and bool(running(actor))
                others = waiting(actor) if locked[actor] else []
                await spin(1 + op["racy"])
                task.cancel()
                out = await bounded(task, 20, f"call {token} cancelled at once; history {hist}")
                cancelled_live += 1
                call.state = "over"
                if out == ["cancelled"]:
                    pass
                elif blocked or out[:2] not in (expected(call), ["value", ["kept", token]]) or op["mode"] in ("hold", "sleep"):
                    complain(f"call {token} cancelled at once gave {out}", await logs())
                await asyncio.sleep(settle_time)
                for k in range(int(1500 * TSCALE)):
                    ls = await logs()
                    ev = events(ls, call)
                    if not ev or ev[-1] in ("cleaned", "end"):
                        break
                    await asyncio.sleep(0.002)
                else:
                    complain(f"call {token} was cancelled at once but runs on: {ev}", ls)
                if blocked and ev:
                    complain(f"call {token} was cancelled before it could start but ran: {ev}", ls)
                if ev and ev[-1] == "end" and op["mode"] in ("hold", "sleep") and deleg is None:
                    complain(f"call {token} ran to its end: {ev}", ls)
            else:
                await spin(1 + op["gap"])
                if not op["quiet"]:
                    await settle()
                else:
                    await asyncio.sleep(settle_time)
                    call.state = "sent"
        elif not calls:
            continue
        else:
            call = calls[op["which"] % len(calls)]
            if op["op"] in ("cancel", "both"):
                await settle()
                state = call.state
                if op["op"] == "both" and state == "running" and call.how != "timeout":
                    ref = actors[call.actor if call.deleg is None else call.deleg]
                    opening = asyncio.ensure_future(ref.open(call.token))
                    await spin(op["gap"])
                    call.task.cancel()
                    await bounded(opening, 20, "opening a gate")
                    out = await bounded(call.task, 20, f"call {call.token} cancelled and opened; history {hist}")
                    cancelled_live += 1
                    call.state = "over"
                    for k in range(int(1500 * TSCALE)):
                        ls = await logs()
                        ev = events(ls, call)
                        if ev[-1] in ("cleaned", "end"):
                            break
                        await asyncio.sleep(0.002)
                    else:
                        complain(f"call {call.token} never ended: {ev}", ls)
                    good = (out == ["cancelled"] or out[:2] == expected(call) and ev == ["start", "end"]
                            or call.mode == "swallow" and out == ["value", ["kept", call.token]])
                    if not good:
                        complain(f"call {call.token} cancelled and opened at once gave {out}, log {ev}", ls)
                else:
                    before = await outcome(asyncio.shield(call.task)) if call.task.done() else None
                    if call.how == "timeout":
                        call.ev.set()
                    else:
                        call.task.cancel()
                    if state in ("over", "never"):
                        if call.task.done() and before is not None and await call.task != before[1]:
                            complain("a finished call changed")
                    else:
                        await after_cancel(call, {"sent": "waiting", "running": "running"}[state])
                await settle()
            elif op["op"] == "open":
                await settle()
                if call.state == "running":
                    await bounded(actors[call.actor if call.deleg is None else call.deleg].open(call.token), 20, "opening a gate")
                    await finish(call)
                    await settle()
    # everything else is as if the cancelled calls had not existed
    hist.append("end")
    await settle()
    for _ in range(len(calls) + 1):
        run = [x for x in calls if x.state == "running"]
        if not run:
            break
        for x in run:
            await bounded(actors[x.actor if x.deleg is None else x.deleg].open(x.token), 20, "opening a gate")
            await finish(x)
        await settle()
    ls = await logs()
    for x in calls:
        ev = events(ls, x)
        if x.state == "never" and ev:
            complain(f"call {x.token} was cancelled while it waited but ran: {ev}", ls)
        if x.state == "sent":
            complain(f"call {x.token} was never run", ls)
        if ev.count("start") > 1:
            complain(f"call {x.token} ran more than once", ls)
    # exclusion on the locked actor, including clean-up
    cur = None
    for t, e in ls[0]:
        if e == "start":
            if cur is not None:
                complain(f"call {t} started before {cur} was over", ls)
            cur = t
        elif e in ("end", "cleaned"):
            cur = None
    for i, a in enumerate(actors):
        for kind in kinds:
            ref = await mo.actor_ref(address=a.address, uid=a.uid) if kind == "local" else ActorRef(main if kind == "main" else a.address, a.uid)
            got = await bounded(ref.work(10 ** 6, "quick", 0), 20, f"a later call; history {hist}")
            if got != ["done", 10 ** 6]:
                complain(f"a later call gave {got}")
    for a in actors + [relay]:
        await bounded(mo.destroy_actor(a), 20, "destroying")
    return {"nontrivial": cancelled_live > 0, "labels": sorted({o["op"] for o in c["ops"]} | {str(o.get("how")) for o in c["ops"] if o["op"] == "call"})}


async def in_process(c):
    async with Cluster(2, tcp=c["tcp"]) as cl:
        kinds = ["msg", "main", "relay"] if c["tcp"] else ["local", "msg", "main", "relay"]
        return await scenario(c, cl.addresses, kinds, 0.003 if c["tcp"] else 0)


def in_process_run(c):
    return run_async(in_process, c, limit=100)


POOL = RealPool(2)


async def on_processes(c):
    return await scenario(c, POOL.addresses, ["msg", "main", "relay"], 0.005)


def processes_run(c):
    return POOL.run(on_processes, c, limit=100)


def strat():
    call = st.fixed_dictionaries({
        "op": st.just("call"), "actor": st.sampled_from([0, 0, 0, 1, 2]), "kind": st.integers(0, 3), "mode": st.sampled_from(["hold", "hold", "hold", "sleep", "quick", "fail", "swallow"]),
        "cleanup": st.sampled_from([0, 0, 1, 4]), "deleg": st.sampled_from([False, False, False, True]), "how": st.sampled_from(["plain", "plain", "wait_for", "nested", "timeout"]),
        "racy": st.sampled_from([None, None, None, 0, 1, 2, 4, 7]), "gap": st.integers(0, 4), "pay": st.sampled_from([0] * 7 + [4_000_000]), "quiet": st.booleans()})
    other = st.fixed_dictionaries({"op": st.sampled_from(["cancel", "cancel", "cancel", "open", "both"]), "which": st.integers(0, 12), "gap": st.sampled_from([0, 0, 1, 2, 4, 8])})
    return st.fixed_dictionaries({"tcp": st.booleans(), "where": st.lists(st.integers(0, 2), min_size=4, max_size=4),
                                  "ops": st.lists(st.one_of(call, other), min_size=1, max_size=14)})


SEARCHES = [
    Search("in_process", strat, in_process_run, quick=1200, thorough=60000, shards=5, case_limit=150, rule=RULE),
    Search("processes", strat, processes_run, setup=POOL.setup, teardown=POOL.teardown, quick=240, thorough=15000, shards=3, case_limit=150, rule=RULE, weight=2),
]
