"""C10: failing creations and destructions leave no half-made actor."""
import asyncio

import xoscar as mo
from hypothesis import strategies as st
from xoscar.backends.allocate_strategy import AddressSpecified, IdleLabel, ProcessIndex
from xoscar.core import ActorRef

from vf.actors import Cluster, spin
from vf.core import Search, Violation, bounded, run_async
from vf.realpool import RealPool

RULE = ("1-10 groups of 1-4 concurrent creations/destructions of 3 ids on 3 pools, addressed to the hosting or main pool, by address, index or idle label, "
        "failing in the constructor, the start-up hook (at once, later), by cancellation, argument transport, unknown address or the shut-down hook; "
        "after each group all pools, calls, hooks and idle slots are compared with the outcomes; non-trivial = some failure or race of the same id")
ASSUMPTIONS = ["an actor whose start-up hook is still running already answers look-ups",
               "destroying an actor whose creation has not been answered yet is not covered",
               "concurrent groups: any serial order of the operations is accepted (each answers as one of them would), hooks and registries must match it"]
TECHNIQUE = "property-based fault injection: generated failing and racing creations/destructions against a registry model"

#: per process: token -> list of events
EVENTS = []


class Boom(Exception):
    pass


def _bad(*a):
    raise Boom("load")


class Unloadable:
    def __reduce__(self):
        return _bad, ()


class Undumpable:
    def __reduce__(self):
        raise Boom("dump")


class Made(mo.Actor):
    def __init__(self, token, fail=None, delay=0, arg=None):
        super().__init__()
        EVENTS.append([token, "new"])
        self.token, self.fail, self.delay = token, fail, delay
        self.pre_fail = 0
        if fail == "init":
            raise Boom(f"init {token}")
        if fail == "init_base":
            raise SystemExit(f"init {token}")

    async def __post_create__(self):
        EVENTS.append([self.token, "post"])
        if self.fail == "post":
            raise Boom(f"post {self.token}")
        await spin(self.delay)
        if self.fail == "post_later":
            raise Boom(f"post {self.token}")
        if self.fail == "post_cancelled":
            raise asyncio.CancelledError
        EVENTS.append([self.token, "made"])

    async def __pre_destroy__(self):
        EVENTS.append([self.token, "pre"])
        await spin(self.delay)
        if self.pre_fail:
            self.pre_fail -= 1
            EVENTS.append([self.token, "failed"])
            raise Boom(f"pre {self.token}")

    @mo.no_lock
    async def set_pre_fail(self, n):
        self.pre_fail = n

    @mo.no_lock
    async def who(self):
        return self.token


class Log(mo.Actor):
    @mo.no_lock
    async def events(self):
        return EVENTS

    @mo.no_lock
    async def clear(self):
        EVENTS.clear()


async def outcome(aw):
    try:
        return ["value", await aw]
    except asyncio.CancelledError:
        return ["error", "Cancelled", ""]
    except BaseException as e:
        names = [c.__name__ for c in type(e).__mro__]
        for n in ("ActorNotExist", "ActorAlreadyExist", "NoIdleSlot", "Boom", "SystemExit", "CannotLoad", "KeyError"):
            if n in names:
                return ["error", n, str(e)]
        return ["error", type(e).__name__, repr(e)]


FAILS = {"init": "Boom", "init_base": "SystemExit", "post": "Boom", "post_later": "Boom", "post_cancelled": "Cancelled"}


async def scenario(c, addrs, labels, logs, kind, shared, tag=""):
    n = len(addrs)
    main = addrs[0]
    host = [dict() for _ in range(n)]   # uid -> token
    slots = {}                           # (label, mark) -> {uid at pool}
    token = 0
    hist = []
    born, dead, hurt = {}, set(), set()
    failures = 0

    def complain(what):
        raise Violation(f"{kind}: {what}; addresses {addrs}; model {host}; history {hist}")

    try:
        for group in c["groups"]:
            jobs = []
            before = [dict(h) for h in host]
            for i, op in enumerate(group):
                k = op["pool"] % n
                uid = f"u{op['uid']}{tag}"
                if op["op"] == "create":
                    token += 1
                    if op["fail"] in ("dump", "load") and (kind == "dummy" or kind == "processes" and k == 0):
                        op = {**op, "fail": None}  # nothing is serialized
                    if op["fail"] == "nowhere" and op["via_main"] and op["how"] != "address":
                        op = {**op, "fail": None}
                    arg = {"dump": Undumpable, "load": Unloadable}.get(op["fail"], lambda: None)()
                    address, strategy = (main if op["via_main"] else addrs[k]), None
                    if op["via_main"] and op["how"] == "index":
                        strategy = ProcessIndex(k)
                    elif op["via_main"] and op["how"] == "idle":
                        strategy = IdleLabel(labels[k], (op["mark"], tag))
                    elif op["via_main"]:
                        strategy = AddressSpecified(addrs[k] if op["fail"] != "nowhere" else "127.0.0.1:1")
                    elif op["fail"] == "nowhere":
                        address = "127.0.0.1:1"
                    kw = {} if strategy is None else {"allocate_strategy": strategy}
                    aw = mo.create_actor(Made, token, op["fail"], op["delay"], arg, uid=uid, address=address, **kw)
                    jobs.append([op, k, uid, token, asyncio.ensure_future(outcome(aw))])
                else:
                    if op["pre_fail"] and uid in host[k]:
                        await bounded(outcome(ActorRef(addrs[k], uid).set_pre_fail(op["pre_fail"])), 20, "setting")
                    # actors are not destroyed before their creation is answered
                    same = [(j, o["op"]) for j, o in enumerate(group) if o["uid"] == op["uid"] and o["pool"] % n == k]
                    if any(o == "create" for _, o in same) and (uid not in host[k] or any(o == "destroy" and j < i for j, o in same)):
                        continue
                    # the main pool destroys actors of any pool
                    others = [j for j in range(n) if uid in host[j] and j != k] or [
                        o for o in group if o["op"] == "create" and f"u{o['uid']}{tag}" == uid and o["pool"] % n != k]
                    if others and k == 0:
                        continue
                    via_main = op["via_main"] and not others
                    aw = mo.destroy_actor(ActorRef(main if via_main else addrs[k], uid))
                    jobs.append([op, k, uid, None, asyncio.ensure_future(outcome(aw))])
                await spin(op["gap"])
                if op["cancel"] is not None:
                    await spin(op["cancel"])
                    jobs[-1][4].cancel()
            results = []
            for op, k, uid, tok, t in jobs:
                out = await bounded(t, 20, f"{op}; history {hist}")
                results.append((op, k, uid, tok, out))
            hist.append([{**{x: y for x, y in op.items() if y not in (None, 0, False)}, "token": tok, "out": out[:2] if out[0] == "error" else "ok"}
                         for op, k, uid, tok, out in results])
            # what happened, by the hooks that ran
            lists = [await bounded(a.events(), 20, "events") for a in logs]
            events = [x for ls in (lists[:1] if shared else lists) for x in ls]

            def ev(tok):
                return [e for t, e in events if t == tok]

            for k in reversed(range(n)):
                for uid in {r[2] for r in results if r[1] == k}:
                    mine = [r for r in results if r[1] == k and r[2] == uid]
                    made = []
                    for op, _, _, tok, out in mine:
                        if op["op"] != "create":
                            continue
                        e = ev(tok)
                        if op["fail"] is not None:
                            failures += 1
                        if out[0] == "value":
                            if op["fail"]:
                                complain(f"creation {tok} of {uid} failing at {op['fail']} gave {out}")
                            if [x for x in e if x not in ("pre", "failed")] != ["new", "post", "made"]:
                                complain(f"creation {tok} of {uid} succeeded with {e}")
                            made.append(tok)
                        elif out[1] == "ActorAlreadyExist":
                            if e:
                                complain(f"refused creation {tok} of {uid} ran {e}")
                            if uid not in before[k] and not any(r[0]["op"] == "create" for r in mine if r[3] != tok):
                                complain(f"creation {tok} of {uid} was refused though there is none")
                        elif out[1] == "Cancelled" and op["cancel"] is not None:
                            pass
                        elif op["fail"] in FAILS and (out[1] == FAILS[op["fail"]]):
                            want = ["new"] if op["fail"].startswith("init") else ["new", "post"]
                            if [x for x in e if x not in ("pre", "failed")] != want:
                                complain(f"creation {tok} of {uid} failing at {op['fail']} ran {e}")
                            if out[1] == "Boom" and f"{op['fail'].split('_')[0]} {tok}" not in out[2]:
                                complain(f"creation {tok} failed with {out}")
                        elif op["fail"] in ("dump", "load", "nowhere"):
                            pass
                        elif op["how"] == "idle" and op["via_main"] and out[1] == "NoIdleSlot":
                            pass
                        else:
                            complain(f"creation {tok} of {uid} (fail={op['fail']}) gave {out}")
                    # who is there now?
                    hosts_now = await bounded(outcome(mo.has_actor(ActorRef(addrs[k], uid))), 20, "has")
                    who = await bounded(outcome(ActorRef(addrs[k], uid).who()), 20, "who")
                    if (hosts_now == ["value", True]) != (who[0] == "value"):
                        complain(f"{uid} at pool {k}: has says {hosts_now}, a call {who}")
                    now = who[1] if who[0] == "value" else None
                    if who[0] == "error" and who[1] != "ActorNotExist":
                        complain(f"{uid} at pool {k}: a call gave {who}")
                    # destructions: each success ends one life
                    old = before[k].get(uid)
                    lives = ([old] if old is not None else []) + made
                    cancelled = [t for op, _, _, t, out in mine if op["op"] == "create" and out[0] == "error" and out[1] == "Cancelled" and "made" in ev(t)]
                    lives += cancelled  # they may have come too late
                    n_ok = sum(1 for op, _, _, _, out in mine if op["op"] == "destroy" and out[0] == "value")
                    for op, _, _, _, out in mine:
                        if op["op"] == "destroy" and out[0] == "error":
                            if out[1] == "Boom" and "pre" in out[2]:
                                failures += 1
                            elif out[1] == "Cancelled" and op["cancel"] is not None:
                                pass
                            elif out[1] != "ActorNotExist":
                                complain(f"destruction of {uid} gave {out}")
                            elif len(mine) == 1 and old is not None:
                                complain(f"destruction of {uid} gave {out} though it exists")
                    if k == 0 and any(h.get(uid) == now for h in host[1:]):
                        now = None  # the main pool answers for other pools
                    if now is not None and now not in lives:
                        complain(f"{uid} at pool {k} is {now}, none of {lives}")
                    gone = [t for t in lives if t != now and t not in dead]
                    for t in gone:
                        e = ev(t)
                        if e.count("pre") - e.count("failed") < 1:
                            complain(f"{uid} ({t}) at pool {k} vanished without its shut-down hook: {e}; outcomes {mine}")
                        dead.add(t)
                    late_destroy = any(op["op"] == "destroy" and out[:2] == ["error", "Cancelled"] for op, _, _, _, out in mine)
                    if late_destroy:
                        hurt.update(lives)
                    if n_ok != len(gone) and not late_destroy and not cancelled:
                        complain(f"{uid} at pool {k}: {n_ok} successful destructions but {gone} gone; outcomes {mine}")
                    if now is not None:
                        e = ev(now)
                        if e.count("pre") != e.count("failed") and now not in hurt:
                            complain(f"{uid} ({now}) at pool {k} exists after its shut-down hook: {e}")
                    for t in gone:
                        e = ev(t)
                        if e.count("pre") - e.count("failed") != 1 and t not in hurt:
                            complain(f"{uid} ({t}) at pool {k} ran its shut-down hook more than once: {e}")
                    if now is None:
                        host[k].pop(uid, None)
                    else:
                        host[k][uid] = now
                        for op, _, _, t, _ in mine:
                            if t == now:
                                born[t] = IdleLabel(labels[k], (op["mark"], tag)) if op["via_main"] and op["how"] == "idle" else None
            for uid in {u for r in results for u in [r[2]]}:
                main_says = await bounded(outcome(mo.has_actor(ActorRef(main, uid))), 20, "has")
                if main_says != ["value", any(uid in h for h in host)]:
                    complain(f"{uid}: the main pool says {main_says}")
                ref = await bounded(outcome(mo.actor_ref(address=main, uid=uid)), 20, "ref")
                if (ref[0] == "value") != any(uid in h for h in host) or (ref[0] == "value" and uid not in host[addrs.index(ref[1].address)]):
                    complain(f"{uid}: the main pool refers to {ref}")
        # idle slots are taken by living actors only
        for mark in (0, 1):
            for k in range(n):
                taken = sum(1 for t in host[k].values() if born.get(t) == IdleLabel(labels[k], (mark, tag)))
                uid = f"probe{mark}{k}{tag}"
                out = await bounded(outcome(mo.create_actor(Made, -1, uid=uid, address=main, allocate_strategy=IdleLabel(labels[k], (mark, tag)))), 20, "probe")
                if taken and out[:2] != ["error", "NoIdleSlot"] or not taken and out[0] != "value":
                    complain(f"slot of label {labels[k]} mark {mark} has {taken} actors; creating another gave {out}")
                if out[0] == "value":
                    await bounded(mo.destroy_actor(out[1]), 20, "probe")
        # each id can be used again
        for i in range(3):
            for k in range(n):
                uid = f"u{i}{tag}"
                out = await bounded(outcome(mo.create_actor(Made, -1, uid=uid, address=addrs[k])), 20, "again")
                want = ["error", "ActorAlreadyExist"] if uid in host[k] else "value"
                if out[0] != want and out[:2] != want:
                    complain(f"creating {uid} at pool {k} at the end gave {out}")
                out = await bounded(outcome(mo.destroy_actor(ActorRef(addrs[k], uid))), 20, "cleaning up")
                if out[:2] == ["error", "Boom"]:
                    await bounded(ActorRef(addrs[k], uid).set_pre_fail(0), 20, "cleaning up")
                    await bounded(mo.destroy_actor(ActorRef(addrs[k], uid)), 20, "cleaning up")
    finally:
        pass
    races = sum(1 for g in c["groups"] if len({(o["uid"], o["pool"]) for o in g}) < len(g))
    return {"nontrivial": failures + races > 0,
            "labels": sorted({str(o.get("fail")) for g in c["groups"] for o in g if o["op"] == "create"} | ({"race"} if races else set()))}


LABELS = ["main", "a", "b"]


async def in_process(c):
    async with Cluster(2, tcp=c["tcp"], labels=LABELS) as cl:
        log = await mo.create_actor(Log, uid="log", address=cl.main)
        return await scenario(c, cl.addresses, LABELS, [log], "tcp" if c["tcp"] else "dummy", True)


def in_process_run(c):
    EVENTS.clear()
    return run_async(in_process, c, limit=100)


POOL = RealPool(2, labels=LABELS)
STATE = {}
COUNT = iter(range(10 ** 9))


def setup():
    POOL.setup()
    STATE["logs"] = [POOL.run(lambda a=a, k=k: mo.create_actor(Log, uid=f"log{k}", address=a)) for k, a in enumerate(POOL.addresses)]


async def on_processes(c):
    for a in STATE["logs"]:
        await a.clear()
    return await scenario(c, POOL.addresses, LABELS, STATE["logs"], "processes", False, f"-{next(COUNT)}")


def processes_run(c):
    return POOL.run(on_processes, c, limit=100)


def strat():
    delay = st.sampled_from([0, 0, 1, 3, 8])
    gap = st.sampled_from([0, 0, 0, 1, 2, 5])
    cancel = st.sampled_from([None] * 7 + [1, 2, 3, 5, 8])
    create = st.fixed_dictionaries({
        "op": st.just("create"), "uid": st.integers(0, 2), "pool": st.integers(0, 2), "via_main": st.booleans(),
        "how": st.sampled_from(["address", "index", "idle", "idle"]), "mark": st.integers(0, 1),
        "fail": st.sampled_from([None] * 8 + ["init", "init_base", "post", "post_later", "post_later", "post_cancelled", "dump", "load", "nowhere"]),
        "delay": delay, "gap": gap, "cancel": cancel})
    destroy = st.fixed_dictionaries({
        "op": st.just("destroy"), "uid": st.integers(0, 2), "pool": st.integers(0, 2), "via_main": st.booleans(),
        "pre_fail": st.sampled_from([0, 0, 0, 1, 2]), "gap": gap, "cancel": cancel})
    some = st.lists(st.one_of(create, destroy), min_size=1, max_size=1)

    def race(x):
        op, rest = x
        return [op] + [{**r, "uid": op["uid"], "pool": op["pool"]} for r in rest]

    races = st.tuples(st.one_of(create, destroy), st.lists(st.one_of(create, destroy), min_size=1, max_size=3)).map(race)
    destroys = st.tuples(destroy, st.lists(destroy, min_size=1, max_size=3)).map(race)
    free = st.lists(st.one_of(create, destroy), min_size=2, max_size=4)
    return st.fixed_dictionaries({"tcp": st.booleans(), "groups": st.lists(st.one_of(some, some, races, destroys, free), min_size=1, max_size=10)})


SEARCHES = [
    Search("in_process", strat, in_process_run, quick=2000, thorough=100000, shards=5, case_limit=150, rule=RULE),
    Search("processes", strat, processes_run, setup=setup, teardown=POOL.teardown, quick=450, thorough=25000, shards=3, case_limit=150, rule=RULE, weight=2),
]
