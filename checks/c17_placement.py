"""C17: actors are placed as their allocation strategy says."""
import asyncio
import gc
import itertools

from hypothesis import strategies as st

import xoscar as mo
from vf.actors import Cluster, spin
from vf.core import Search, Violation, bounded, run_async, weighted
from vf.realpool import RealPool
from xoscar.backends.allocate_strategy import AddressSpecified, AllocateStrategy, IdleLabel, MainPool, ProcessIndex, Random, RandomLabel, RandomSubPool
from xoscar.core import ActorRef

RULE = ("pools of 0-4 sub-pools with generated labels (in process and as real processes) under generated histories of groups of 1-5 concurrent creations by generated strategies (idle ones with 2 marks, "
        "failing in the constructor, the start-up hook or by cancellation, nested in start-up hooks, sent by other actors) and destructions; all pools are compared with the strategies after each group, "
        "and every mark is filled up at the end; spread: 150 actors by one random strategy. Non-trivial = some idle placement or impossible placement")
ASSUMPTIONS = ["creations addressed directly to a sub-pool stay there and name no other strategy", "an idle placement that overlaps others of its mark may find no slot as long as those could hold all of them"]
TECHNIQUE = "stateful property-based testing: generated histories and overlaps of placements against a model of the strategies, with slots filled up as the final oracle"
COUNT = itertools.count(1)
gc.freeze()
#: (tag, label, mark) -> {address: uid} of those living now, in this process
LIVING = {}
CLASHES = []


class Boom(Exception):
    pass


class Chosen(AllocateStrategy):
    """A strategy of a user."""

    def __init__(self, index):
        self.index = index

    def get_allocated_address(self, config, allocated):
        addresses = config.get_external_addresses()
        return addresses[self.index % len(addresses)]


class Placed(mo.Actor):
    def __init__(self, key=None, fail=None, delay=0, child=None):
        super().__init__()
        self.key, self.fail, self.delay, self.child = key, fail, delay, child
        self.child_out = None
        if fail == "init":
            raise Boom("init")

    async def __post_create__(self):
        if self.key is not None:
            there = LIVING.setdefault(tuple(self.key), {})
            if self.address in there:
                CLASHES.append((self.key, self.address, there[self.address], self.uid))
            there[self.address] = self.uid
        try:
            if self.fail == "post":
                raise Boom("post")
            await spin(self.delay)
            if self.child is not None:
                main, uid, strategy = self.child
                self.child_out = await outcome(mo.create_actor(Placed, self.key, uid=uid, address=main, allocate_strategy=strategy))
            if self.fail == "later":
                raise Boom("later")
        except BaseException:
            self.forget()
            raise

    def forget(self):
        if self.key is not None:
            there = LIVING.get(tuple(self.key), {})
            if there.get(self.address) == self.uid:
                del there[self.address]

    async def __pre_destroy__(self):
        await spin(self.delay)
        self.forget()

    @mo.no_lock
    async def where(self):
        return self.address, self.child_out


class Creator(mo.StatelessActor):
    async def make(self, main, uid, strategy, *args):
        return await outcome(mo.create_actor(Placed, *args, uid=uid, address=main, allocate_strategy=strategy))


async def outcome(aw):
    try:
        return ["ok", await aw]
    except asyncio.CancelledError:
        return ["Cancelled", ""]
    except Exception as e:
        names = [k.__name__ for k in type(e).__mro__]
        return [next((n for n in ("NoIdleSlot", "Boom") if n in names), type(e).__name__), str(e)[:100]]


def plan_of(op, addrs, labels, tag):
    """(strategy, addresses it may choose from, idle key)"""
    s, x = op["strategy"], op["x"]
    n = len(addrs)
    if s == "main":
        return MainPool(), addrs[:1], None
    if s == "index":
        return ProcessIndex(x), ([addrs[x]] if x < n else []), None
    if s == "random":
        return Random(), addrs, None
    if s == "sub":
        return RandomSubPool(), addrs[1:], None
    if s == "address":
        return AddressSpecified(addrs[x] if x < n else "127.0.0.1:1"), ([addrs[x]] if x < n else []), None
    if s == "chosen":
        return Chosen(x), [addrs[x % n]], None
    label = op["label"]
    of = [a for a, b in zip(addrs, labels) if b == label]
    if s == "label":
        return RandomLabel(label), of, None
    return IdleLabel(label, (op["mark"], tag)), of, (label, op["mark"])


async def scenario(c, addrs, labels, creators, tag, online):
    main = addrs[0]
    live = {}   # uid -> (address, idle key)
    ids = itertools.count()
    hist = []
    interesting = 0

    def complain(what):
        raise Violation(f"{what}; addresses {addrs}; labels {labels}; living {live}; history {hist}")

    def key_of(idle):
        return None if idle is None or not online else [tag, *idle]

    async def sweep(uids):
        """Where the given ids are, by asking every pool."""
        found = {}
        for uid in uids:
            for a in reversed(addrs):
                # the main pool answers for all others
                if uid not in found and await bounded(mo.has_actor(ActorRef(a, uid)), 20, "has"):
                    found[uid] = a
        return found

    for group in c["groups"]:
        jobs = []
        occupied = {}
        for uid, (a, idle) in live.items():
            if idle:
                occupied.setdefault(idle, {})[a] = uid
        pick = sorted(live)
        gone = set()
        for op in group:
            if op["op"] == "create":
                uid = f"a{next(ids)}{tag}"
                strategy, allowed, idle = plan_of(op, addrs, labels, tag)
                child = None
                if op["child"] and idle:
                    child = (main, uid + "c", strategy)
                args = (key_of(idle), op["fail"], op["delay"], child)
                if op["by"] and op["strategy"] != "chosen":
                    aw = creators[op["by"] % len(creators)].make(main, uid, strategy, *args)
                else:
                    aw = outcome(mo.create_actor(Placed, *args, uid=uid, address=main, allocate_strategy=strategy))
                jobs.append((op, uid, allowed, idle, asyncio.ensure_future(aw)))
            elif op["op"] == "direct":
                uid = f"a{next(ids)}{tag}"
                a = addrs[op["x"] % len(addrs)]
                jobs.append((op, uid, [a], None, asyncio.ensure_future(outcome(mo.create_actor(Placed, None, op["fail"], op["delay"], uid=uid, address=a)))))
            elif pick:
                uid = pick[op["x"] % len(pick)]
                if uid in gone:
                    continue
                gone.add(uid)
                a, idle = live[uid]
                jobs.append((op, uid, [a], idle, asyncio.ensure_future(outcome(mo.destroy_actor(ActorRef(main if op["main"] else a, uid))))))
            await spin(op["gap"])
            if op["op"] == "create" and op["cancel"] is not None:
                await spin(op["cancel"])
                jobs[-1][4].cancel()
        results = []
        for op, uid, allowed, idle, t in jobs:
            try:
                out = await bounded(t, 20, f"{op}; history {hist}")
            except asyncio.CancelledError:
                out = ["Cancelled", ""]
            results.append((op, uid, allowed, idle, out[0] if out[0] == "ok" else out))
            if op["op"] == "destroy":
                if out[0] != "ok":
                    complain(f"destroying {uid} gave {out}")
                del live[uid]
        hist.append([(op["op"], op.get("strategy"), op.get("x"), op.get("label"), op.get("mark"), op.get("fail"), uid, out) for op, uid, _, _, out in results])
        if CLASHES:
            complain(f"two living actors of one mark in one pool: {CLASHES}")
        uids = [uid for op, uid, *_ in results]
        found = await sweep(uids + [uid + "c" for uid in uids])
        for op, uid, allowed, idle, out in results:
            if op["op"] == "destroy":
                if uid in found:
                    complain(f"{uid} exists at {found[uid]} although destroyed")
                continue
            if idle:
                interesting += 1
            if not allowed:
                interesting += 1
            a = found.get(uid)
            if a is not None:
                if a not in allowed:
                    complain(f"{uid} ({op['op']} {op.get('strategy')} {op['x']} {op.get('label')}) was placed at {a}, must be one of {allowed}")
                live[uid] = (a, idle)
                at, child_out = await bounded(ActorRef(a, uid).where(), 20, "where")
                if at != a:
                    complain(f"{uid} lives at {a} and believes to live at {at}")
            may_cancel = op.get("cancel") is not None
            if out == "ok":
                if op["fail"] or a is None:
                    complain(f"creation of {uid} (fail={op['fail']}) succeeded; it is at {a}")
            elif a is not None and out[0] != "Cancelled":
                complain(f"creation of {uid} gave {out} but it is at {a}")
            elif out[0] == "Cancelled":
                if not may_cancel:
                    complain(f"creation of {uid} gave {out}")
            elif idle and out[0] == "NoIdleSlot":
                others = sum(1 + bool(o.get("child")) for o, u, _, i, _ in results if o["op"] == "create" and i == idle and u != uid)
                if len(allowed) > len(occupied.get(idle, {})) + others:
                    complain(f"no slot for {uid}: {len(allowed)} pools, taken {occupied.get(idle)} and {others} others")
            elif not allowed:
                if idle and out[0] != "NoIdleSlot":
                    complain(f"idle placement without a pool gave {out}")
                if out[0] == "Boom":
                    complain(f"impossible placement of {uid} ran its constructor")
            elif out[0] != "Boom" or not op["fail"]:
                complain(f"creation of {uid} (fail={op['fail']}) gave {out}")
            # created by the start-up hook
            ch = found.get(uid + "c")
            if ch is not None:
                if ch not in allowed:
                    complain(f"{uid}c was placed at {ch}, must be one of {allowed}")
                live[uid + "c"] = (ch, idle)
        # no two living ones of one mark in one pool
        taken = {}
        for uid, (a, idle) in live.items():
            if idle:
                if (idle, a) in taken:
                    complain(f"{uid} and {taken[idle, a]} of mark {idle} are both at {a}")
                taken[idle, a] = uid
        main_says = {uid: await bounded(mo.has_actor(ActorRef(main, uid)), 20, "has") for uid in uids}
        for uid in uids:
            if main_says[uid] != (uid in found):
                complain(f"{uid}: the main pool says {main_says[uid]}, found at {found.get(uid)}")
    # fill all slots up
    for label, mark in sorted({(b, m) for b in {x for x in labels if x is not None} | {"none"} for m in (0, 1)}):
        of = [a for a, b in zip(addrs, labels) if b == label]
        free = set(of) - {a for a, i in live.values() if i == (label, mark)}
        got = []
        while True:
            uid = f"a{next(ids)}{tag}"
            out = await bounded(outcome(mo.create_actor(Placed, uid=uid, address=main, allocate_strategy=IdleLabel(label, (mark, tag)))), 20, "filling up")
            if out[0] != "ok":
                break
            got.append(out[1].address)
            live[uid] = (out[1].address, None)
            if len(got) > len(of):
                break
        if out[0] != "NoIdleSlot" or sorted(got) != sorted(free):
            complain(f"mark {(label, mark)}: free are {sorted(free)}, further placements went to {got}, then {out}")
    # leave nothing
    for uid, (a, _) in live.items():
        await bounded(mo.destroy_actor(ActorRef(a, uid)), 20, "cleaning up")
    return {"nontrivial": interesting > 0, "labels": sorted({op.get("strategy", op["op"]) for g in c["groups"] for op in g})}


async def in_process(c):
    LIVING.clear()
    CLASHES.clear()
    labels = c["labels"]
    async with Cluster(len(labels) - 1, tcp=c["tcp"], labels=labels) as cl:
        creators = [await mo.create_actor(Creator, uid=f"creator{i}", address=a) for i, a in enumerate(cl.addresses)]
        return await scenario(c, cl.addresses, labels, creators, "", True)


def in_process_run(c):
    return run_async(in_process, c, limit=100)


LABELS = ["m", "a", "b", "a"]
POOL = RealPool(3, labels=LABELS)
STATE = {}


def setup():
    POOL.setup()
    STATE["creators"] = [POOL.run(lambda a=a, i=i: mo.create_actor(Creator, uid=f"creator{i}", address=a)) for i, a in enumerate(POOL.addresses)]


async def on_processes(c):
    return await scenario(c, POOL.addresses, LABELS, STATE["creators"], f"-{next(COUNT)}", False)


def processes_run(c):
    return POOL.run(on_processes, c, limit=100)


def groups():
    gap = st.sampled_from([0, 0, 0, 1, 3])
    fail = weighted((5, st.none()), (1, st.sampled_from(["init", "post", "later"])))
    delay = st.sampled_from([0, 0, 1, 3, 8])
    create = st.fixed_dictionaries({
        "op": st.just("create"), "strategy": weighted((5, st.just("idle")), (1, st.sampled_from(["main", "index", "random", "sub", "address", "label", "chosen"]))),
        "x": weighted((6, st.integers(0, 4)), (1, st.just(9))), "label": weighted((6, st.sampled_from(["a", "a", "b", "m"])), (1, st.just("none"))), "mark": weighted((3, st.just(0)), (1, st.just(1))),
        "fail": fail, "delay": delay, "gap": gap, "by": st.sampled_from([0, 0, 1, 2, 3]), "child": weighted((6, st.just(False)), (1, st.just(True))),
        "cancel": weighted((8, st.none()), (1, st.sampled_from([0, 1, 2, 4, 8, 15])))})
    direct = st.fixed_dictionaries({"op": st.just("direct"), "x": st.integers(0, 4), "fail": fail, "delay": delay, "gap": gap})
    destroy = st.fixed_dictionaries({"op": st.just("destroy"), "x": st.integers(0, 6), "main": st.booleans(), "gap": gap})
    op = weighted((5, create), (1, direct), (3, destroy))
    # many of one mark at once
    rush = st.tuples(create, st.lists(create, min_size=1, max_size=4)).map(lambda t: [t[0]] + [{**o, "strategy": "idle", "label": t[0]["label"], "mark": t[0]["mark"]} for o in t[1]])
    return st.lists(weighted((4, st.lists(op, min_size=1, max_size=1)), (3, st.lists(op, min_size=2, max_size=5)), (2, rush)), min_size=1, max_size=10)


def in_process_strat():
    labels = weighted((1, st.just([None])), (8, st.tuples(st.sampled_from(["m", None, "a"]), st.lists(st.sampled_from(["a", "a", "b", None]), min_size=1, max_size=4)).map(lambda t: [t[0]] + t[1])))
    return st.fixed_dictionaries({"labels": labels, "tcp": weighted((4, st.just(False)), (1, st.just(True))), "groups": groups()})


def processes_strat():
    return st.fixed_dictionaries({"groups": groups()})


# ------------------------------------------------------------------ random ones reach all pools they may
def spread_run(c):
    async def go():
        labels = c["labels"]
        async with Cluster(len(labels) - 1, labels=labels) as cl:
            strategy, allowed, _ = plan_of({"strategy": c["strategy"], "x": 0, "label": "a"}, cl.addresses, labels, "")
            got = {}
            for i in range(150):
                out = await outcome(mo.create_actor(Placed, uid=f"a{i}", address=cl.main, allocate_strategy=strategy))
                if not allowed:
                    if out[0] == "ok":
                        raise Violation(f"impossible placement {c} gave {out}")
                    return False
                if out[0] != "ok":
                    raise Violation(f"placement {c} gave {out}")
                got[out[1].address] = got.get(out[1].address, 0) + 1
            if set(got) != set(allowed):
                raise Violation(f"150 actors by {c['strategy']} went to {got}, eligible are {allowed}")
            return len(allowed) > 1

    return {"nontrivial": run_async(go, limit=60), "labels": [c["strategy"]]}


def spread_strat():
    return st.fixed_dictionaries({"labels": st.tuples(st.sampled_from(["m", "a"]), st.lists(st.sampled_from(["a", "a", "b"]), max_size=4)).map(lambda t: [t[0]] + t[1]), "strategy": st.sampled_from(["random", "sub", "label"])})


SEARCHES = [
    Search("in_process", in_process_strat, in_process_run, quick=1500, thorough=60000, shards=4, case_limit=150),
    Search("processes", processes_strat, processes_run, setup=setup, teardown=POOL.teardown, quick=250, thorough=12000, shards=3, case_limit=150, weight=2),
    Search("spread", spread_strat, spread_run, quick=60, thorough=400, shards=1),
]
