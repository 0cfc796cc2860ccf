"""C09: actors exist from their creation to their destruction, and only then."""
import asyncio
import gc
import pickle

import xoscar as mo
from hypothesis import strategies as st
from xoscar.backends.allocate_strategy import AddressSpecified, ProcessIndex
from xoscar.core import ActorRef

from vf.actors import Cluster, spin
from vf.core import Search, Violation, bounded, run_async
from vf.realpool import RealPool

RULE = ("a history of 4-24 creations, destructions, existence queries, look-ups and calls over 4 ids and 3 pools, each addressed to the hosting or the main pool, "
        "made by the client or by an actor of any pool, through fresh, old, pickled or local references, over in-process and TCP connections or real processes; "
        "non-trivial = at least one destruction or refused creation")
ASSUMPTIONS = ["an id may exist once per pool; the main address then answers for any of those (the destroyed one is determined by asking)",
               "a sub-pool answers existence queries and destructions only for its own actors, as documented by the message handlers",
               "in-process references to actors of a stopped pool are not called"]
TECHNIQUE = "model-based property testing: generated histories of the actor registry against a dictionary model"

EVENTS = []


class Life(mo.Actor):
    def __init__(self, token, slow=0, cyclic=False):
        super().__init__()
        EVENTS.append([token, "new"])
        self.token, self.slow = token, slow
        if cyclic:
            self.me = self  # the instance stays until garbage collection

    async def __post_create__(self):
        EVENTS.append([self.token, "post"])
        await spin(self.slow)

    async def __pre_destroy__(self):
        EVENTS.append([self.token, "pre"])
        await spin(self.slow)

    def who(self):
        return [self.token, self.uid.decode(), self.address]

    async def linger(self, n):
        await spin(n)
        return "lingered"


class Stateless(mo.StatelessActor):
    def __init__(self, token, slow=0, cyclic=False):
        super().__init__()
        EVENTS.append([token, "new"])
        self.token, self.slow = token, slow

    async def __post_create__(self):
        EVENTS.append([self.token, "post"])

    async def __pre_destroy__(self):
        EVENTS.append([self.token, "pre"])

    async def who(self):
        return [self.token, self.uid.decode(), self.address]

    async def linger(self, n):
        await spin(n)
        return "lingered"


CLASSES = {"life": Life, "stateless": Stateless}


async def outcome(aw):
    try:
        return ["value", await aw]
    except Exception as e:
        names = [c.__name__ for c in type(e).__mro__]
        for n in ("ActorNotExist", "ActorAlreadyExist"):
            if n in names:
                return ["error", n]
        return ["error", repr(e)]


async def perform(op, refs):
    """what a user does; also run inside actors. refs: old references"""
    k = op["op"]
    if k == "create":
        kw = {"address": op["address"]}
        if op["strategy"] is not None:
            kw["allocate_strategy"] = ProcessIndex(op["strategy"]) if isinstance(op["strategy"], int) else AddressSpecified(op["strategy"])
        out = await outcome(mo.create_actor(CLASSES[op["cls"]], op["token"], slow=op["slow"], cyclic=op["cyclic"], uid=op["uid"], **kw))
        if out[0] == "value":
            refs.append(out[1])
            return ["value", [out[1].address, out[1].uid.decode()]]
        return out
    if k == "ref":
        out = await outcome(mo.actor_ref(address=op["address"], uid=op["uid"]) if not op["refarg"] else mo.actor_ref(ActorRef(op["address"], op["uid"].encode())))
        if out[0] == "value":
            refs.append(pickle.loads(pickle.dumps(out[1])) if op["pickle"] else out[1])
            return ["value", [out[1].address, out[1].uid.decode()]]
        return out
    ref = refs[op["old"] % len(refs)] if op.get("old") is not None else ActorRef(op["address"], op["uid"])
    if k == "has":
        out = await outcome(mo.has_actor(ref))
    elif k == "destroy":
        out = await outcome(ref.destroy() if op["method"] else mo.destroy_actor(ref))
        if out[0] == "value":
            out = ["value", "destroyed"]
    elif k == "call":
        try:
            out = await outcome(ref.who())
        except mo.ActorNotExist:  # local references look the method up at once
            out = ["error", "ActorNotExist"]
    if op.get("old") is not None:
        return [out, [ref.address, ref.uid.decode()]]
    return out


class Agent(mo.Actor):
    def __init__(self):
        super().__init__()
        self.refs = []

    @mo.no_lock
    async def do(self, op):
        if op.get("old") is not None and not self.refs:
            return None
        return await perform(op, self.refs)

    @mo.no_lock
    async def events(self):
        return EVENTS

    @mo.no_lock
    async def clear(self):
        self.refs.clear()
        EVENTS.clear()
        gc.collect(0)


async def scenario(c, addrs, agents, kind, shared, tag=""):
    n = len(addrs)
    main = addrs[0]
    host = [dict() for _ in range(n)]   # uid -> token
    born = {}
    died = []
    refs = []
    token = 0
    history = []

    def where(uid):
        return [k for k in range(n) if uid in host[k]]

    async def do(step, op):
        who = step["by"] % (n + 1)
        if who == 0:
            if op.get("old") is not None and not refs:
                return None
            return await bounded(perform(op, refs), 20, f"{op} of {history}")
        return await bounded(agents[who - 1].do(op), 20, f"{op} by an actor of {history}")

    def complain(op, got, want):
        raise Violation(f"{kind}: {op} gave {got}, expected {want}; addresses {addrs}; model {host}; history {history}")

    def kill(k, uid):
        died.append(host[k].pop(uid))

    async def ask(uid, k):
        return await bounded(outcome(mo.has_actor(ActorRef(addrs[k], uid))), 20, "asking")

    async def destroyed_one(op, uid):
        """one of several of the same id was destroyed through the main pool"""
        hosts = where(uid)
        gone = [k for k in hosts if k and (await ask(uid, k)) != ["value", True]]
        if not gone and 0 in hosts:
            gone = [0]
        if len(gone) != 1:
            complain(op, f"{len(gone)} of the actors were destroyed", "one")
        kill(gone[0], uid)

    for step in c["steps"]:
        k, uid = step["pool"] % n, f"u{step['uid']}{tag}"
        via = 0 if step["via_main"] else k
        op = {"op": step["op"], "address": addrs[via], "uid": uid}
        if step["op"] == "create":
            token += 1
            # a strategy is for the main pool to interpret
            strategy = None if via == k and not step["strategy"] else (k if step["strategy"] == 1 else addrs[k])
            if strategy is not None:
                op["address"] = main
            op.update(cls=step["cls"], token=token, slow=step["slow"], cyclic=step["cyclic"], strategy=strategy)
            got = await do(step, op)
            if uid in host[k]:
                if got != ["error", "ActorAlreadyExist"]:
                    complain(op, got, "ActorAlreadyExist")
            else:
                if got != ["value", [addrs[k], uid]]:
                    complain(op, got, [addrs[k], uid])
                host[k][uid] = token
                born[token] = k
        elif step["op"] == "ref":
            op.update(refarg=step["flag"], pickle=step["flag2"])
            got = await do(step, op)
            if uid in host[via]:
                ok = [["value", [addrs[via], uid]]]
            else:
                ok = [["value", [addrs[j], uid]] for j in where(uid)] or [["error", "ActorNotExist"]]
            if got not in ok:
                complain(op, got, ok)
        else:
            if step["old"] is not None:
                op["old"] = step["old"]
            if step["op"] == "destroy":
                op["method"] = step["flag"]
            got = await do(step, op)
            if got is None:
                continue
            if step["old"] is not None:
                got, (address, uid) = got
                via = addrs.index(address)
                op["really"] = [address, uid]
            targets = [via] if uid in host[via] or via != 0 else where(uid)
            targets = [j for j in targets if uid in host[j]]
            if step["op"] == "has":
                ok = [["value", bool(targets)]]
            elif step["op"] == "call":
                ok = [["value", [host[j][uid], uid, addrs[j]]] for j in targets] or [["error", "ActorNotExist"]]
            else:
                ok = [["value", "destroyed"]] if targets else [["error", "ActorNotExist"]]
            if got not in ok:
                complain(op, got, ok)
            if step["op"] == "destroy" and targets:
                if via == 0:
                    await destroyed_one(op, uid)
                else:
                    kill(via, uid)
        history.append(op)
    # every pool agrees
    for u in sorted({f"u{s['uid']}{tag}" for s in c["steps"]}):
        for k in range(n):
            got = await ask(u, k)
            want = ["value", bool(where(u)) if k == 0 else u in host[k]]
            if got != want:
                complain(f"has {u} at the end at {addrs[k]}", got, want)
            got = await bounded(outcome(mo.actor_ref(address=addrs[k], uid=u)), 20, "look-up")
            ok = [u in host[k] and addrs[k]] if u in host[k] else [addrs[j] for j in where(u)]
            if (got[0] == "value" and got[1].address not in ok) or (got[0] == "error" and (ok or got[1] != "ActorNotExist")):
                complain(f"look-up of {u} at the end at {addrs[k]}", got, ok)
    # hooks
    lists = [await bounded(a.events(), 20, "events") for a in agents]
    for t, k in born.items():
        ev = [e for x, e in (lists[0] if shared else lists[k]) if x == t]
        want = ["new", "post"] + (["pre"] if t in died else [])
        if ev != want:
            raise Violation(f"{kind}: life {t} on pool {k} saw {ev}, expected {want}; history {history}")
    every = {x for ls in lists for x, _ in ls}
    if every - set(born):
        raise Violation(f"{kind}: refused creations {every - set(born)} made an actor; history {history}")
    for k in range(n):
        for u in list(host[k]):
            await bounded(mo.destroy_actor(ActorRef(addrs[k], u)), 20, "cleaning up")
    return len(died) + (token - len(born))


def info(c, weight):
    return {"nontrivial": weight > 0, "labels": sorted({s["op"] for s in c["steps"]})}


async def in_process(c):
    async with Cluster(2, tcp=c["tcp"]) as cl:
        agents = [await mo.create_actor(Agent, uid=f"agent{k}", address=a) for k, a in enumerate(cl.addresses)]
        for a in agents:
            await a.clear()
        return await scenario(c, cl.addresses, agents, "tcp" if c["tcp"] else "dummy", True)


def in_process_run(c):
    EVENTS.clear()
    return info(c, run_async(in_process, c, limit=100))


POOL = RealPool(2)
STATE = {}
COUNT = iter(range(10 ** 9))


def setup():
    POOL.setup()
    STATE["agents"] = [POOL.run(lambda a=a, k=k: mo.create_actor(Agent, uid=f"agent{k}", address=a)) for k, a in enumerate(POOL.addresses)]


async def on_processes(c):
    for a in STATE["agents"]:
        await a.clear()
    return await scenario(c, POOL.addresses, STATE["agents"], "processes", False, f"-{next(COUNT)}")


def processes_run(c):
    return info(c, POOL.run(on_processes, c, limit=100))


def strat():
    step = st.fixed_dictionaries({
        "op": st.sampled_from(["create", "create", "create", "destroy", "destroy", "has", "ref", "ref", "call", "call"]),
        "uid": st.integers(0, 3), "pool": st.integers(0, 2), "via_main": st.booleans(), "by": st.integers(0, 3),
        "strategy": st.integers(0, 2), "cls": st.sampled_from(["life", "life", "stateless"]), "slow": st.sampled_from([0, 0, 1, 4]), "cyclic": st.booleans(),
        "flag": st.booleans(), "flag2": st.booleans(), "old": st.one_of(st.none(), st.integers(0, 9))})
    return st.fixed_dictionaries({"tcp": st.booleans(), "steps": st.lists(step, min_size=4, max_size=24)})


SEARCHES = [
    Search("in_process", strat, in_process_run, quick=2500, thorough=120000, shards=5, case_limit=150, rule=RULE),
    Search("processes", strat, processes_run, setup=setup, teardown=POOL.teardown, quick=600, thorough=30000, shards=3, case_limit=150, rule=RULE, weight=2),
]
