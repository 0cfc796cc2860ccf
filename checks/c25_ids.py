"""C25: generated identifiers, process indexes and addresses never collide."""
import asyncio
import gc
import os
import pickle
import random
import threading

from hypothesis import strategies as st

import xoscar as mo
from vf.core import HarnessError, Search, Violation, run_async, weighted
from vf.realpool import RealPool
from xoscar import utils
from xoscar._utils import new_actor_id, new_random_id, reset_id_random_seed
from xoscar.backends.communication import gen_local_address
from xoscar.backends.communication.socket import _gen_unix_socket_default_path
from xoscar.backends.indigen.pool import MainActorPool
from xoscar.backends.message import new_message_id
from xoscar.backends.pool import MainActorPoolBase
from xoscar.backends.test.pool import TestMainActorPool
from xoscar.backends.router import Router

RULE = ("lengths: generated sequences of lengths and repetitions; family: generated trees of forked processes and threads, with Python's own generator seeded alike or not, "
        "each drawing ids and process indexes; indexes: generated process ids (close, doubled, extreme) and pool classes drawing in a generated order; ports: generated small ranges "
        "and taken ports; pools: generated in-process pools at the same time; real: sub-processes of real pools draw ids and create actors. Non-trivial = at least two draws")
ASSUMPTIONS = ["ids of fewer than 8 bytes may repeat", "process ids are below 2**32", "processes do not share a number in different namespaces of process ids",
               "no test re-seeds the internal generator by other means than the library's own reset"]
TECHNIQUE = "property-based testing: pairwise distinctness over generated process trees, plus length and freshness of every part of the bytes"
gc.freeze()


def distinct(values, what):
    seen = {}
    for who, v in values:
        if v in seen:
            raise Violation(f"{what} {v!r} was given to {seen[v]} and to {who}")
        seen[v] = who


socket_path = getattr(_gen_unix_socket_default_path, "__wrapped__", _gen_unix_socket_default_path)


# ------------------------------------------------------------------ lengths of random ids
def lengths_run(c):
    parts, whole, short = [], [], {}
    for k, (n, times) in enumerate(c["draws"]):
        for j in range(times):
            r = new_random_id(n)
            if type(r) is not bytes or len(r) != n:
                raise Violation(f"asked for {n} random bytes, got {type(r).__name__} of {len(r)}")
            if n >= 8:
                whole.append((f"draw {k}.{j}", r))
                parts += [(f"bytes {i}.. of draw {k}.{j} of {n} bytes", r[i:i + 8]) for i in range(0, n - 7, 8)]
            elif n:
                short.setdefault(n, []).append(r)
    distinct(whole, "the id")
    distinct(parts, "the random bytes")
    for n, rs in short.items():
        for pos in range(n):
            if len(rs) >= 40 and len({r[pos] for r in rs}) == 1:
                raise Violation(f"byte {pos} of {n} random bytes never changes")
    for n in {n for n, _ in c["draws"] if n % 8 and n > 8}:
        tails = [new_random_id(n)[-1] for _ in range(20)]
        if len(set(tails)) == 1:
            raise Violation(f"the last of {n} random bytes never changes")
    a, m = [new_actor_id() for _ in range(5)], [new_message_id() for _ in range(5)]
    for i in a + m:
        if type(i) is not bytes or len(i) < 16:
            raise Violation(f"weak id {i!r}")
    distinct([("an actor", x) for x in a] + [("a message", x) for x in m], "the id")
    return {"nontrivial": sum(t for n, t in c["draws"] if n) > 1}


def lengths_strat():
    n = weighted((4, st.integers(0, 40)), (3, st.sampled_from([8, 16, 24, 31, 32, 33, 40, 64])), (1, st.integers(0, 5000)))
    return st.fixed_dictionaries({"draws": st.lists(st.tuples(n, st.sampled_from([1, 1, 2, 3, 50])), min_size=1, max_size=8)})


# ------------------------------------------------------------------ trees of processes
def draw(job, who, out):
    for what, n in job["draws"]:
        for _ in range(n):
            if what == "actor":
                out.append(("id", who, new_actor_id()))
            elif what == "message":
                out.append(("id", who, new_message_id()))
            elif what == "raw":
                out.append(("id", who, new_random_id(16)))
            elif what == "index":
                out.append(("index", who, next(MainActorPool.process_index_gen("127.0.0.1"))))


def family(job, who):
    """Runs a job with all its children, returns everything drawn."""
    out = []
    if job["seed"] is not None:
        random.seed(job["seed"])
    if job["reset"]:
        reset_id_random_seed()
    draw(job, who, out)
    threads = []
    for t in range(job["threads"]):
        th = threading.Thread(target=draw, args=(job, f"{who}/thread {t}", out))
        th.start()
        threads.append(th)
    for th in threads:
        th.join()
    pipes = []
    for k, child in enumerate(job["children"]):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                for rr, _ in pipes:
                    os.close(rr)
                data = pickle.dumps(family(child, f"{who}/child {k}"))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        pipes.append((r, pid))
        if child["wait"]:
            # the next children are forked after this one is done
            out += finish(*pipes.pop())
        draw({"draws": job["between"]}, who, out)
    for r, pid in pipes:
        out += finish(r, pid)
    return out


def finish(r, pid):
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status or not data:
        raise HarnessError(f"a forked child ended with status {status}")
    return pickle.loads(data)


def family_run(c):
    state = random.getstate()
    # the tree runs in a child of its own: nothing is left behind in this process
    job = {"seed": None, "reset": False, "threads": 0, "draws": c["root_draws"], "between": [], "children": [c["tree"]], "wait": False}
    try:
        out = family(job, "root")
    finally:
        random.setstate(state)
    for kind in ("id", "index"):
        distinct([(who, v) for k, who, v in out if k == kind], {"id": "the id", "index": "the process index"}[kind])
    idx = {v for k, _, v in out if k == "index"}
    distinct([(i, gen_local_address(i)) for i in idx], "the local address")
    distinct([(i, socket_path(i)) for i in idx], "the socket path")
    return {"nontrivial": len(out) > 2, "labels": ["forks" if c["tree"]["children"] else "one", "seeded" if c["tree"]["seed"] is not None else "not seeded"]}


def family_strat():
    draws = st.lists(st.tuples(st.sampled_from(["actor", "message", "raw", "index"]), st.integers(1, 4)), max_size=3)
    base = {"seed": weighted((3, st.none()), (2, st.integers(0, 1))), "reset": weighted((3, st.just(False)), (1, st.just(True))), "threads": weighted((5, st.just(0)), (1, st.integers(1, 3))),
            "draws": draws, "between": draws, "wait": st.booleans()}
    leaf = st.fixed_dictionaries({**base, "children": st.just([])})
    one = st.fixed_dictionaries({**base, "children": st.lists(leaf, max_size=3)})
    two = st.fixed_dictionaries({**base, "children": st.lists(one, max_size=3)})
    return st.fixed_dictionaries({"root_draws": draws, "tree": weighted((2, one), (3, two))})


# ------------------------------------------------------------------ process indexes of many processes
class Shift:
    """os.getpid as seen by the library in another process."""

    def __init__(self, pid):
        self.pid = pid

    def __enter__(self):
        self.real = os.getpid
        os.getpid = lambda: self.pid

    def __exit__(self, *a):
        os.getpid = self.real


CLASSES = {"indigen": MainActorPool, "base": MainActorPoolBase, "test": TestMainActorPool}


def one_process(pid, before, ops):
    got, gens = [], {}
    with Shift(pid):
        for _, i in zip(range(before), MainActorPoolBase.process_index_gen("127.0.0.1")):
            if before < 300:
                got.append(i)
        for cls, again in ops:
            if again or cls not in gens:
                gens[cls] = CLASSES[cls].process_index_gen("127.0.0.1")
            got.append(next(gens[cls]))
    return got


def indexes_run(c):
    got = []
    for pid, before, ops in c["processes"]:
        # every process is a fork of this one, which never draws itself: all of them count from the same state
        r, w = os.pipe()
        child = os.fork()
        if child == 0:
            code = 1
            try:
                os.close(r)
                data = pickle.dumps(one_process(pid, before, ops))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        got += [(f"process {pid}", i) for i in finish(r, child)]
    distinct(got, "the process index")
    idx = [v for _, v in got]
    distinct([(i, gen_local_address(i)) for i in idx], "the local address")
    distinct([(i, socket_path(i)) for i in idx], "the socket path")
    distinct([(i, MainActorPool.gen_internal_address(i, "127.0.0.1:1")) for i in idx], "the internal address")
    return {"nontrivial": len(got) > 1, "labels": ["many" if any(b > 60000 for _, b, _ in c["processes"]) else "few"]}


def indexes_strat():
    pid = st.one_of(st.integers(2, 40), st.integers(1000, 1100), st.integers(1, 11).flatmap(lambda k: st.sampled_from([37 << k, 1 << k])), st.integers(2, 4194304))
    ops = st.lists(st.tuples(st.sampled_from(list(CLASSES)), st.booleans()), min_size=1, max_size=12)
    before = weighted((6, st.just(0)), (4, st.integers(0, 200)), (1, st.sampled_from([65534, 65535, 65536, 131071])))
    return st.fixed_dictionaries({"processes": st.lists(st.tuples(pid, before, ops), min_size=1, max_size=5, unique_by=lambda x: x[0])})


# ------------------------------------------------------------------ free ports
def ports_run(c):
    low = 20000
    keep = utils.LOW_PORT_BOUND, utils.HIGH_PORT_BOUND, set(utils._local_occupied_ports)
    state = random.getstate()
    utils._local_occupied_ports.clear()
    utils.LOW_PORT_BOUND, utils.HIGH_PORT_BOUND = low, low + c["size"] - 1
    taken = {low + p for p in c["taken"] if p < c["size"]}
    import psutil
    import socket

    class Conn:
        def __init__(self, port, typ=socket.SOCK_STREAM):
            self.type, self.laddr = typ, type("A", (), {"port": port})

    real = psutil.net_connections
    psutil.net_connections = lambda *a, **k: ([Conn(p) for p in taken] + [Conn(p) for p in taken] + [Conn(low + p, socket.SOCK_DGRAM) for p in c["udp"]] + [Conn(low - 1), Conn(low + c["size"])])
    got = []
    try:
        for k, occupy in enumerate(c["draws"]):
            free = set(range(low, low + c["size"])) - taken - {p for p, o in got if o}
            try:
                port = utils.get_next_port(occupy=occupy) if not occupy or k % 2 else utils.get_next_port()
            except SystemError:
                if free:
                    raise Violation(f"no port found, free ones are {sorted(free)}") from None
                continue
            if port not in free:
                raise Violation(f"the port {port} is {'taken' if port in taken else 'given out before' if port in {p for p, o in got} else 'out of range'}; free are {sorted(free)}")
            got.append((port, occupy))
    finally:
        psutil.net_connections = real
        utils.LOW_PORT_BOUND, utils.HIGH_PORT_BOUND = keep[:2]
        utils._local_occupied_ports.clear()
        utils._local_occupied_ports.update(keep[2])
        random.setstate(state)
    return {"nontrivial": len(got) > 1, "labels": ["exhausted" if len(got) < len(c["draws"]) else "enough"]}


def ports_strat():
    return st.fixed_dictionaries({"size": st.integers(1, 12), "taken": st.lists(st.integers(0, 11), max_size=6), "udp": st.lists(st.integers(0, 11), max_size=3),
                                  "draws": st.lists(weighted((3, st.just(True)), (1, st.just(False))), min_size=1, max_size=14)})


# ------------------------------------------------------------------ pools in one process
class Ids(mo.Actor):
    def draw(self, n):
        return os.getpid(), [new_actor_id() for _ in range(n)] + [new_message_id() for _ in range(n)], [next(MainActorPool.process_index_gen("x")) for _ in range(n)]

    def seed(self, k):
        random.seed(k)

    def me(self):
        return self.uid


def pools_run(c):
    async def go():
        Router.set_instance(None)
        pools, addresses, indexes, uids = [], [], [], []
        try:
            async def start(n):
                pool = await mo.create_actor_pool("test://127.0.0.1", n_process=n, use_uvloop=False)
                pools.append(pool)
                return pool

            for step in c["steps"]:
                if step[0] == "start":
                    await asyncio.gather(*[start(n) for n in step[1]])
                elif step[0] == "append" and pools:
                    pool = pools[step[1] % len(pools)]
                    await pool.append_sub_pool()
            seen = []
            for k, pool in enumerate(pools):
                cfg = pool._config
                for i in cfg.get_process_indexes():
                    conf = cfg.get_pool_config(i)
                    indexes.append((f"pool {k}", i))
                    seen += [(f"pool {k} process {i}", a) for a in set(conf["external_address"]) | {conf["internal_address"]} if a]
                for _ in range(c["actors"]):
                    ref = await mo.create_actor(Ids, address=pool.external_address)
                    uids.append((f"pool {k}", ref.uid))
                    if await ref.me() != ref.uid:
                        raise Violation("an actor without id has two ids")
            distinct(indexes, "the process index")
            distinct(seen, "the address")
            distinct(uids, "the actor id")
            return len(indexes)
        finally:
            for pool in pools:
                await pool.stop()
            Router.set_instance(None)

    n = run_async(go, limit=60)
    return {"nontrivial": n > 1}


def pools_strat():
    step = weighted((3, st.tuples(st.just("start"), st.lists(st.integers(0, 3), min_size=1, max_size=3))), (1, st.tuples(st.just("append"), st.integers(0, 5))))
    return st.fixed_dictionaries({"steps": st.lists(step, min_size=1, max_size=4), "actors": st.integers(0, 5)})


# ------------------------------------------------------------------ sub-processes of real pools
REAL = {}


def real_setup():
    REAL.update(first=RealPool(2), second=RealPool(2), seen={})
    REAL["first"].setup()
    REAL["second"].loop = REAL["first"].loop
    REAL["second"].start()


def real_teardown():
    for k in ("second", "first"):
        REAL[k].teardown()


def real_run(c):
    pools = [REAL["first"], REAL["second"]]

    async def go():
        refs, ids, idx = [], [], []
        for p, w in c["where"]:
            pool = pools[p]
            refs.append((f"actor in process {p}.{w}", await mo.create_actor(Ids, address=pool.addresses[w])))
        try:
            if c["seed"] is not None:
                for _, r in refs:
                    await r.seed(c["seed"])
            ids += [(who, r.uid) for who, r in refs]
            for who, r in refs:
                pid, i, x = await r.draw(c["n"])
                ids += [(who, v) for v in i]
                idx += [(who, v) for v in x]
            addr = [(f"process {p}.{w}", a) for p, pool in enumerate(pools) for w, a in enumerate(pool.addresses)]
            distinct(addr, "the address")
            return ids, idx
        finally:
            for _, r in refs:
                await mo.destroy_actor(r)

    ids, idx = REAL["first"].run(go)
    distinct(ids, "the id")
    distinct(idx, "the process index")
    for who, v in ids + idx:
        if v in REAL["seen"]:
            raise Violation(f"{v!r} was given before")
        REAL["seen"][v] = 1
    return {"nontrivial": len(ids) > 1}


def real_strat():
    return st.fixed_dictionaries({"where": st.lists(st.tuples(st.integers(0, 1), st.integers(0, 2)), min_size=1, max_size=6), "n": st.integers(0, 20), "seed": weighted((2, st.none()), (1, st.integers(0, 1)))})


SEARCHES = [
    Search("lengths", lengths_strat, lengths_run, quick=400, thorough=10000, shards=1),
    Search("family", family_strat, family_run, quick=320, thorough=6000, shards=2, weight=3),
    Search("indexes", indexes_strat, indexes_run, quick=300, thorough=8000, shards=2),
    Search("ports", ports_strat, ports_run, quick=400, thorough=10000, shards=1),
    Search("pools", pools_strat, pools_run, quick=200, thorough=5000, shards=2),
    Search("real", real_strat, real_run, quick=60, thorough=1500, shards=1, setup=real_setup, teardown=real_teardown),
]
