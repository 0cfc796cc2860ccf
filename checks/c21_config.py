"""C21: pool configuration and sub-pool changes stay consistent."""
import asyncio
import gc
import itertools
import os
import pickle
import socket
import sys

import psutil
from hypothesis import strategies as st

import xoscar as mo
from vf.actors import Cluster, spin
from vf.core import TSCALE, HarnessError, Search, Violation, bounded, lean_env, run_async, weighted
from vf.realpool import RealPool
from xoscar.backends.allocate_strategy import AddressSpecified, IdleLabel, MainPool, ProcessIndex, RandomLabel, RandomSubPool
from xoscar.backends.config import ActorPoolConfig
from xoscar.core import ActorRef

RULE = ("tables: generated sequences of additions, removals and address changes of 0-6 pools with 1-3 external addresses against a model; layouts: pools created in process with generated labels, addresses and options; "
        "changes: generated histories of added (alone, two at once, failing) and removed (gracefully, by force, unknown) sub-pools, creations by every strategy, calls, look-ups and destructions, in process and with real "
        "processes; the configuration at every address is compared after each change. Non-trivial = some change after which actors are used")
ASSUMPTIONS = ["histories of one main pool; calls that are running in a removed sub-pool may fail", "environment and modules are observed in real processes only"]
TECHNIQUE = "stateful property-based testing: generated histories of configuration changes against a model of the existing pools"
COUNT = itertools.count(1)
gc.freeze()


# ------------------------------------------------------------------ tables
def tables_run(c):
    conf = ActorPoolConfig()
    model = {}   # index -> dict
    mapping = {}
    extra = {"metrics": {}, "comm": {}, "proxy": {}}
    removed = []

    def complain(what):
        raise Violation(f"{what}; model {model}; ops {c['ops']}")

    for op in c["ops"]:
        k = op["op"]
        taken = {a for m in model.values() for a in m["external_address"]}
        addrs = [a for a in dict.fromkeys(op["addresses"]) if a not in taken]
        if k == "add":
            if op["index"] in model or not addrs:
                continue
            given = addrs[0] if len(addrs) == 1 and op["plain"] else list(addrs)
            conf.add_pool_conf(op["index"], op["label"], op["internal"], given, op["env"], op["modules"], op["sigint"], op["uvloop"], op["logging"], op["kwargs"])
            model[op["index"]] = {"label": op["label"], "internal_address": op["internal"], "external_address": list(addrs), "env": op["env"], "modules": op["modules"],
                                  "suspend_sigint": op["sigint"], "use_uvloop": op["uvloop"], "logging_conf": op["logging"], "kwargs": op["kwargs"] or {}}
            mapping.update({a: op["internal"] for a in addrs})
        elif k == "remove":
            if op["index"] not in model:
                try:
                    conf.remove_pool_config(op["index"])
                except KeyError:
                    pass
                else:
                    complain(f"removing the unknown {op['index']} succeeded")
            else:
                conf.remove_pool_config(op["index"])
                for a in model.pop(op["index"])["external_address"]:
                    del mapping[a]
                    removed.append(a)
        elif k == "reset":
            if op["index"] not in model:
                continue
            own = model[op["index"]]["external_address"]
            new = [a for a in dict.fromkeys(op["addresses"]) if a not in taken or a in own]
            if not new:
                continue
            given = new[0] if len(new) == 1 and op["plain"] else list(new)
            conf.reset_pool_external_address(op["index"], given)
            for a in own:
                mapping.pop(a, None)
            model[op["index"]]["external_address"] = list(new)
            mapping.update({a: model[op["index"]]["internal_address"] for a in new})
        elif k == "pickle":
            conf = pickle.loads(pickle.dumps(conf))
        elif k == "dict":
            conf = ActorPoolConfig(pickle.loads(pickle.dumps(conf.as_dict())))
        else:
            d = {x: y for x, y in zip("abc", op["addresses"])}
            {"metrics": conf.add_metric_configs, "comm": conf.add_comm_config, "proxy": conf.add_proxy_config}[k](d or None)
            extra[k].update(d)
            if k == "proxy" and extra[k] and op["plain"]:
                x = sorted(extra[k])[0]
                conf.remove_proxy(x)
                del extra[k][x]
        if conf.n_pool != len(model) or list(conf.get_process_indexes()) != list(model):
            complain(f"{conf.n_pool} pools with indexes {conf.get_process_indexes()}")
        if conf.get_external_addresses() != [m["external_address"][0] for m in model.values()]:
            complain(f"addresses {conf.get_external_addresses()}")
        for label in {m["label"] for m in model.values()} - {None} | {"nobody"}:
            want = [m["external_address"][0] for m in model.values() if m["label"] == label]
            if conf.get_external_addresses(label=label) != want:
                complain(f"label {label}: {conf.get_external_addresses(label=label)}")
        for i, m in model.items():
            got = conf.get_pool_config(i)
            if {x: got[x] for x in m} != m:
                complain(f"pool {i} is described as {got}")
            if conf.get_external_address(i) != m["external_address"][0]:
                complain(f"address of {i}: {conf.get_external_address(i)}")
            for a in m["external_address"]:
                if conf.get_process_index(a) != i:
                    complain(f"{a} belongs to {conf.get_process_index(a)}, must be {i}")
        if dict(conf.external_to_internal_address_map) != mapping:
            complain(f"mapping is {conf.external_to_internal_address_map}, must be {mapping}")
        for a in removed:
            if a not in mapping:
                try:
                    conf.get_process_index(a)
                except ValueError:
                    pass
                else:
                    complain(f"the removed {a} is still found")
        for i in range(8):
            if i not in model:
                try:
                    conf.get_pool_config(i)
                except KeyError:
                    pass
                else:
                    complain(f"pool {i} is still found")
        if (conf.get_metric_configs(), conf.get_comm_config(), conf.get_proxy_config()) != (extra["metrics"], extra["comm"], extra["proxy"]):
            complain(f"options are {conf.as_dict()}, must be {extra}")
    return {"nontrivial": bool(removed), "labels": sorted({o["op"] for o in c["ops"]})}


def tables_strat():
    addr = st.sampled_from([f"h:{i}" for i in range(9)])
    op = st.fixed_dictionaries({
        "op": weighted((5, st.just("add")), (3, st.just("remove")), (2, st.just("reset")), (1, st.sampled_from(["pickle", "dict", "metrics", "comm", "proxy"]))), "index": st.integers(0, 6), "addresses": st.lists(addr, min_size=1, max_size=3),
        "plain": st.booleans(), "label": st.sampled_from([None, "a", "b"]), "internal": st.sampled_from([None, "i:1", "i:2", "i:3"]), "env": st.sampled_from([None, {"A": "1"}]), "modules": st.sampled_from([None, ["os"]]),
        "sigint": st.booleans(), "uvloop": st.booleans(), "logging": st.sampled_from([None, {"level": "ERROR"}]), "kwargs": st.sampled_from([None, {"x": 1}])})
    return st.fixed_dictionaries({"ops": st.lists(op, min_size=1, max_size=20)})


# ------------------------------------------------------------------ histories
class Worker(mo.StatelessActor):
    def __init__(self, token):
        super().__init__()
        self.token = token

    async def who(self):
        return self.token, self.address

    async def ask(self, address, uid):
        return await outcome(_who(ActorRef(address, uid)))

    async def find(self, address, uid):
        return await outcome(_who(await mo.actor_ref(address, uid)))

    async def about(self, name):
        return os.getpid(), os.environ.get(name), "this" in sys.modules

    async def wait(self):
        await asyncio.Event().wait()


async def _who(ref):
    return list(await ref.who())


async def outcome(aw):
    try:
        return ["ok", await aw]
    except asyncio.CancelledError:
        return ["Cancelled", ""]
    except Exception as e:
        names = [k.__name__ for k in type(e).__mro__]
        return [next((n for n in ("NoIdleSlot", "ActorNotExist", "ServerClosed", "ConnectionError", "KeyError") if n in names), type(e).__name__), str(e)[:200]]


def free_port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


async def scenario(c, pool, pools, real):
    """`pools`: the sub-pools as [address, label, env name]"""
    main = pool.external_address
    pools = [[main, pools[0], None]] + [[a, b, None] for a, b in pools[1]]
    live = {}    # uid -> (token, address)
    gone = {}    # address -> uids that were there
    ids = itertools.count()
    hist = []
    changes = used = 0
    seen_indexes = {}
    everywhere = {}
    waits = []

    def complain(what):
        raise Violation(f"{what}; pools {pools}; living {live}; history {hist}")

    def addresses():
        return [p[0] for p in pools]

    async def check_config():
        for a in addresses():
            conf = await bounded(mo.get_pool_config(a), 20, f"configuration at {a}; history {hist}")
            if conf.n_pool != len(pools) or conf.get_external_addresses() != addresses():
                complain(f"at {a} the pools are {conf.get_external_addresses()}")
            indexes = list(conf.get_process_indexes())
            if len(set(indexes)) != len(pools):
                complain(f"process indexes {indexes}")
            for i, (addr, label, env) in zip(indexes, pools):
                if seen_indexes.setdefault(addr, i) != i:
                    complain(f"index of {addr} changed from {seen_indexes[addr]} to {i}")
                d = conf.get_pool_config(i)
                if addr not in d["external_address"] or d["label"] != label or conf.get_external_address(i) != addr or conf.get_process_index(addr) != i:
                    complain(f"at {a}: {addr} (label {label}) is described as {d}, found under {conf.get_process_index(addr)} instead of {i}")
                if env is not None and d["env"] != {env: "yes"}:
                    complain(f"at {a}: environment of {addr} is {d['env']}")
            for label in {p[1] for p in pools} - {None} | {"nobody"}:
                if conf.get_external_addresses(label=label) != [p[0] for p in pools if p[1] == label]:
                    complain(f"at {a}: label {label} is {conf.get_external_addresses(label=label)}")
            if set(conf.external_to_internal_address_map) != set(addresses()):
                complain(f"at {a}: mapping is {conf.external_to_internal_address_map}")
            d = conf.as_dict()
            if sorted(d["pools"]) != sorted(indexes):
                complain(f"at {a}: {d}")

    async def check_actor(uid, via):
        nonlocal used
        token, a = live[uid]
        refs = [ActorRef(a, uid), ActorRef(main, uid)]
        for ref in refs:
            out = await bounded(outcome(_who(ref)), 20, "call")
            if out != ["ok", [token, a]]:
                complain(f"calling {uid} at {ref.address} gave {out}")
            if not await bounded(mo.has_actor(ref), 20, "has"):
                complain(f"{uid} is not there at {ref.address}")
        got = await bounded(outcome(mo.actor_ref(main, uid)), 20, "find")
        if got[0] != "ok" or got[1].address != a:
            complain(f"looking {uid} up gave {got}")
        others = [u for u in live if u != uid]
        if others:
            other = others[via % len(others)]
            for out in (await bounded(ActorRef(live[other][1], other).ask(a, uid), 20, "ask"), await bounded(ActorRef(live[other][1], other).find(main, uid), 20, "find"),
                        await bounded(ActorRef(live[other][1], other).find(live[other][1], uid), 20, "find")):
                if out[0] != "ok" or list(out[1]) != [token, a]:
                    complain(f"{other} at {live[other][1]} calling {uid} at {a} got {out}")
        used += 1

    async def create(op):
        token = next(ids)
        uid = f"w{token}"
        k = op["x"] % len(pools)
        label = pools[k][1]
        how = op["how"]
        dest, strategy, allowed = main, None, [pools[k][0]]
        if how == "index":
            strategy = ProcessIndex(k)
        elif how == "label" and label is not None:
            strategy, allowed = RandomLabel(label), [p[0] for p in pools if p[1] == label]
        elif how == "idle" and label is not None:
            mark = ("m", token)
            strategy, allowed = IdleLabel(label, mark), [p[0] for p in pools if p[1] == label]
        elif how == "sub":
            strategy, allowed = RandomSubPool(), addresses()[1:]
        elif how == "direct":
            dest = pools[k][0]
        else:
            strategy = AddressSpecified(pools[k][0])
        kw = {"allocate_strategy": strategy} if strategy else {}
        n = len(allowed) if how == "idle" and label is not None else 1
        for i in range(n):
            # idle placements fill all pools of the label
            u = uid + (f"-{i}" if i else "")
            out = await bounded(outcome(mo.create_actor(Worker, token, uid=u, address=dest, **kw)), 20, "create")
            if not allowed:
                if out[0] == "ok":
                    complain(f"creation without a pool gave {out}")
                return
            if out[0] != "ok" or out[1].address not in allowed:
                complain(f"creation {how} of {u} gave {out}, must be at one of {allowed}")
            if n > 1:
                allowed = [a for a in allowed if a != out[1].address]
            live[u] = (token, out[1].address)
            await check_actor(u, op["x"])

    await check_config()
    for op in c["ops"]:
        k = op["op"]
        hist.append([x for x in op.values()])
        if k == "append":
            specs = [(op["label"], f"VF_{next(ids)}") for _ in range(op["n"])]
            if len(pools) > 6:
                continue
            port = [free_port() if op["fixed"] and i == 0 else None for i in range(op["n"])]
            tasks = [asyncio.ensure_future(outcome(pool.append_sub_pool(label=lb, env={e: "yes"}, modules=op["modules"] or None, external_address=f"127.0.0.1:{p}" if p else None))) for (lb, e), p in zip(specs, port)]
            # calls go on in the meantime
            for uid in list(live)[:2]:
                await check_actor(uid, op["x"])
            outs = [await bounded(t, 60, f"append; history {hist}") for t in tasks]
            new = []
            for out, (lb, e), p in zip(outs, specs, port):
                if out[0] != "ok":
                    if real and p and out[0] == "OSError":
                        raise HarnessError(f"port taken? {out}")
                    complain(f"append gave {out}")
                if out[1] in addresses() or out[1] in [x[0] for x in new] or out[1].endswith(":0") or p and not out[1].endswith(f":{p}"):
                    complain(f"append gave {out} (port {p})")
                new.append([out[1], lb, e])
            # concurrent ones come in any order
            conf = await bounded(mo.get_pool_config(main), 20, "configuration")
            order = conf.get_external_addresses()
            if sorted(order) != sorted(addresses() + [x[0] for x in new]):
                complain(f"after adding {new} the pools are {order}")
            pools.extend(sorted(new, key=lambda x: order.index(x[0])))
            changes += 1
            await check_config()
            for a, lb, e in new:
                uid = f"n{next(ids)}"
                await bounded(mo.create_actor(Worker, uid, uid=uid, address=a), 20, "create")
                live[uid] = (uid, a)
                await check_actor(uid, 0)
                if real:
                    pid, env, mod = await bounded(ActorRef(a, uid).about(e), 20, "about")
                    if env != "yes" or pid == os.getpid() or bool(op["modules"]) != mod:
                        complain(f"the added pool runs in {pid} with {e}={env}, module imported: {mod}")
                    everywhere[a] = pid
        elif k == "fail":
            if not real:
                continue
            out = await bounded(outcome(pool.append_sub_pool(label="failed", start_python="/bin/false")), 60, "append")
            if out[0] == "ok":
                complain(f"append without a python gave {out}")
            await check_config()
        elif k == "remove":
            if op["unknown"] or len(pools) == 1:
                out = await bounded(outcome(pool.remove_sub_pool("127.0.0.1:1")), 30, "remove")
                if out[0] == "ok":
                    complain("removing an unknown pool succeeded")
            else:
                a, lb, e = pools[1 + op["x"] % (len(pools) - 1)]
                there = [u for u, (_, x) in live.items() if x == a]
                if op["busy"] and there:
                    waits.append((there[0], asyncio.ensure_future(outcome(_wait(ActorRef(a, there[0]))))))
                    await asyncio.sleep(0.02)
                out = await bounded(outcome(pool.remove_sub_pool(a, force=op["force"])), 60, f"remove; history {hist}")
                if out[0] != "ok":
                    complain(f"removing {a} gave {out}")
                pools[:] = [p for p in pools if p[0] != a]
                changes += 1
                for u in there:
                    del live[u]
                    if await bounded(mo.has_actor(ActorRef(main, u)), 20, "has"):
                        complain(f"{u} of the removed {a} is still there")
                    out = await bounded(outcome(mo.actor_ref(main, u)), 20, "find")
                    if out[0] != "ActorNotExist":
                        complain(f"looking up {u} of the removed {a} gave {out}")
                    out = await bounded(outcome(_who(ActorRef(main, u))), 20, "call")
                    if out[0] != "ActorNotExist":
                        complain(f"calling {u} of the removed {a} gave {out}")
                    if real:
                        out = await bounded(outcome(_who(ActorRef(a, u))), 20, "call")
                        if out[0] == "ok":
                            complain(f"calling {u} at the removed {a} gave {out}")
                if a in everywhere and psutil.pid_exists(everywhere[a]):
                    complain(f"process {everywhere[a]} of the removed {a} still runs")
                if op["reuse"] and real:
                    # its address may be used by something else
                    out = await bounded(outcome(_other(a)), 30, "reuse")
                    if out[0] != "ok":
                        complain(f"the address of the removed {a} serves nobody else: {out}")
            for u, t in waits:
                if u not in live and real:
                    out = await bounded(t, 20, f"call in the removed pool; history {hist}")
            waits[:] = [w for w in waits if w[0] in live]
            await check_config()
        elif k == "create":
            await create(op)
        elif k == "destroy":
            if live:
                uid = sorted(live)[op["x"] % len(live)]
                _, a = live.pop(uid)
                await bounded(mo.destroy_actor(ActorRef(main if op["force"] else a, uid)), 20, "destroy")
                if await bounded(mo.has_actor(ActorRef(main, uid)), 20, "has"):
                    complain(f"{uid} is still there")
        else:
            for uid in sorted(live):
                await check_actor(uid, op["x"])
    for uid in sorted(live):
        await check_actor(uid, 1)
    await check_config()
    for w in waits:
        w[1].cancel()
    return {"nontrivial": changes > 0 and used > 0, "labels": sorted({o["op"] for o in c["ops"]})}


async def _wait(ref):
    await ref.wait()


async def _other(address):
    """Serves the address by a server that is no sub-pool of this process."""
    from xoscar.backends.communication.socket import SocketClient, SocketServer
    from xoscar.backends.router import Router

    async def handler(channel):
        await channel.send(await channel.recv())

    server = await SocketServer.create({"address": address, "handle_channel": handler})
    await server.start()
    try:
        client = await asyncio.wait_for(Router.get_instance().get_client(address, from_who=None), 10 * TSCALE)
        await client.send("hello")
        if await asyncio.wait_for(client.recv(), 10 * TSCALE) != "hello":
            raise HarnessError("no echo")
        await client.close()
    finally:
        await server.stop()


def in_process_run(c):
    async def go():
        labels = c["labels"]
        async with Cluster(len(labels) - 1, labels=labels) as cl:
            return await scenario(c, cl.pool, (labels[0], list(zip(cl.addresses[1:], labels[1:]))), False)

    return run_async(go, limit=100)


def processes_run(c):
    labels = c["labels"]
    p = RealPool(len(labels) - 1, labels=labels)
    p.setup()
    try:
        return p.run(scenario, c, p.pool, (labels[0], list(zip(p.addresses[1:], labels[1:]))), True, limit=300)
    finally:
        p.teardown()


def hist_strat(most):
    def strat():
        x = st.integers(0, 9)
        append = st.fixed_dictionaries({"op": st.just("append"), "label": st.sampled_from(["a", "a", "b", None]), "n": weighted((3, st.just(1)), (1, st.just(2))), "fixed": weighted((3, st.just(False)), (1, st.just(True))), "modules": st.sampled_from([[], [], ["this"]]), "x": x})
        remove = st.fixed_dictionaries({"op": st.just("remove"), "x": x, "unknown": weighted((6, st.just(False)), (1, st.just(True))), "force": st.booleans(), "busy": st.booleans(), "reuse": st.booleans()})
        create = st.fixed_dictionaries({"op": st.just("create"), "x": x, "how": st.sampled_from(["index", "label", "idle", "idle", "sub", "direct", "address"])})
        destroy = st.fixed_dictionaries({"op": st.just("destroy"), "x": x, "force": st.booleans()})
        fail = st.fixed_dictionaries({"op": st.just("fail"), "x": x})
        look = st.fixed_dictionaries({"op": st.just("look"), "x": x})
        labels = st.tuples(st.sampled_from(["m", "a", None]), st.lists(st.sampled_from(["a", "b", None]), max_size=2)).map(lambda t: [t[0]] + t[1])
        return st.fixed_dictionaries({"labels": labels, "ops": st.lists(weighted((4, append), (3, remove), (4, create), (1, destroy), (1, fail), (1, look)), min_size=1, max_size=most)})
    return strat


# ------------------------------------------------------------------ layouts
def layouts_run(c):
    """The configuration describes what was asked for."""
    async def go():
        n = c["n"]
        kw = {}
        if c["labels"] is not None:
            kw["labels"] = c["labels"][:n + 1]
        if c["envs"]:
            kw["envs"] = [{f"VF_E{i}": str(i)} for i in range(n)]
        if c["ports"]:
            kw["ports"] = [free_port() for _ in range(n + 1)]
            if len(set(kw["ports"])) != n + 1:
                return False
        if c["internal"] is not None:
            kw["enable_internal_addresses"] = c["internal"][:n + 1]
        for x in ("modules", "suspend_sigint", "logging_conf"):
            if c[x] is not None:
                kw[x] = c[x]
        bad = c["bad"]
        if bad == "labels":
            kw["labels"] = ["x"] * (n + 2)
        elif bad == "envs":
            kw["envs"] = [{}] * (n + 1)
        elif bad == "internal":
            kw["enable_internal_addresses"] = [True] * (n + 2)
        elif bad == "ports":
            kw["ports"] = [0] * (n + 3)
        elif bad == "recover":
            kw["auto_recover"] = "nope"
        elif c["recover"] is not None:
            kw["auto_recover"] = c["recover"]
        try:
            cl = await Cluster(n, **kw).__aenter__()
        except ValueError as e:
            if not bad:
                raise Violation(f"{kw} was refused: {e!r}") from None
            return True
        try:
            if bad:
                raise Violation(f"{kw} was accepted")
            conf = await bounded(mo.get_pool_config(cl.main), 20, "configuration")
            idx = conf.get_process_indexes()
            if len(idx) != n + 1 or len(set(idx)) != n + 1 or conf.n_pool != n + 1:
                raise Violation(f"{n + 1} pools with indexes {idx}")
            addrs = conf.get_external_addresses()
            if len(set(addrs)) != n + 1 or addrs[0] != cl.pool.external_address:
                raise Violation(f"addresses {addrs}")
            internal = []
            for k, i in enumerate(idx):
                d = conf.get_pool_config(i)
                want = {"label": kw["labels"][k] if "labels" in kw else None, "env": kw["envs"][k - 1] if "envs" in kw and k else None, "modules": c["modules"], "logging_conf": c["logging_conf"], "suspend_sigint": c["suspend_sigint"], "use_uvloop": False}
                got = {x: d[x] for x in want}
                if got != want:
                    raise Violation(f"pool {k} is described as {got}, asked for was {want}")
                if d["external_address"][0] != addrs[k] or conf.external_to_internal_address_map[addrs[k]] != d["internal_address"] or conf.get_process_index(addrs[k]) != i:
                    raise Violation(f"pool {k} at {addrs[k]} is described as {d}")
                if "ports" in kw and not addrs[k].endswith(f":{kw['ports'][k]}"):
                    raise Violation(f"pool {k} got {addrs[k]}, asked for was {kw['ports'][k]}")
                on = kw.get("enable_internal_addresses", [True] * (n + 1))[k]
                if (d["internal_address"] is not None) != on:
                    raise Violation(f"internal address of pool {k} is {d['internal_address']}, asked for was {on}")
                internal.append(d["internal_address"])
                ref = await bounded(mo.create_actor(Worker, k, uid=f"w{k}", address=addrs[k]), 20, "create")
                if list(await bounded(ref.who(), 20, "call")) != [k, addrs[k]]:
                    raise Violation(f"pool {k}: {await ref.who()}")
                at = await bounded(mo.get_pool_config(addrs[k]), 20, "configuration")
                if at.get_external_addresses() != addrs or at.get_process_indexes() != idx:
                    raise Violation(f"pool {k} knows {at.get_external_addresses()}, the main pool {addrs}")
            known = [x for x in internal if x is not None]
            if len(set(known)) != len(known):
                raise Violation(f"internal addresses {internal}")
        finally:
            await cl.__aexit__()
        return n > 0

    return {"nontrivial": run_async(go, limit=60), "labels": [str(c["bad"])]}


def layouts_strat():
    return st.fixed_dictionaries({"n": st.integers(0, 4), "labels": st.one_of(st.none(), st.lists(st.sampled_from(["a", "b", None]), min_size=5, max_size=5)), "envs": st.booleans(), "ports": st.booleans(),
                                  "internal": st.one_of(st.none(), st.lists(st.sampled_from([True, True, False]), min_size=5, max_size=5)), "modules": st.sampled_from([None, ["os"], []]), "suspend_sigint": st.sampled_from([None, True, False]),
                                  "logging_conf": st.sampled_from([None, {"level": "ERROR"}]), "recover": st.sampled_from([None, True, False, "actor", "process"]),
                                  "bad": weighted((5, st.none()), (1, st.sampled_from(["labels", "envs", "internal", "ports", "recover"])))})


SEARCHES = [
    Search("tables", tables_strat, tables_run, quick=2500, thorough=60000, shards=1),
    Search("layouts", layouts_strat, layouts_run, quick=400, thorough=20000, shards=1),
    Search("in_process", hist_strat(14), in_process_run, quick=400, thorough=30000, shards=2, case_limit=150),
    Search("processes", hist_strat(7), processes_run, quick=40, thorough=1200, shards=4, case_limit=330, weight=3, env=lean_env()),
]
