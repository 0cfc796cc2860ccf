"""C20: messages reach the pool they are addressed to, through any proxies."""
import asyncio
import gc
import itertools
import json
import os
import signal
import socket
import subprocess
import sys

from hypothesis import strategies as st

import xoscar as mo
from vf.actors import NoMapRouter
from vf.core import TSCALE, HarnessError, Search, Skip, Violation, run_async, weighted
from xoscar.backends.router import Router
from xoscar.core import ActorRef
from xoscar.debug import DebugOptions, set_debug_options

RULE = ("rules: generated rule tables (exact, host, wildcard, cyclic, with schemes and v6 hosts) and addresses; tables: generated additions, removals and mapping changes of routers; "
        "routes: generated topologies of 2-4 clusters with generated rules at every cluster and the client, some clusters not running, generated operations at generated addresses, "
        "predicted hop by hop by a model; alias: pools listening on all interfaces, addressed by several ips; real: clusters of processes behind gateways, actors of any of them operate "
        "on actors of any other. Non-trivial = a rule applies, or an operation takes at least one hop")
ASSUMPTIONS = ["a route that comes back to a pool it passed is a misconfiguration, not a route", "rules do not change while connections made by them are open",
               "routers of different pools have no address in common", "an address that is not configured (a host name of the same machine) must be answered, not necessarily served"]
TECHNIQUE = "property-based testing: next-hop model over generated topologies, stopped clusters tell which hops are taken"
COUNT = itertools.count(1)
gc.freeze()


class Clock:
    """Interrupts code that never yields (by processor time: imports from a cold disk take long)."""

    def __init__(self, what, seconds=3.0):
        self.what, self.seconds = what, seconds

    def __enter__(self):
        def boom(*_):
            raise Violation(f"{self.what} does not end")
        self.old = signal.signal(signal.SIGPROF, boom)
        signal.setitimer(signal.ITIMER_PROF, self.seconds * TSCALE)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)


# ------------------------------------------------------------------ the model
def host_of(addr):
    return addr.split("://", 1)[-1].rsplit(":", 1)[0]


def m_proxy(rules, addr):
    for key in (addr, host_of(addr), "*"):
        p = rules.get(key)
        if p and p != addr:
            return p
    return None


def m_proxies(rules, addr):
    out = []
    while True:
        p = m_proxy(rules, addr)
        if not p or p in out:
            return out or None
        out.append(p)
        addr = p


# ------------------------------------------------------------------ rule tables
HOSTS = ["10.0.0.1", "10.0.0.2", "10.0.0.3", "2001:db8::1", "::1", "h"]


def rules_run(c):
    def addr(a):
        return ("ucx://" if a[2] else "") + f"{HOSTS[a[0]]}:{1000 + a[1]}"

    rules = {}
    for kind, key, value in c["rules"]:
        rules[{"exact": addr(key), "host": HOSTS[key[0]], "*": "*"}[kind]] = addr(value)
    router = Router([addr(a) for a in c["own"]], None, proxy_config=dict(rules))
    hits = 0
    for a in c["asked"]:
        a = addr(a)
        with Clock(f"the search for the proxies of {a} by {rules}"):
            one, many = router.get_proxy(a), router.get_proxies(a)
        if one != m_proxy(rules, a):
            raise Violation(f"the proxy of {a} by {rules} is {one}, must be {m_proxy(rules, a)}")
        if many != m_proxies(rules, a):
            raise Violation(f"the proxies of {a} by {rules} are {many}, must be {m_proxies(rules, a)}")
        hits += one is not None
    return {"nontrivial": hits > 0, "labels": ["some" if hits else "none"]}


def rules_strat():
    a = st.tuples(st.integers(0, len(HOSTS) - 1), st.integers(0, 2), weighted((5, st.just(False)), (1, st.just(True))))
    rule = st.tuples(st.sampled_from(["exact", "exact", "host", "host", "*"]), a, a)
    return st.fixed_dictionaries({"rules": st.lists(rule, max_size=7), "own": st.lists(a, max_size=2), "asked": st.lists(a, min_size=1, max_size=5)})


# ------------------------------------------------------------------ tables of addresses
def tables_run(c):
    def build(k, spec):
        own = [f"10.0.{k}.1:{p}" for p in range(spec["own"])]
        mapping = {f"10.0.{k}.1:{p}": f"unixsocket:///{k}{p}" for p in range(spec["mapped"])}
        proxies = {f"10.{k}.{p}.9" if h else f"10.{k}.{p}.9:1": f"10.0.{k}.1:0" for p, h in enumerate(spec["rules"])}
        return own, mapping, proxies

    specs = [build(k, s) for k, s in enumerate(c["routers"])]
    routers = [Router(list(own), f"dummy://{k}", dict(mapping), proxy_config=dict(pr)) for k, (own, mapping, pr) in enumerate(specs)]
    glob = Router([], None)
    order, content = [], {}

    def check():
        asked = {a for k, (own, m, p) in enumerate(specs) for a in list(own) + list(m)} | {f"10.0.{k}.1:{7}" for k in range(len(specs))}
        for a in asked | {m for k in order for m in content[k][1]}:
            want = None
            for k in order:
                own, mapping, _ = content[k]
                if a in own:
                    want = f"dummy://{k}"
                elif a in mapping and want is None:
                    want = mapping[a]
            got = glob.get_internal_address(a)
            if got != want:
                raise Violation(f"the internal address of {a} is {got}, must be {want} (routers merged in this order: {order})")
        ext = [a for k in order for a in content[k][0]]
        if glob.external_address != (ext[0] if ext else None):
            raise Violation(f"the router's own address is {glob.external_address}, must be {ext[:1]}")
        rules = {}
        for k in order:
            rules.update(content[k][2])
        for k, (_, _, p) in enumerate(specs):
            for key in p:
                a = key if ":" in key else key + ":5"
                if glob.get_proxy(a) != m_proxy(rules, a):
                    raise Violation(f"the proxy of {a} is {glob.get_proxy(a)}, must be {m_proxy(rules, a)} (routers merged: {order})")

    for op, k, arg in c["ops"]:
        k %= len(routers)
        if op == "add" and k not in order:
            glob.add_router(routers[k])
            order.append(k)
            content[k] = (list(specs[k][0]), dict(specs[k][1]), dict(specs[k][2]))
        elif op == "remove":
            glob.remove_router(routers[k])
            if k in order:
                order.remove(k)
        elif op == "map":
            # a pool's addresses changed: its router leaves, changes and comes back, as pools do
            was = k in order
            glob.remove_router(routers[k])
            new = {f"10.0.{k}.1:{p}": f"unixsocket:///{k}{p}{arg}" for p in range(arg, arg + 3)}
            routers[k].set_mapping(dict(new))
            specs[k] = (specs[k][0], new, specs[k][2])
            if was:
                order.remove(k)
                glob.add_router(routers[k])
                order.append(k)
                content[k] = (list(specs[k][0]), dict(new), dict(specs[k][2]))
        check()
    return {"nontrivial": len(order) > 0 or len(c["ops"]) > 2}


def tables_strat():
    r = st.fixed_dictionaries({"own": st.integers(0, 2), "mapped": st.integers(0, 3), "rules": st.lists(st.booleans(), max_size=2)})
    op = st.tuples(weighted((4, st.just("add")), (3, st.just("remove")), (2, st.just("map"))), st.integers(0, 3), st.integers(0, 3))
    return st.fixed_dictionaries({"routers": st.lists(r, min_size=1, max_size=4), "ops": st.lists(op, min_size=1, max_size=10)})


# ------------------------------------------------------------------ routes
LOG = []


class Target(mo.Actor):
    def __init__(self, tag):
        self.tag = tag
        self.started = 0

    async def hit(self, n):
        LOG.append((self.address, self.uid, n))
        return self.address, self.tag, n

    async def fail(self, n):
        LOG.append((self.address, self.uid, n))
        raise KeyError(n)

    async def long(self, n):
        LOG.append((self.address, self.uid, n))
        try:
            await asyncio.sleep(1000)
        except asyncio.CancelledError:
            LOG.append((self.address, self.uid, "cancelled", n))
            raise


def route(nodes, client, dest, proxies):
    """The pools a message passes, the last one is the destination; None for a misconfigured route."""
    if proxies:
        x = m_proxy(client, proxies[-1]) or proxies[-1]
    else:
        x = m_proxy(client, dest) or dest
    path = [x]
    while x != dest:
        node = next((n for n in nodes if x in n["addresses"]), None)
        if node is None:
            return path
        nxt = dest
        if dest not in node["addresses"]:
            p = m_proxy(node["rules"], dest)
            if p and p != x:
                nxt = p
        if nxt in path:
            return None
        path.append(nxt)
        x = nxt
    return path


PORTS = itertools.count(21000)


def routes_run(c):
    hops = [0]
    labels = set()

    async def go():
        base = f"127.{20 + os.getpid() % 200}.{os.getpid() // 200 % 250}"
        nodes = []
        for i, n in enumerate(c["nodes"]):
            ports = [next(PORTS) for _ in range(n["subs"] + 1)]
            nodes.append({"addresses": [f"{base}.{10 + i}:{p}" for p in ports], "host": f"{base}.{10 + i}", "up": n["up"], "ports": ports})
        if next(PORTS) > 60000:
            raise HarnessError("out of ports")

        def at(k, w):
            n = nodes[k % len(nodes)]
            return n["addresses"][w % len(n["addresses"])]

        def table(rules, no_star_self=None):
            out = {}
            for kind, (k, w), (vk, vw) in rules:
                key = {"exact": at(k, w), "host": nodes[k % len(nodes)]["host"], "*": "*"}[kind]
                out[key] = at(vk, vw)
            return out

        for n, spec in zip(nodes, c["nodes"]):
            n["rules"] = table(spec["rules"])
        client = table(c["client"])
        Router.set_instance(None)
        Router.set_instance(NoMapRouter([], None, proxy_config=client))
        set_debug_options(DebugOptions(log_cycle_send=True))
        pools = []
        LOG.clear()
        try:
            for n in nodes:
                if n["up"]:
                    with Clock("the start of a pool"):
                        pools.append(await mo.create_actor_pool("test://" + n["addresses"][0], n_process=len(n["ports"]) - 1, ports=n["ports"][1:] or None,
                                                                proxy_conf=dict(n["rules"]), use_uvloop=False))
                    if list(pools[-1]._config.get_external_addresses()) != n["addresses"]:
                        raise HarnessError("unexpected addresses")
            alive = {a for n in nodes if n["up"] for a in n["addresses"]}

            def expected(dest, proxies):
                p = route(nodes, client, dest, proxies)
                if p is None:
                    labels.add("misconfigured")
                    return None, None
                hops[0] += len(p) - 1
                return all(x in alive for x in p), p

            async def do(coro_fn, what, ok, path):
                try:
                    with Clock(what):
                        got = await asyncio.wait_for(coro_fn(), 15 * TSCALE)
                except asyncio.TimeoutError:
                    raise Violation(f"{what} is not answered (route {path}, client {client}, rules {[n['rules'] for n in nodes]})") from None
                except Violation:
                    raise
                except BaseException as e:
                    if ok:
                        raise Violation(f"{what} failed with {type(e).__name__}: {str(e)[:200]}, the route {path} is up; client {client}, rules {[n['rules'] for n in nodes]}") from None
                    return None
                if not ok:
                    raise Violation(f"{what} worked although its route {path} is down (up are {sorted(alive)}), client {client}, rules {[n['rules'] for n in nodes]}")
                return got

            refs = []
            for k, op in enumerate(c["ops"]):
                kind, target, via = op
                if kind == "create":
                    dest = at(*target)
                    ok, path = expected(dest, None)
                    if ok is None:
                        continue
                    uid = f"a{k}" if via else None
                    ref = await do(lambda: mo.create_actor(Target, k, uid=uid, address=dest), f"creation at {dest}", ok, path)
                    if ref is None:
                        continue
                    rules = next(n["rules"] for n in nodes if dest in n["addresses"])
                    if ref.address != dest or (uid and ref.uid != uid.encode()):
                        raise Violation(f"creation at {dest} gave {ref}")
                    if (ref.proxy_addresses or None) != m_proxies(rules, dest):
                        raise Violation(f"the proxies of {ref} are {ref.proxy_addresses}, must be {m_proxies(rules, dest)}")
                    refs.append([ref, k, True])
                    continue
                if kind == "config":
                    dest = at(*target)
                    ok, path = expected(dest, None)
                    if ok is None:
                        continue
                    got = await do(lambda: mo.get_pool_config(dest), f"configuration of {dest}", ok, path)
                    if got is not None and list(got.get_external_addresses()) != next(n["addresses"] for n in nodes if dest in n["addresses"]):
                        raise Violation(f"the configuration of {dest} lists {got.get_external_addresses()}")
                    continue
                if not refs:
                    continue
                entry = refs[target[0] % len(refs)]
                ref, tag, live = entry
                if via == 1:
                    ref = ActorRef(ref.address, ref.uid)
                elif via == 2:
                    ref = ActorRef(ref.address, ref.uid, proxy_addresses=[at(*target)])
                dest, proxies = ref.address, ref.proxy_addresses
                ok, path = expected(dest, proxies)
                if ok is None:
                    continue
                LOG.clear()
                if kind in ("call", "fail", "tell") and live:
                    what = f"{kind} of {ref}"
                    if kind == "call":
                        got = await do(lambda: ref.hit(k), what, ok, path)
                        if got is not None and got != (dest, tag, k):
                            raise Violation(f"{what} was answered by {got}")
                    elif kind == "fail":
                        async def failing():
                            try:
                                await ref.fail(k)
                            except KeyError as e:
                                return e
                        await do(failing, what, ok, path)
                    else:
                        # the result future of tell
                        await do(lambda: ref.hit.tell(k), what, ok, path)
                        for _ in range(200):
                            if LOG or not ok:
                                break
                            await asyncio.sleep(0.002)
                    want = [(dest, ref.uid, k)] if ok else []
                    if LOG != want:
                        raise Violation(f"{what} ran {LOG}, must run {want} (route {path})")
                elif kind == "cancel" and live:
                    task = asyncio.ensure_future(ref.long(k))
                    if not ok:
                        await do(lambda: task, f"call of {ref}", ok, path)
                        continue
                    for _ in range(2000):
                        if LOG or task.done():
                            break
                        await asyncio.sleep(0.001)
                    task.cancel()
                    done, _ = await asyncio.wait([task], timeout=10 * TSCALE)
                    if not done or not task.cancelled():
                        raise Violation(f"a cancelled call of {ref} {'is not answered' if not done else f'ended with {task!r}'} (route {path})")
                    if LOG != [(dest, ref.uid, k), (dest, ref.uid, "cancelled", k)]:
                        raise Violation(f"a cancelled call of {ref} did {LOG} (route {path})")
                elif kind == "has":
                    got = await do(lambda: mo.has_actor(ref), f"look-up of {ref}", ok, path)
                    if got is not None and got is not live:
                        raise Violation(f"has_actor({ref}) is {got}, must be {live}")
                elif kind == "ref":
                    if not live:
                        continue
                    got = await do(lambda: mo.actor_ref(ref), f"look-up of {ref}", ok, path)
                    if got is not None:
                        rules = next(n["rules"] for n in nodes if dest in n["addresses"])
                        if (got.address, got.uid) != (dest, ref.uid) or (got.proxy_addresses or None) != m_proxies(rules, dest):
                            raise Violation(f"actor_ref({ref}) is {got} with proxies {got.proxy_addresses}, must have {m_proxies(rules, dest)}")
                elif kind == "destroy":
                    if not live:
                        continue
                    got = await do(lambda: mo.destroy_actor(ref), f"destruction of {ref}", ok, path)
                    if got is not None:
                        entry[2] = False
        finally:
            set_debug_options(None)
            for p in pools:
                await p.stop()
            Router.set_instance(None)

    run_async(go, limit=60)
    return {"nontrivial": hops[0] > 0, "labels": sorted(labels | {"hops" if hops[0] else "direct"})}


def routes_strat():
    a = st.tuples(st.integers(0, 3), st.integers(0, 2))
    gate = weighted((3, st.tuples(st.integers(0, 3), st.just(0))), (1, a))
    rule = st.tuples(weighted((3, st.just("exact")), (4, st.just("host")), (1, st.just("*"))), a, gate)
    node = st.fixed_dictionaries({"subs": st.integers(0, 2), "up": weighted((6, st.just(True)), (1, st.just(False))), "rules": st.lists(rule, max_size=4)})
    op = st.tuples(weighted((4, st.just("create")), (5, st.just("call")), (1, st.just("fail")), (1, st.just("tell")), (2, st.just("cancel")), (2, st.just("has")), (3, st.just("ref")), (2, st.just("destroy")), (2, st.just("config"))),
                   a, st.integers(0, 2))
    return st.fixed_dictionaries({"nodes": st.lists(node, min_size=2, max_size=4), "client": st.lists(rule, max_size=4), "ops": st.lists(op, min_size=2, max_size=10)})


# ------------------------------------------------------------------ several ips of one pool
def alias_run(c):
    used = [0]

    async def go():
        Router.set_instance(None)
        pool = await mo.create_actor_pool("test://0.0.0.0", n_process=c["subs"], use_uvloop=False)
        addresses = list(pool._config.get_external_addresses())
        inner = Router.get_instance()
        if c["outside"]:
            Router.set_instance(NoMapRouter([], None))
        set_debug_options(DebugOptions(log_cycle_send=True))
        refs = []
        try:
            async def do(coro_fn, what):
                try:
                    return await asyncio.wait_for(coro_fn(), 10 * TSCALE)
                except asyncio.TimeoutError:
                    raise Violation(f"{what} is not answered") from None

            for k, (kind, host, w, sub) in enumerate(c["ops"]):
                own = addresses[w % len(addresses)]
                port = own.rsplit(":", 1)[1]
                addr = f"{host}:{port}"
                used[0] += host != "0.0.0.0"
                if kind == "create":
                    kw = {}
                    where = [own]
                    if sub and c["subs"] and w % len(addresses) == 0:
                        kw["allocate_strategy"] = mo.allocate_strategy.RandomSubPool()
                        where = addresses[1:]
                    what = f"creation at {addr} ({sorted(kw)}) of a pool listening on all interfaces"
                    try:
                        ref = await do(lambda: mo.create_actor(Target, k, uid=f"u{k}", address=addr, **kw), what)
                    except Violation:
                        raise
                    except Exception as e:
                        raise Violation(f"{what} failed with {type(e).__name__}: {str(e)[:100]}") from None
                    if ref.address not in [f"{host}:{a.rsplit(':', 1)[1]}" for a in where]:
                        raise Violation(f"{what} gave {ref}, which is not at {host}")
                    refs.append((ref, k, ref.address.rsplit(":", 1)[1], True))
                elif kind == "config":
                    got = await do(lambda: mo.get_pool_config(addr), f"configuration of {addr}")
                    if list(got.get_external_addresses()) != addresses:
                        raise Violation(f"the configuration at {addr} lists {got.get_external_addresses()}, the pools are {addresses}")
                elif refs:
                    ref, tag, port, _ = refs[w % len(refs)]
                    addr = f"{host}:{port}"
                    what = f"{kind} of {ref.uid!r} at {addr}"
                    if kind == "call":
                        LOG.clear()
                        got = await do(lambda: ActorRef(addr, ref.uid).hit(k), what)
                        if got[1:] != (tag, k) or got[0].rsplit(":", 1)[1] != port or len(LOG) != 1:
                            raise Violation(f"{what} was answered {got}, ran {LOG}")
                    elif kind == "ref":
                        got = await do(lambda: mo.actor_ref(addr, ref.uid), what)
                        if got.address != addr or got.uid != ref.uid:
                            raise Violation(f"{what} gave {got}")
                    elif kind == "mainref":
                        main = f"{host}:{addresses[0].rsplit(':', 1)[1]}"
                        got = await do(lambda: mo.actor_ref(main, ref.uid), f"look-up of {ref.uid!r} at {main}")
                        if got.address != addr:
                            raise Violation(f"look-up of {ref.uid!r} at {main} gave {got}, it lives at {addr}")
                    elif kind == "has":
                        if await do(lambda: mo.has_actor(ActorRef(addr, ref.uid)), what) is not True:
                            raise Violation(f"{what} does not find the actor")
        finally:
            set_debug_options(None)
            Router.set_instance(inner)
            await pool.stop()
            Router.set_instance(None)

    run_async(go, limit=60)
    return {"nontrivial": used[0] > 0}


def alias_strat():
    host = st.sampled_from(["0.0.0.0", "127.0.0.1", "127.0.0.1", "127.0.0.7", "localhost"])
    op = st.tuples(weighted((3, st.just("create")), (1, st.just("config")), (3, st.just("call")), (2, st.just("ref")), (1, st.just("mainref")), (1, st.just("has"))), host, st.integers(0, 5), st.booleans())
    return st.fixed_dictionaries({"subs": st.integers(0, 2), "outside": st.just(True), "ops": st.lists(op, min_size=1, max_size=8)})


# ------------------------------------------------------------------ an address that is not configured
def unknown_run(c):
    async def go():
        Router.set_instance(None)
        pool = await mo.create_actor_pool("test://127.0.0.1", n_process=c["subs"], use_uvloop=False)
        addresses = list(pool._config.get_external_addresses())
        inner = Router.get_instance()
        Router.set_instance(NoMapRouter([], None))
        try:
            ref = await mo.create_actor(Target, 1, uid="x", address=addresses[c["at"] % len(addresses)])
            for kind, w in c["ops"]:
                addr = "localhost:" + addresses[w % len(addresses)].rsplit(":", 1)[1]

                async def ask():
                    if kind == "config":
                        return list((await mo.get_pool_config(addr)).get_external_addresses()) == addresses
                    if kind == "recovered":
                        await mo.wait_actor_pool_recovered(addr)
                        return True
                    if kind == "call":
                        return await ActorRef("localhost:" + ref.address.rsplit(":", 1)[1], "x").hit(1)
                    if kind == "create":
                        return await mo.create_actor(Target, 2, address=addr)
                    if kind == "has":
                        await mo.has_actor(ActorRef(addr, "x"))
                        return True
                try:
                    got = await asyncio.wait_for(ask(), 10 * TSCALE)
                except asyncio.TimeoutError:
                    raise Violation(f"{kind} at {addr} is not answered") from None
                except Exception as e:
                    if kind in ("config", "call"):
                        raise Violation(f"{kind} at {addr} failed with {type(e).__name__}: {str(e)[:100]}") from None
                    continue
                if not got:
                    raise Violation(f"{kind} at {addr} gave {got}")
        finally:
            Router.set_instance(inner)
            await pool.stop()
            Router.set_instance(None)

    run_async(go, limit=60)


def unknown_strat():
    return st.fixed_dictionaries({"subs": st.integers(0, 2), "at": st.integers(0, 2), "ops": st.lists(st.tuples(st.sampled_from(["config", "call", "create", "has"]), st.integers(0, 2)), min_size=1, max_size=4)})


# ------------------------------------------------------------------ clusters of processes
class Far(mo.StatelessActor):
    def __init__(self):
        self.n = 0
        self.cancelled = 0
        self.started = 0

    def where(self):
        return self.address, os.getpid()

    async def add(self, k):
        self.n += k
        return self.n

    async def long(self):
        self.started += 1
        try:
            await asyncio.sleep(1000)
        except asyncio.CancelledError:
            self.cancelled += 1
            raise

    def fail(self, x):
        raise KeyError(x)

    def own(self):
        return self.ref()

    def state(self):
        return self.n, self.started, self.cancelled

    async def operate(self, kind, ref, arg):
        """Operates on another actor from here."""
        return await operate(kind, ref, arg)


async def operate(kind, ref, arg):
    if kind == "create":
        cls, address, uid = arg
        return await mo.create_actor(Far, address=address, uid=uid)
    if kind == "call":
        return await ref.add(arg)
    if kind == "tell":
        await ref.add.tell(arg)
        return None
    if kind == "where":
        return await ref.where()
    if kind == "fail":
        try:
            await ref.fail(arg)
        except KeyError as e:
            return e.args[0]
    if kind == "cancel":
        task = asyncio.ensure_future(ref.long())
        for _ in range(4000):
            if (await ref.state())[1] > arg:
                break
            await asyncio.sleep(0.005)
        task.cancel()
        done, _ = await asyncio.wait([task], timeout=20)
        return bool(done) and task.cancelled()
    if kind == "ref":
        got = await mo.actor_ref(ref)
        return got, await got.where()
    if kind == "lookup":
        got = await mo.actor_ref(ref.address, ref.uid)
        return got, await got.where()
    if kind == "has":
        return await mo.has_actor(ref)
    if kind == "own":
        got = await ref.own()
        return got, await got.where()
    if kind == "destroy":
        await mo.destroy_actor(ref)
    if kind == "config":
        return list((await mo.get_pool_config(arg)).get_external_addresses())


TOPOLOGIES = [
    # two clusters behind one gateway
    lambda a: [{"127.0.0.1": a[0], a[2]: a[1]}, {"127.0.0.1": a[1]}, {"127.0.0.1": a[2], a[0]: a[1]}],
    # two gateways, each the proxy of the other's network
    lambda a: [{}, {a[0]: a[0]}, {"*": a[0]}],
    # every message of the last cluster goes through the first one, and the first one's through the second
    lambda a: [{a[2]: a[1]}, {}, {a[0]: a[1], a[1]: a[1]}],
]
R = {}


def real_setup():
    R["loop"] = asyncio.new_event_loop()
    asyncio.set_event_loop(R["loop"])
    R["n"] = 0
    R["running"] = {}
    Router.set_instance(Router([], None))


def start(which):
    for attempt in range(3):
        socks = [socket.socket() for _ in range(3)]
        for s in socks:
            s.bind(("127.0.0.1", 0))
        addrs = [f"127.0.0.1:{s.getsockname()[1]}" for s in socks]
        for s in socks:
            s.close()
        rules = TOPOLOGIES[which](addrs)
        procs = [subprocess.Popen([sys.executable, "-m", "vf.node", json.dumps({"address": a, "n_process": 1, "kw": {"proxy_conf": r}})],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env={**os.environ, "PYTHONPATH": os.pathsep.join(sys.path)})
                 for a, r in zip(addrs, rules)]
        R["running"][which] = topo = {"procs": procs, "rules": rules, "nodes": []}
        for p in procs:
            line = p.stdout.readline()
            if line:
                topo["nodes"].append(json.loads(line)["addresses"])
        if len(topo["nodes"]) == 3:
            return topo
        real_teardown()
    raise HarnessError("the clusters do not start")


def real_teardown():
    procs = [p for t in R.get("running", {}).values() for p in t["procs"]]
    for p in procs:
        p.stdin.close()
    for p in procs:
        try:
            p.wait(25)
        except subprocess.TimeoutExpired:
            p.kill()
    R["running"] = {}


def real_run(c):
    R["n"] += 1
    tag = f"{os.getpid()}.{R['n']}"
    topo = R["running"].get(c["topology"]) or start(c["topology"])
    nodes = topo["nodes"]
    hops = [0]

    async def go():
        actors = []
        try:
            for k, (n, w) in enumerate(c["actors"]):
                ref = await mo.create_actor(Far, address=nodes[n][w], uid=f"{tag}.{k}")
                want = m_proxies(topo["rules"][n], nodes[n][w])
                if ref.address != nodes[n][w] or (ref.proxy_addresses or None) != want:
                    raise Violation(f"creation at {nodes[n][w]} gave {ref} with proxies {ref.proxy_addresses}, must have {want}")
                actors.append({"ref": ref, "n": 0, "cancelled": 0, "home": nodes[n][w], "rules": topo["rules"][n], "live": True})
            extra = 0
            for kind, frm, to, arg in c["ops"]:
                t = actors[to % len(actors)]
                f = None if frm is None else actors[frm % len(actors)]
                if f is t or (f and not f["live"]):
                    f = None
                hops[0] += f is not None
                x = arg
                if not t["live"] and kind not in ("has", "config", "create"):
                    continue
                if kind == "cancel":
                    x = t.get("started", 0)
                elif kind == "config":
                    x = t["home"]
                elif kind == "create":
                    x = ("Far", t["home"], f"{tag}.x{extra}")
                    extra += 1
                what = f"{kind} of {t['ref']} by {f['ref'] if f else 'the client'}"
                try:
                    got = await asyncio.wait_for(f["ref"].operate(kind, t["ref"], x) if f else operate(kind, t["ref"], x), 25 * TSCALE)
                except asyncio.TimeoutError:
                    raise Violation(f"{what} is not answered") from None
                except Violation:
                    raise
                except Exception as e:
                    raise Violation(f"{what} failed with {type(e).__name__}: {str(e)[:300]}") from None
                if kind == "call":
                    t["n"] += x
                    want = t["n"]
                elif kind == "tell":
                    t["n"] += x
                    want = None
                    for _ in range(400):
                        if (await t["ref"].state())[0] == t["n"]:
                            break
                        await asyncio.sleep(0.005)
                elif kind == "fail":
                    want = x
                elif kind == "cancel":
                    want = True
                    t["cancelled"] += 1
                    t["started"] = t.get("started", 0) + 1
                elif kind == "has":
                    want = t["live"]
                elif kind == "where":
                    want, got = t["home"], got[0]
                elif kind in ("ref", "lookup", "own"):
                    ref, (home, _) = got
                    if ref != t["ref"] or (ref.proxy_addresses or None) != m_proxies(t["rules"], t["home"]):
                        raise Violation(f"{what} gave {ref} with proxies {ref.proxy_addresses}")
                    want, got = t["home"], home
                elif kind == "config":
                    want = next(n for n in nodes if t["home"] in n)
                elif kind == "create":
                    if got.address != t["home"] or got.uid != x[2].encode():
                        raise Violation(f"{what} gave {got}")
                    actors.append({"ref": got, "n": 0, "cancelled": 0, "home": t["home"], "rules": t["rules"], "live": True})
                    continue
                else:
                    t["live"] = False
                    continue
                if got != want:
                    raise Violation(f"{what} gave {got!r}, must be {want!r}")
                if t["live"]:
                    s = await t["ref"].state()
                    if s != (t["n"], t.get("started", 0), t["cancelled"]):
                        raise Violation(f"after {what} the actor's state is {s}, must be {(t['n'], t.get('started', 0), t['cancelled'])}")
        finally:
            for a in actors:
                if a["live"]:
                    try:
                        await mo.destroy_actor(a["ref"])
                    except Exception:
                        pass

    async def main():
        await asyncio.wait_for(go(), 120 * TSCALE)

    R["loop"].run_until_complete(main())
    return {"nontrivial": hops[0] > 0}


def real_strat():
    a = st.tuples(st.integers(0, 2), st.integers(0, 1))
    op = st.tuples(weighted((3, st.just("call")), (1, st.just("tell")), (1, st.just("where")), (1, st.just("fail")), (2, st.just("cancel")), (2, st.just("ref")), (2, st.just("lookup")), (2, st.just("own")), (1, st.just("has")), (1, st.just("destroy")), (1, st.just("config")), (2, st.just("create"))),
                   weighted((1, st.none()), (4, st.integers(0, 4))), st.integers(0, 4), st.integers(1, 9))
    return st.fixed_dictionaries({"topology": st.integers(0, len(TOPOLOGIES) - 1), "actors": st.lists(a, min_size=2, max_size=5), "ops": st.lists(op, min_size=1, max_size=8)})


SEARCHES = [
    Search("rules", rules_strat, rules_run, quick=500, thorough=20000, shards=1),
    Search("tables", tables_strat, tables_run, quick=400, thorough=10000, shards=1),
    Search("routes", routes_strat, routes_run, quick=700, thorough=20000, shards=4, weight=2),
    Search("alias", alias_strat, alias_run, quick=200, thorough=5000, shards=1),
    Search("unknown", unknown_strat, unknown_run, quick=60, thorough=1000, shards=1),
    Search("real", real_strat, real_run, quick=120, thorough=2500, shards=2, setup=real_setup, teardown=real_teardown),
]
