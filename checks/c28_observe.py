"""C28: profiling and debugging observe without changing behaviour."""
import asyncio
import itertools
import logging

from hypothesis import strategies as st

import xoscar as mo
from vf.actors import Cluster, NoMapRouter, spin
from vf.core import Search, Violation, bounded, run_async, weighted
from xoscar.backends.message import SendMessage, TellMessage
from xoscar.backends.router import Router
from xoscar.core import ActorRef
from xoscar.debug import DebugOptions, get_debug_options, set_debug_options
from xoscar.profiling import ProfilingData

RULE = ("programs: 1-6 root calls into a generated call graph of 2-5 actors (await, parallel await, one-way, awaited after a yield, created actors with a hook; failures, waits) "
        "in 2 pools, in process or over TCP, under generated debug options (also timeouts that fire) and with or without profiling: same results as the model, and cycles reported exactly "
        "where a call reaches an actor of its own chain; profile: calls of generated actors (any ids) counted against the profile; "
        "stats: 1-120 calls with generated durations, ids, equal calls and thresholds against sorted lists. Non-trivial = a cycle or a nested call, more than ten calls or methods")
ASSUMPTIONS = ["calls made as messages are profiled and traced (with cycle logging on, every call is one)", "no background task made in a method outlives it",
               "equal calls appear once in the profile with their longest duration", "the profile lists the ten most called methods and the ten slowest calls"]
TECHNIQUE = "property-based testing of generated call graphs against a call-chain model, and of generated call sequences against sorted-list models"

LOGS = []


class Catch(logging.Handler):
    def emit(self, record):
        LOGS.append((record.levelno, record.getMessage()))


def setup():
    logging.disable(logging.NOTSET)
    logging.getLogger().setLevel(logging.CRITICAL)
    for n in ("asyncio", "xoscar"):
        logging.getLogger(n).setLevel(logging.CRITICAL)
    log = logging.getLogger("xoscar.debug")
    log.setLevel(logging.DEBUG)
    log.propagate = False
    log.addHandler(Catch())


# ------------------------------------------------------------------ programs
class Boom(Exception):
    pass


class Node(mo.StatelessActor):
    def __init__(self, i, addresses, uids):
        super().__init__()
        self.i, self.addresses, self.uids, self.n, self.tells = i, addresses, uids, 0, []

    def ref(self, t):
        return ActorRef(self.addresses[t], self.uids[t])

    async def go(self, script):
        self.n += 1
        out = []
        for s in script:
            k = s["k"]
            if k == "call":
                out.append(await self.attempt(s["t"], s["s"]))
            elif k == "par":
                out.append(list(await asyncio.gather(*(self.attempt(x["t"], x["s"]) for x in s["calls"]))))
            elif k == "tell":
                await self.ref(s["t"]).go.tell(s["s"])
                out.append("told")
            elif k == "gen":
                out.append(await self.ref(self.i).gen(s["t"], s["s"]))
            elif k == "wait":
                await asyncio.sleep(0.003)
            elif k == "make":
                r = await mo.create_actor(Hook, self.addresses, self.uids, s["t"], s["s"], address=self.addresses[self.i])
                out.append(await ActorRef(r.address, r.uid).answer())
                await mo.destroy_actor(r)
            elif k == "fail":
                raise Boom(s["v"])
            else:
                out.append(s["v"])
        return out

    async def attempt(self, t, s):
        try:
            return await self.ref(t).go(s)
        except Boom as e:
            return "boom", e.args[0]

    async def gen(self, t, s):
        # the actor does not wait in the method while the call runs: a new chain
        r = yield self.attempt(t, s)
        raise mo.Return([r])

    def count(self):
        return self.n


class Hook(mo.StatelessActor):
    def __init__(self, addresses, uids, t, s):
        super().__init__()
        self.a = addresses, uids, t, s

    async def __post_create__(self):
        addresses, uids, t, s = self.a
        try:
            self.r = await ActorRef(addresses[t], uids[t]).go(s)
        except Boom as e:
            self.r = "boom", e.args[0]

    def answer(self):
        return self.r


class Model:
    def __init__(self, n, uids):
        self.counts, self.uids, self.cycles, self.calls, self.nested = [0] * n, uids, [], 0, 0

    def call(self, chain, t, s, method="go"):
        """a message to actor t from a method running in chain"""
        if t in chain:
            self.cycles.append((t, list(chain)))
        self.nested = max(self.nested, len(chain) + 1)
        self.calls += 1
        return self.go(chain + [t], t, s)

    def attempt(self, chain, t, s):
        try:
            return self.call(chain, t, s)
        except Boom as e:
            return "boom", e.args[0]

    def go(self, chain, i, script):
        self.counts[i] += 1
        out = []
        for s in script:
            k = s["k"]
            if k == "call":
                out.append(self.attempt(chain, s["t"], s["s"]))
            elif k == "par":
                out.append([self.attempt(chain, x["t"], x["s"]) for x in s["calls"]])
            elif k == "tell":
                # not waited for: the receiver starts a new chain
                try:
                    self.go([s["t"]], s["t"], s["s"])
                except Boom:
                    pass
                out.append("told")
            elif k == "gen":
                self.cycles.append((i, list(chain))) if i in chain else None
                out.append([self.attempt([], s["t"], s["s"])])
            elif k == "make":
                try:
                    r = self.call([], s["t"], s["s"])
                except Boom as e:
                    r = "boom", e.args[0]
                out.append(r)
            elif k == "wait":
                pass
            elif k == "fail":
                raise Boom(s["v"])
            else:
                out.append(s["v"])
        return out


def norm(x):
    return [norm(i) for i in x] if isinstance(x, (list, tuple)) else x


async def programs_case(c):
    n = c["n"]
    LOGS.clear()
    o = c["options"]
    async with Cluster(2, tcp=c["tcp"]) as cl:
        ProfilingData._data.clear()
        if o is not None:
            set_debug_options(DebugOptions(**o))
        if c["profile"]:
            ProfilingData.init("t", {"slow_calls_duration_threshold": 0})
        try:
            uids = [f"node-{i}".encode() for i in range(n)]
            addresses = [cl.addresses[c["where"][i] % 2] for i in range(n)]
            for i in range(n):
                await mo.create_actor(Node, i, addresses, uids, uid=uids[i], address=addresses[i])
            model = Model(n, uids)
            got, want = [], []

            async def root(t, s):
                try:
                    return norm(await bounded(ActorRef(addresses[t], uids[t]).go(s), 30, "a call"))
                except Boom as e:
                    return ["boom", e.args[0]]

            def mroot(t, s):
                try:
                    return norm(model.go([t], t, s))
                except Boom as e:
                    return ["boom", e.args[0]]
            if c["overlap"]:
                got = list(await asyncio.gather(*(root(x["t"], x["s"]) for x in c["roots"])))
                want = [mroot(x["t"], x["s"]) for x in c["roots"]]
            else:
                for x in c["roots"]:
                    got.append(await root(x["t"], x["s"]))
                    want.append(mroot(x["t"], x["s"]))
            if got != want:
                raise Violation(f"results {got}, model {want}; {c}")
            # one-way messages end
            for _ in range(400):
                counts = [await ActorRef(addresses[i], uids[i]).count() for i in range(n)]
                if counts == model.counts:
                    break
                await asyncio.sleep(0.003)
            else:
                raise Violation(f"methods ran {counts} times, model {model.counts}; {c}")
            await spin(10)
            if c["profile"]:
                p = ProfilingData.pop("t")
                if not p["most_calls"]:
                    raise Violation(f"no call in the profile {p}")
        finally:
            set_debug_options(None)
            ProfilingData._data.clear()
            ProfilingData._call_stats.clear()
        texts = [m for lv, m in LOGS if "cycle" in m.lower()]
        cycles = model.cycles if o is not None and o.get("log_cycle_send", True) else []
        # the longest first: a report of a longer chain also names the actors of a shorter one
        left = sorted(texts, key=lambda m: -sum(m.count(str(u)) for u in set(uids)))
        for t, chain in sorted(cycles, key=lambda x: -len(x[1])):
            # the target twice, and every actor of the chain
            for m in left:
                if all(m.count(str(u)) == chain.count(a) or a == t and 1 <= m.count(str(u)) - chain.count(a) <= 2 for a, u in enumerate(uids)) and addresses[t] in m:
                    left.remove(m)
                    break
            else:
                raise Violation(f"no report of the cycle to actor {t} through {chain}: {texts}; {c}")
        if left:
            raise Violation(f"calls reported as cycles: {left}, cycles of the model {cycles}; {c}")
    return {"nontrivial": model.nested >= 2, "labels": [x for x, y in (("cycles", cycles), ("tcp", c["tcp"]), ("profile", c["profile"]), ("off", o is None), ("fired", any("timeout for" in m for _, m in LOGS))) if y]}


def programs_run(c):
    return run_async(programs_case, c, limit=60)


def programs_strat():
    t = st.integers(0, 4)

    def script(inner):
        call = st.fixed_dictionaries({"t": t, "s": inner})
        return st.lists(weighted(
            (5, st.fixed_dictionaries({"k": st.just("call"), "t": t, "s": inner})),
            (2, st.fixed_dictionaries({"k": st.just("par"), "calls": st.lists(call, min_size=1, max_size=3)})),
            (2, st.fixed_dictionaries({"k": st.just("tell"), "t": t, "s": inner})),
            (2, st.fixed_dictionaries({"k": st.just("gen"), "t": t, "s": inner})),
            (1, st.fixed_dictionaries({"k": st.just("make"), "t": t, "s": inner})),
            (1, leaf)), max_size=3)
    leaf = weighted((2, st.fixed_dictionaries({"k": st.just("value"), "v": st.integers(0, 9)})), (1, st.just({"k": "wait"})), (1, st.fixed_dictionaries({"k": st.just("fail"), "v": st.integers(0, 9)})))
    s = st.recursive(st.lists(leaf, max_size=2), script, max_leaves=14)
    secs = st.sampled_from([0, 10, 30, None, 0.001])
    options = st.one_of(st.none(), st.just({}), st.just({}), st.fixed_dictionaries({}, optional={"actor_call_timeout": secs, "process_message_timeout": secs, "actor_lock_timeout": secs, "log_unhandled_errors": st.booleans(), "log_cycle_send": st.sampled_from([True, True, False])}))

    def fix(c):
        def f(s):
            for x in s:
                if "t" in x:
                    x["t"] %= c["n"]
                    f(x["s"])
                for y in x.get("calls", ()):
                    y["t"] %= c["n"]
                    f(y["s"])
        for r in c["roots"]:
            r["t"] %= c["n"]
            f(r["s"])
        return c
    return st.fixed_dictionaries({"n": st.integers(2, 5), "tcp": st.booleans(), "where": st.lists(st.integers(0, 1), min_size=5, max_size=5), "options": options, "profile": st.booleans(), "overlap": st.booleans(),
                                  "roots": st.lists(st.fixed_dictionaries({"t": t, "s": s}), min_size=1, max_size=4)}).map(fix)


# ------------------------------------------------------------------ profile of real calls
class Work(mo.StatelessActor):
    async def a(self, ms=0):
        if ms:
            await asyncio.sleep(ms / 1000)
        return ms

    def b(self, *a):
        return a

    async def c(self):
        raise Boom(1)


UIDS = [b"plain", b"\xff\xfe", "é".encode(), b"a.b", b"\x00" * 32, b"", bytes(range(128, 160)), None]


async def profile_case(c):
    async with Cluster(2, tcp=c["tcp"]) as cl:
        refs = []
        for i, u in enumerate(c["actors"]):
            r = await mo.create_actor(Work, uid=None if UIDS[u] is None else UIDS[u] + b"%d" % i, address=cl.addresses[i % 2])
            refs.append(ActorRef(r.address, r.uid))
        want = {}
        slow = []
        tasks = []
        ProfilingData.init("t", {"slow_calls_duration_threshold": 0})
        if c["two"]:
            ProfilingData.init("u", {"slow_calls_duration_threshold": 0})
        try:
            for n, x in enumerate(c["calls"]):
                r = refs[x["i"] % len(refs)]
                m = x["m"]
                want[(r.uid, m)] = want.get((r.uid, m), 0) + 1
                args = () if m == "c" else (x["ms"],) if m == "a" else (n,)
                if m == "a":
                    slow.append(x["ms"] / 1000)
                if x["tell"] and m != "a":
                    f = await getattr(r, m).tell(*args)
                    if asyncio.isfuture(f):
                        # profiled when it ends
                        await asyncio.wait([f])
                elif x["wait"]:
                    try:
                        await getattr(r, m)(*args)
                    except Boom:
                        pass
                else:
                    tasks.append(asyncio.ensure_future(getattr(r, m)(*args)))
            for t in tasks:
                await asyncio.wait([t])
                t.exception()
            await spin(5)
        finally:
            p = ProfilingData.pop("t")
            q = ProfilingData.pop("u")
        if c["two"] and (q["most_calls"], q["slow_calls"]) != (p["most_calls"], p["slow_calls"]):
            raise Violation(f"two profiles of the same calls differ: {p} {q}")
        check_counts(p["most_calls"], want)
        # the slowest calls lasted at least as long as the method
        slow = sorted(slow, reverse=True)[:10]
        times = sorted(p["slow_calls"].values(), reverse=True)
        if list(p["slow_calls"].values()) != times:
            raise Violation(f"slow calls are not in order: {times}")
        keys = len({(x["i"] % len(refs), x["m"], x["ms"] if x["m"] == "a" else 0 if x["m"] == "c" else n) for n, x in enumerate(c["calls"])})
        if keys == len(c["calls"]):
            for a, b in zip(slow, times):
                if b < a * 0.9:
                    raise Violation(f"the slowest calls lasted {slow} s at least, the profile says {times}; {c}")
    return {"nontrivial": len(c["calls"]) > 10, "labels": [x for x, y in (("tcp", c["tcp"]), ("slow", slow and slow[0] > 0), ("many", len(want) > 10)) if y]}


def check_counts(most, want):
    got = list(most.values())
    w = sorted(want.values(), reverse=True)[:10]
    if got != w:
        raise Violation(f"most called methods {most}, calls {want}")
    names = {}
    for (u, m), k in want.items():
        try:
            names[f"{u.decode()}.{m}"] = k
        except UnicodeDecodeError:
            pass
    for k, v in most.items():
        if k in names and names[k] != v:
            raise Violation(f"{k} was called {names[k]} times, profile {v}")
    known = [k for k in most if k in names]
    odd = len(most) - len(known)
    if odd > len(want) - len(names):
        raise Violation(f"the profile {most} has methods that were not called: {want}")


def profile_run(c):
    return run_async(profile_case, c, limit=60)


def profile_strat():
    call = st.fixed_dictionaries({"i": st.integers(0, 5), "m": st.sampled_from("aabbc"), "ms": st.sampled_from([0, 0, 1, 2, 5, 10, 20, 30]), "tell": weighted((4, st.just(False)), (1, st.just(True))), "wait": st.booleans()})
    return st.fixed_dictionaries({"tcp": st.booleans(), "two": weighted((3, st.just(False)), (1, st.just(True))), "actors": st.lists(st.integers(0, len(UIDS) - 1), min_size=1, max_size=6), "calls": st.lists(call, min_size=1, max_size=30)})


# ------------------------------------------------------------------ statistics
def stats_run(c):
    opts = {"slow_calls_duration_threshold": c["threshold"]} if c["threshold"] is not None else None
    threshold = 1 if c["threshold"] is None else c["threshold"]
    ProfilingData._data.clear()
    ProfilingData._call_stats.clear()
    ProfilingData.init("t", opts)
    want, calls = {}, []
    data = {"general": {}, "serialization": {}}
    try:
        for n, x in enumerate(c["calls"]):
            uid, m = UIDS[x["u"]] or b"id", f"m{x['m']}"
            ref = ActorRef(f"addr{x['u'] % 2}", uid)
            args = [(n,), ({"a": n},), (object,), ()][x["args"]]
            msg = (TellMessage if x["tell"] else SendMessage)(b"%d" % n, ref, (m, 0, args, {"k": n} if x["args"] == 3 and not c["same"] else {}))
            ProfilingData.collect_actor_call(msg, x["d"])
            want[(uid, m)] = want.get((uid, m), 0) + 1
            if x["d"] >= threshold:
                calls.append((x["d"], (ref.address, uid, m, repr(args), n if x["args"] == 3 and not c["same"] else 0), m, n))
            k = x["key"]
            if k["op"] == "inc":
                ProfilingData["t", k["where"]].inc(k["k"], k["v"])
                data[k["where"]][k["k"]] = data[k["where"]].get(k["k"], 0) + k["v"]
            elif k["op"] == "set":
                ProfilingData["t", k["where"]].set(k["k"], k["v"])
                data[k["where"]][k["k"]] = k["v"]
            elif k["op"] == "nest":
                ProfilingData["t", k["where"]].nest("n" + k["k"]).inc("x", k["v"])
                d = data[k["where"]].setdefault("n" + k["k"], {})
                d["x"] = d.get("x", 0) + k["v"]
            elif k["op"] == "other":
                ProfilingData["v", k["where"]].inc(k["k"], k["v"])
                ProfilingData["t", "general", "missing"].set(k["k"], k["v"])
    finally:
        p = ProfilingData.pop("t")
    if ProfilingData.pop("t") is not None:
        raise Violation("a popped profile is still there")
    check_counts(p["most_calls"], want)
    for k in data:
        if p[k] != data[k]:
            raise Violation(f"{k} data {p[k]}, model {data[k]}")
    got = list(p["slow_calls"].values())
    top = sorted((d for d, *_ in calls), reverse=True)[:10]
    if len({k for _, k, *_ in calls}) == len(calls):
        if got != top:
            raise Violation(f"slow calls {got}, the slowest ones {top}; threshold {threshold}, {[d for d, *_ in calls]}")
        for text, d in p["slow_calls"].items():
            if not any(d == x[0] and f".{x[2]}(" in text for x in calls):
                raise Violation(f"{text} did not last {d}")
    elif got != sorted(got, reverse=True) or (got and got[0] != top[0]) or (calls and not got) or any(g not in [d for d, *_ in calls] for g in got):
        raise Violation(f"slow calls {got}, the slowest ones {top}")
    return {"nontrivial": len(c["calls"]) > 10, "labels": [x for x, y in (("slow>10", len(calls) > 10), ("methods>10", len(want) > 10), ("equal calls", len({k for _, k, *_ in calls}) < len(calls))) if y]}


def stats_strat():
    key = st.fixed_dictionaries({"op": st.sampled_from(["no", "no", "inc", "set", "nest", "other"]), "where": st.sampled_from(["general", "serialization"]), "k": st.sampled_from("ab"), "v": st.integers(-3, 9)})
    call = st.fixed_dictionaries({"u": st.integers(0, len(UIDS) - 1), "m": st.integers(0, 3), "d": weighted((3, st.integers(0, 4)), (3, st.floats(0, 100, allow_nan=False)), (1, st.sampled_from([0.5, 0.999, 1, 1.0]))), "args": st.integers(0, 3), "tell": st.booleans(), "key": key})
    return st.fixed_dictionaries({"threshold": st.sampled_from([None, 0, 0, 1, 2, 50]), "same": st.booleans(), "calls": weighted((3, st.lists(call, max_size=20)), (2, st.lists(call, min_size=12, max_size=120)))})


SEARCHES = [
    Search("programs", programs_strat, programs_run, setup=setup, quick=2500, thorough=60000, shards=5, rule=RULE),
    Search("profile", profile_strat, profile_run, setup=setup, quick=500, thorough=15000, shards=2, rule=RULE),
    Search("stats", stats_strat, stats_run, setup=setup, quick=2000, thorough=60000, shards=1, rule=RULE),
]
