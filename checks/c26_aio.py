"""C26: asynchronous files, events and the LRU cache behave like their synchronous models."""
import asyncio
import functools
import io
import itertools
import os
import shutil
import tempfile
import threading
from collections import OrderedDict
from concurrent.futures import ThreadPoolExecutor

from hypothesis import strategies as st

from vf.actors import spin
from vf.core import Search, Violation, bounded, run_async, weighted
from xoscar.aio import AioEvent, AioFileObject, alru_cache

RULE = ("lru: histories of 1-40 steps (calls with generated arguments, also overlapping ones of one key; the wrapped work ends in a generated order "
        "with a value, an exception or a cancellation; callers cancelled; invalidate, clear, info, close with and without cancelling, open) "
        "for generated sizes, typed and exception caching, against a model cache. files: the same 1-25 generated operations (reads of all kinds, "
        "writes, seeks, truncation, iteration, context, errors) on a file used asynchronously and a copy used synchronously: same values, "
        "same exception types, same content. events: several waiters with generated timeouts against set / clear at generated places. "
        "Non-trivial = overlapping calls, an eviction or a failure (lru), 3 operations of which one writes or fails (files), a wait that is released (events)")
ASSUMPTIONS = ["one event loop at a time uses a cache", "operations on one file are awaited one after another, as in synchronous use",
               "a cached exception is the same object at every call"]
TECHNIQUE = "model-based property-based testing of histories (model cache), differential testing against synchronous files and events"


class Boom(Exception):
    pass


# ------------------------------------------------------------------ lru
ARGS = [((1,), {}), ((1.0,), {}), ((True,), {}), ((2,), {}), (("1",), {}), ((), {"x": 1}), ((), {"x": 1.0}), ((1, 2), {}), ((), {"x": 1, "y": 2}), ((3,), {}), ((4,), {}), ((), {})]


async def lru_case(c):
    runs = []

    async def work(*a, **k):
        ev = asyncio.Event()
        run = {"ev": ev, "end": None, "args": (a, k), "task": asyncio.current_task()}
        runs.append(run)
        if c["instant"]:
            run["done"] = True
            return ("value", len(runs) - 1)
        try:
            await ev.wait()
        finally:
            run["done"] = True
        kind, v = run["end"]
        if kind == "error":
            raise Boom(v)
        if kind == "cancelled":
            raise asyncio.CancelledError()
        return ("value", v)

    kw = {"maxsize": c["maxsize"], "typed": c["typed"], "cache_exceptions": c["exceptions"]}
    if c["plain"]:
        f, maxsize, typed, cache_exc = alru_cache(work), 128, False, True
    else:
        f, maxsize, typed, cache_exc = alru_cache(**kw)(work), c["maxsize"], c["typed"], c["exceptions"]
    model, hits, misses, closed = OrderedDict(), 0, 0, False
    entries, callers, tracked = [], [], set()
    closings = []
    overlap = evicted = failed = False
    hist = []
    seen_ended = 0

    def end_entry(e, kind, v):
        e["state"], e["v"] = kind, v

    def settle():
        for closing in closings:
            if not closing["over"] and not any(entries[i]["state"] == "run" for i in closing["wait"]):
                close_done(closing)

    def close_done(closing):
        # also when the cache has been cleared and opened again before
        nonlocal hits, misses
        closing["over"] = True
        model.clear()
        tracked.clear()
        hits = misses = 0

    for step in c["steps"]:
        op = step["op"]
        hist.append((op, step["n"]))
        if op == "call":
            a, k = ARGS[step["n"] % len(ARGS)]
            t = asyncio.ensure_future(f(*a, **k))
            await spin(6)
            caller = {"t": t, "want": None, "entry": None, "cancelled": False, "key": functools._make_key(a, k, typed)}
            if closed:
                caller["want"] = ("raises", RuntimeError)
            else:
                key = caller["key"]
                e = model.get(key)
                if e is not None and (e["state"] in ("run", "value") or (e["state"] == "error" and cache_exc)):
                    hits += 1
                    model.move_to_end(key)
                    overlap = overlap or e["state"] == "run"
                else:
                    if e is not None:
                        model.pop(key)
                    e = {"state": "run", "v": None, "i": len(entries)}
                    entries.append(e)
                    tracked.add(e["i"])
                    model[key] = e
                    misses += 1
                    if maxsize is not None and len(model) > maxsize:
                        model.popitem(last=False)
                        evicted = True
                    if c["instant"]:
                        end_entry(e, "value", e["i"])
                        tracked.discard(e["i"])
                caller["entry"] = e
            if len(runs) != len(entries):
                raise Violation(f"the function ran {len(runs)} times, model {len(entries)}; {hist} {kw}")
            callers.append(caller)
        elif op == "end":
            open_ = [e for e in entries if e["state"] == "run"]
            if open_:
                e = open_[step["n"] % len(open_)]
                kind = step["how"]
                failed = failed or kind != "value"
                runs[e["i"]]["end"] = (kind, e["i"])
                runs[e["i"]]["ev"].set()
                end_entry(e, kind, e["i"])
                tracked.discard(e["i"])
                await spin(6)
                settle()
        elif op == "cancel":
            waiting = [x for x in callers if not x["t"].done()]
            if waiting:
                x = waiting[step["n"] % len(waiting)]
                x["t"].cancel()
                x["cancelled"] = True
                await spin(4)
        elif op == "invalidate":
            a, k = ARGS[step["n"] % len(ARGS)]
            key = functools._make_key(a, k, typed)
            got = f.invalidate(*a, **k)
            if got != (key in model):
                raise Violation(f"invalidate gave {got}, key {'is' if key in model else 'is not'} cached; {hist} {kw}")
            model.pop(key, None)
        elif op == "clear":
            f.cache_clear()
            model.clear()
            tracked.clear()
            hits = misses = 0
        elif op == "close":
            if closed:
                try:
                    f.close()
                except RuntimeError:
                    pass
                else:
                    raise Violation(f"closing a closed cache did not raise; {hist}")
            else:
                cancel = bool(step["n"] % 2)
                wait = set(tracked)
                closing = {"wait": wait, "over": False}
                closing["t"] = asyncio.ensure_future(f.close(cancel=cancel))
                closings.append(closing)
                closed = True
                if cancel:
                    for i in wait:
                        end_entry(entries[i], "cancelled", i)
                    tracked.clear()
                await spin(8)
                settle()
        elif op == "open":
            clean = closed and hits == misses == 0 and not tracked and not model
            try:
                f.open()
                ok = True
            except RuntimeError:
                ok = False
            if ok != clean:
                raise Violation(f"open {'worked' if ok else 'raised'}; {hist} {kw}")
            if ok:
                closed = False
        for closing in closings:
            if closing["over"] != closing["t"].done():
                raise Violation(f"close {'ended' if closing['t'].done() else 'has not ended'}; {hist} {kw}")
        info = f.cache_info()
        if tuple(info) != (hits, misses, maxsize, len(model)):
            raise Violation(f"cache_info {tuple(info)}, model {(hits, misses, maxsize, len(model))}; {hist} {kw}")
        for x in callers:
            if x["want"] is not None:
                continue
            e = x["entry"]
            if not x["cancelled"] and (e["state"] == "run") == x["t"].done():
                raise Violation(f"a call {'ended early' if x['t'].done() else 'did not end'}; {hist} {kw}")
    for e in entries:
        if e["state"] == "run":
            runs[e["i"]]["end"] = ("value", e["i"])
            runs[e["i"]]["ev"].set()
            end_entry(e, "value", e["i"])
    await spin(8)
    for x in callers:
        e = x["entry"]
        if not x["t"].done():
            raise Violation(f"a call never ended; {hist} {kw}")
        if x["cancelled"]:
            if not x["t"].cancelled():
                raise Violation(f"a cancelled caller got a result; {hist}")
            continue
        if x["want"]:
            got = "cancelled" if x["t"].cancelled() else x["t"].exception()
            if not isinstance(got, RuntimeError):
                raise Violation(f"a call of a closed cache gave {got!r}; {hist}")
            continue
        if e["state"] == "cancelled":
            ok = x["t"].cancelled()
        elif x["t"].cancelled():
            ok = False
        elif e["state"] == "error":
            err = x["t"].exception()
            ok = isinstance(err, Boom) and err.args == (e["v"],)
        else:
            ok = x["t"].exception() is None and x["t"].result() == ("value", e["v"])
        if not ok:
            got = "cancelled" if x["t"].cancelled() else x["t"].exception() or x["t"].result()
            raise Violation(f"a call gave {got!r}, the work it shares ended with {e['state']} {e['v']}; {hist} {kw}")
    for closing in closings:
        await asyncio.wait([closing["t"]], timeout=5)
    return {"nontrivial": overlap or evicted or failed, "labels": [x for x, y in (("overlap", overlap), ("evicted", evicted), ("failed", failed), ("instant", c["instant"])) if y]}


def lru_run(c):
    return run_async(lru_case, c, limit=30)


def lru_strat():
    step = st.fixed_dictionaries({"op": st.sampled_from(["call"] * 10 + ["end"] * 7 + ["cancel", "invalidate", "clear", "close", "open", "open"]), "n": weighted((3, st.integers(0, 5)), (1, st.integers(0, 20))),
                                  "how": st.sampled_from(["value", "value", "error", "cancelled"])})
    return st.fixed_dictionaries({"maxsize": st.sampled_from([None, 0, 1, 2, 2, 3, 128]), "typed": st.booleans(), "exceptions": st.booleans(), "plain": weighted((5, st.just(False)), (1, st.just(True))),
                                  "instant": weighted((4, st.just(False)), (1, st.just(True))), "steps": st.lists(step, min_size=1, max_size=40)})


# ------------------------------------------------------------------ files
FOLDER = None
COUNT = itertools.count()


def setup():
    global FOLDER
    FOLDER = tempfile.mkdtemp(prefix="vf-c26-")


def teardown():
    shutil.rmtree(FOLDER, ignore_errors=True)


def outcome(f):
    try:
        return ("ok", f())
    except Exception as e:
        return ("raised", type(e), str(e).replace("vf-a", "").replace("vf-b", ""))


async def aoutcome(co):
    try:
        return ("ok", await co)
    except Exception as e:
        return ("raised", type(e), str(e).replace("vf-a", "").replace("vf-b", ""))


METHODS = {"read": ("n?",), "read1": ("n?",), "readline": ("n?",), "readlines": (), "readinto": ("buf",), "write": ("data",), "writelines": ("lines",), "seek": ("pos", "whence"),
           "tell": (), "truncate": ("n?",), "flush": (), "isatty": (), "seekable": (), "writable": (), "close": ()}


async def files_case(c):
    n = next(COUNT)
    paths = [os.path.join(FOLDER, f"{n}-vf-{x}") for x in "ab"]
    text = "b" not in c["mode"]
    start = b"".join(LINES[i] for i in c["start"])
    for p in paths:
        with open(p, "wb") as g:
            g.write(start)
    kind = c["kind"]
    executor = ThreadPoolExecutor(1) if c["executor"] else None

    def make(p):
        if kind == "memory":
            return io.StringIO(start.decode()) if text else io.BytesIO(start)
        kw = {"encoding": "utf-8", "newline": c["newline"]} if text else {"buffering": c["buffering"]}
        return open(p, c["mode"], **kw)
    wrote = False
    hist = []
    try:
        sync = outcome(lambda: make(paths[0]))
        raw = outcome(lambda: make(paths[1]))
        if sync[0] != "ok":
            return {"nontrivial": False}
        s, f = sync[1], raw[1]
        a = AioFileObject(f, executor=executor) if not c["wrap"] else AioFileObject(AioFileObject(f), executor=executor)
        left = False
        for op in c["ops"]:
            m = op["m"]
            hist.append(m)
            if m == "iter":
                def it():
                    return list(itertools.islice(s, 2)) if op["n"] % 2 else list(s)

                async def ait():
                    out = []
                    async for x in a:
                        out.append(x)
                        if op["n"] % 2 and len(out) == 2:
                            break
                    return out
                w, g = outcome(it), await aoutcome(ait())
                if text:
                    # a text file that is iterated cannot be told; go on from a defined position
                    outcome(lambda: s.seek(0))
                    await aoutcome(a.seek(0))
            elif m in ("closed", "name", "mode"):
                w, g = outcome(lambda: getattr(s, m)), outcome(lambda: getattr(a, m))
                if m == "name" and w[0] == g[0] == "ok":
                    w = ("ok", os.path.basename(str(w[1])).replace("vf-a", "vf"))
                    g = ("ok", os.path.basename(str(g[1])).replace("vf-b", "vf"))
            elif m == "readable":
                w, g = outcome(s.readable), outcome(a.readable)
            elif m == "with":
                def wi():
                    with s:
                        return s.tell()

                async def awi():
                    async with a as x:
                        if x is not a:
                            raise Violation("async with gave another object")
                        return await x.tell()
                w, g = outcome(wi), await aoutcome(awi())
                left = True
            else:
                args, args2 = [], []
                for k in METHODS[m]:
                    if k == "n?":
                        v = op["n"] - 3
                        v = [] if v < -1 else [v]
                        if m == "truncate" and v and v[0] < 0:
                            v = []
                    elif k == "buf":
                        v = [bytearray(op["n"])]
                    elif k == "data":
                        v = [DATA[op["n"] % len(DATA)]]
                        v = [v[0] if text or op["n"] % 7 == 6 else v[0].encode()]
                    elif k == "lines":
                        v = [[x if text else x.encode() for x in DATA[:op["n"] % 4]]]
                    elif k == "pos":
                        v = [op["n"] if not text else 0]
                    else:
                        v = [0 if text else op["w"] % 3]
                    args += v
                    args2 += [bytearray(x) if isinstance(x, bytearray) else x for x in v]
                wrote = wrote or m in ("write", "writelines", "truncate")
                if not hasattr(s, m):
                    w, g = ("raised", AttributeError), await aoutcome(getattr(a, m)(*args2))
                    w, g = w[:2], g[:2]
                else:
                    w, g = outcome(lambda: getattr(s, m)(*args)), await aoutcome(getattr(a, m)(*args2))
                if args != args2:
                    raise Violation(f"{m}: buffers differ {args} {args2}; {c['mode']} {hist}")
            wrote = wrote or w[0] == "raised"
            if w[0] != g[0] or (w[0] == "ok" and w != g) or (w[0] == "raised" and w[1] is not g[1] and m != "iter"):
                raise Violation(f"{m} gave {g}, synchronously {w}; mode {c['mode']} {kind} after {hist}")
        if kind == "memory" and not s.closed:
            if s.getvalue() != f.getvalue():
                raise Violation(f"content {f.getvalue()!r}, synchronously {s.getvalue()!r}; {hist}")
        s.close()
        await a.close()
        if not a.closed:
            raise Violation("a closed file is not closed")
        if kind != "memory":
            x, y = [open(p, "rb").read() for p in paths]
            if x != y:
                raise Violation(f"content {y!r}, synchronously {x!r}; mode {c['mode']} {hist}")
    finally:
        if executor:
            executor.shutdown()
        for p in paths:
            os.unlink(p)
    return {"nontrivial": wrote and len(c["ops"]) >= 3, "labels": sorted({o["m"] for o in c["ops"]} | {kind})}


LINES = [b"abc\n", b"\n", b"line two\r\n", "été\n".encode(), b"no end", b"x" * 300 + b"\n"]
DATA = ["", "data", "é\n", "two\nlines\n", "z" * 200, "\r\n", "\0"]


def files_run(c):
    return run_async(files_case, c, limit=30)


def files_strat():
    m = st.sampled_from(sorted(METHODS) + ["iter", "iter", "closed", "name", "mode", "readable", "with", "read", "write", "readline", "seek", "write"])
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["real", "real", "memory"]), "mode": st.sampled_from(["rb", "r+b", "w+b", "wb", "a+b", "r", "r+", "w+", "w", "a+"]),
        "newline": st.sampled_from([None, "", "\n"]), "buffering": st.sampled_from([-1, -1, 0, 16]), "wrap": st.booleans(), "executor": st.booleans(),
        "start": st.lists(st.integers(0, 5), max_size=5), "ops": st.lists(st.fixed_dictionaries({"m": m, "n": st.integers(0, 12), "w": st.integers(0, 2)}), min_size=1, max_size=25)})


# ------------------------------------------------------------------ events
async def events_case(c):
    ev = None
    if c["kind"] == "given":
        ev = threading.Event()
    a = AioEvent(ev) if c["kind"] != "executor" else AioEvent(executor=ThreadPoolExecutor(8))
    is_set = False
    waiters = []
    released = False
    try:
        for op in c["ops"]:
            k = op["k"]
            if k == "set":
                a.set()
                is_set = True
                for w in waiters:
                    w["released"] = True
                    released = True
                for w in waiters:
                    got = await bounded(w["t"], 20, "a waiter after the event was set")
                    if got is not True:
                        raise Violation(f"a released waiter got {got!r}")
                waiters.clear()
            elif k == "clear":
                a.clear()
                is_set = False
            elif k == "is_set":
                if a.is_set() is not is_set or (ev is not None and ev.is_set() is not is_set):
                    raise Violation(f"is_set gave {a.is_set()}, model {is_set}")
            elif k == "wait":
                if is_set:
                    if await bounded(a.wait(), 20, "waiting for an event that is set") is not True:
                        raise Violation("wait did not give True")
                elif len(waiters) < 4:
                    t = asyncio.ensure_future(a.wait())
                    waiters.append({"t": t, "released": False})
                    await asyncio.sleep(0.001)
            else:
                got = await bounded(a.wait(timeout=0.002), 20, "waiting with a time limit")
                if got is not is_set:
                    raise Violation(f"wait with a time limit gave {got!r}, the event is {'set' if is_set else 'not set'}")
            for w in waiters:
                if w["t"].done():
                    raise Violation(f"a waiter went on although the event was never set: {c['ops']}")
    finally:
        a.set()
        for w in waiters:
            await w["t"]
        if c["kind"] == "executor":
            a._executor.shutdown()
    return {"nontrivial": released, "labels": [c["kind"]]}


def events_run(c):
    return run_async(events_case, c, limit=60)


def events_strat():
    return st.fixed_dictionaries({"kind": st.sampled_from(["own", "given", "executor"]), "ops": st.lists(st.fixed_dictionaries({"k": st.sampled_from(["set", "clear", "is_set", "wait", "wait", "timed"])}), min_size=1, max_size=12)})


SEARCHES = [
    Search("lru", lru_strat, lru_run, quick=5000, thorough=200000, shards=4, rule=RULE),
    Search("files", files_strat, files_run, setup=setup, teardown=teardown, quick=2500, thorough=100000, shards=3, rule=RULE),
    Search("events", events_strat, events_run, quick=500, thorough=15000, shards=1, rule=RULE),
]
