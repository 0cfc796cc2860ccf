"""C11: exceptions reach the caller with type, data and cause."""
import asyncio
import threading

import xoscar as mo
from hypothesis import strategies as st
from xoscar.core import ActorRef

from vf.actors import Cluster, spin
from vf.core import Search, Violation, bounded, run_async
from vf.realpool import RealPool

RULE = ("a method (plain, async, batched, yielding, after suspension, in a constructor or start-up hook) raises one of 45 kinds of exceptions with generated data, "
        "cause and notes, or has arguments or a result that cannot be dumped or loaded, 0-3 relaying actors away, over in-process and TCP connections, "
        "with other calls in flight; non-trivial = exception with data or relayed or not transportable")
ASSUMPTIONS = ["StopIteration and StopAsyncIteration may turn into RuntimeError as Python does in coroutines",
               "an exception or result whose pickling or unpickling fails only has to surface as some error",
               "implicit contexts (__context__) and BaseExceptions' identity are not compared"]
TECHNIQUE = "property-based testing: generated exceptions raised remotely, against the same exception raised on a plain object"


class Plain(Exception):
    pass


class WithInit(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)
        self.a, self.b = a, b

    def total(self):
        return [self.a, self.b, list(self.args)]


class Default(Exception):
    code = 0
    detail = None

    def __init__(self, code, detail="d"):
        super().__init__(code, detail)
        self.code = code
        self.detail = [detail]


class Props(Exception):
    @property
    def first(self):
        return self.args[0] if self.args else "none"

    @property
    def both(self):
        return [self.first, self.__dict__.get("extra")]


class Slotted(Exception):
    __slots__ = ("x", "y")

    def __init__(self, x, y):
        super().__init__(x, y)
        self.x, self.y = x, y

    def __reduce__(self):
        return type(self), (self.x, self.y)


class Strange(Exception):
    def __str__(self):
        return f"strange<{self.args}>"

    def __eq__(self, other):
        return isinstance(other, Strange) and self.args == other.args

    def __hash__(self):
        return 5

    def __len__(self):
        return 0


class Falsy(Exception):
    def __bool__(self):
        return False


class NeedsNew(Exception):
    def __new__(cls, a, b):
        self = super().__new__(cls, a, b)
        self.ab = [a, b]
        return self

    def __init__(self, a, b):
        super().__init__(a, b)


class Kw(Exception):
    def __init__(self, *, name, value=3):
        super().__init__(f"{name}={value}")
        self.name, self.value = name, value

    def __reduce__(self):
        return _make_kw, (self.name, self.value)


def _make_kw(name, value):
    return Kw(name=name, value=value)


class MyOSError(OSError):
    def __init__(self, *args, extra=None):
        super().__init__(*args)
        self.extra = extra


class MyKeyError(KeyError):
    pass


class Multi(ValueError, KeyError):
    pass


class Own(Exception):
    """has a __getattr__ of its own"""

    def __getattr__(self, item):
        if item.startswith("dyn_"):
            return "own " + item
        raise AttributeError(item)


class Frozen(Exception):
    def __init__(self, v):
        super().__init__(v)
        self.__dict__["v"] = v

    def __reduce__(self):
        return Frozen, (self.v,)

    def __setattr__(self, k, v):
        if k.startswith("__"):
            return super().__setattr__(k, v)
        raise TypeError("frozen")


class BadInit(Exception):
    """pickles but does not unpickle"""

    def __init__(self, a, b):
        super().__init__(f"{a} {b}")


class BadReduce(Exception):
    def __reduce__(self):
        raise LookupError("no way")


class BadStr(Exception):
    def __str__(self):
        raise LookupError("no text")

    __repr__ = __str__


class BaseOnly(BaseException):
    pass


class CannotLoad(Exception):
    pass


def _fail(*a):
    raise CannotLoad(*a)


class Unloadable:
    def __reduce__(self):
        return _fail, ("load",)


class Undumpable:
    def __reduce__(self):
        raise LookupError("cannot dump")


class BadError(Exception):
    def __reduce__(self):
        return _fail, ("load exception",)


MEMBERS = ["errno", "strerror", "filename", "filename2", "name", "path", "msg", "start", "end", "object", "reason", "encoding", "value", "code",
           "lineno", "offset", "text", "message", "exceptions", "a", "b", "detail", "first", "both", "x", "y", "ab", "extra", "v", "dyn_z"]


def lock_attr(e):
    e.lock = threading.Lock()
    return e


def lambda_attr(e):
    e.fn = lambda: 1
    return e


#: name -> (constructor of (args, depth-limited sub exceptions), transportable)
KINDS = {
    "Exception": lambda a, s: Exception(*a), "ValueError": lambda a, s: ValueError(*a), "KeyError": lambda a, s: KeyError(*a),
    "IndexError": lambda a, s: IndexError(*a), "TypeError": lambda a, s: TypeError(*a), "RuntimeError": lambda a, s: RuntimeError(*a),
    "ZeroDivisionError": lambda a, s: ZeroDivisionError(*a), "AssertionError": lambda a, s: AssertionError(*a),
    "NotImplementedError": lambda a, s: NotImplementedError(*a), "TimeoutError": lambda a, s: asyncio.TimeoutError(*a),
    "ConnectionError": lambda a, s: ConnectionError(*a), "ConnectionResetError": lambda a, s: ConnectionResetError(*a), "EOFError": lambda a, s: EOFError(*a),
    "BrokenPipeError": lambda a, s: BrokenPipeError(32, "pipe"), "InvalidState": lambda a, s: asyncio.InvalidStateError(*a),
    "IncompleteRead": lambda a, s: asyncio.IncompleteReadError(b"ab", 5),
    "OSError2": lambda a, s: OSError(5, "five"), "FileNotFound": lambda a, s: OSError(2, "nothing", "/some/file"),
    "OSError4": lambda a, s: OSError(18, "cross", "/a", 0, "/b"), "OSErrorN": lambda a, s: OSError(*a),
    "Unicode": lambda a, s: UnicodeDecodeError("utf-8", b"ab\xff", 2, 3, "bad byte"), "UnicodeEnc": lambda a, s: UnicodeEncodeError("ascii", "a\xff", 1, 2, "no"),
    "ImportError": lambda a, s: ImportError("imp", name="mod", path="/p"), "NameError": lambda a, s: NameError("nm"),
    "AttributeError": lambda a, s: AttributeError("att", name="nme", obj=[1]), "Syntax": lambda a, s: SyntaxError("syn", ("f.py", 3, 4, "text")),
    "StopIteration": lambda a, s: StopIteration(*a[:1]), "StopAsyncIteration": lambda a, s: StopAsyncIteration(*a),
    "Group": lambda a, s: ExceptionGroup("grp", s or [ValueError(1)]), "ActorNotExist": lambda a, s: mo.ActorNotExist(*a),
    "ServerClosed": lambda a, s: mo.errors.ServerClosed(*a), "Cancelled": lambda a, s: mo.errors.CannotCancelTask(*a),
    "Plain": lambda a, s: Plain(*a), "WithInit": lambda a, s: WithInit(*(list(a) + [1, 2])[:2]), "Default": lambda a, s: Default(*(list(a) + [7])[:2]),
    "Props": lambda a, s: Props(*a), "Slotted": lambda a, s: Slotted(1, a), "Strange": lambda a, s: Strange(*a), "Falsy": lambda a, s: Falsy(*a),
    "NeedsNew": lambda a, s: NeedsNew(3, list(a)), "Kw": lambda a, s: Kw(name="n", value=list(a)), "MyOSError": lambda a, s: MyOSError(2, "s", "f", extra=list(a)),
    "MyKeyError": lambda a, s: MyKeyError(*a), "Multi": lambda a, s: Multi(*a), "Own": lambda a, s: Own(*a), "Frozen": lambda a, s: Frozen(list(a)),
    "BadInit": lambda a, s: BadInit(1, 2), "BadReduce": lambda a, s: BadReduce(*a), "BadStr": lambda a, s: BadStr(*a), "BadError": lambda a, s: BadError(*a),
    "Lock": lambda a, s: lock_attr(Plain(*a)), "Lambda": lambda a, s: lambda_attr(Plain(*a)),
    "SystemExit": lambda a, s: SystemExit(*a), "KeyboardInterrupt": lambda a, s: KeyboardInterrupt(*a), "GeneratorExit": lambda a, s: GeneratorExit(*a),
    "BaseOnly": lambda a, s: BaseOnly(*a), "BaseGroup": lambda a, s: BaseExceptionGroup("bg", [KeyboardInterrupt(1)] + list(s)),
}
#: raised, but nothing is promised except that some error arrives
HARD = {"BadInit", "BadReduce", "BadStr", "BadError", "Lock", "Lambda"}
STOPS = {"StopIteration", "StopAsyncIteration"}


def build(spec):
    subs = [build(s) for s in spec.get("subs", [])]
    subs = [s for s in subs if isinstance(s, Exception)]
    e = KINDS[spec["kind"]](tuple(map(untuple, spec["args"])), subs)
    if spec["kind"] not in ("Frozen", "Slotted", "Kw", "IncompleteRead"):
        # those have a pickled form of their own
        for k, v in spec["attrs"].items():
            setattr(e, k, v)
        for n in spec["notes"]:
            e.add_note(n)
    return e


def untuple(x):
    return tuple(x["t"]) if isinstance(x, dict) and "t" in x else x


def hard(spec):
    return spec["kind"] in HARD or any(map(hard, spec.get("subs", []))) or (spec["cause"] is not None and hard(spec["cause"]))


def throw(spec):
    """raises what spec says, with its cause"""
    if spec["cause"] is None:
        raise build(spec)
    try:
        throw(spec["cause"])
    except BaseException as c:
        if spec["how"] == "from":
            raise build(spec) from c
        if spec["how"] == "none":
            raise build(spec) from None
        raise build(spec)


def view(e, depth=3):
    out = {"args": args_view(e.args, depth), "notes": list(getattr(e, "__notes__", [])), "suppress": e.__suppress_context__}
    for name in MEMBERS:
        try:
            v = getattr(e, name)
        except AttributeError:
            continue
        except Exception as x:
            v = type(x)
        if callable(v):
            v = "callable"
        out["." + name] = args_view(v, depth)
    for k, v in vars(e).items():
        if not k.startswith("__"):
            out["." + k] = args_view(v, depth)
    if hasattr(e, "total"):
        out["total()"] = e.total()
    out["cause"] = None if e.__cause__ is None else [type_name(e.__cause__), view(e.__cause__, depth - 1) if depth else None]
    out["bool"] = bool(e)
    return out


def type_name(e):
    return base_type(e).__name__


def base_type(e):
    """the original type below the wrappers"""
    return type(getattr(e, "__wrapped__", e))


def args_view(v, depth):
    if isinstance(v, BaseException):
        return [type_name(v), view(v, depth - 1) if depth else None]
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [args_view(x, depth) for x in v]
    return v


def text(e):
    try:
        return str(e)
    except Exception as x:
        return type(x).__name__


class Host(mo.Actor):
    def __init__(self, spec=None):
        super().__init__()
        if spec is not None and spec[0] == "init":
            throw(spec[1])
        self.spec = spec

    async def __post_create__(self):
        if self.spec is not None and self.spec[0] == "post":
            await asyncio.sleep(0)
            throw(self.spec[1])

    async def __pre_destroy__(self):
        pass

    def plain(self, spec):
        throw(spec)

    async def coro(self, spec):
        throw(spec)

    async def later(self, spec):
        await spin(3)
        throw(spec)

    @mo.no_lock
    async def free(self, spec):
        await spin(2)
        throw(spec)

    @mo.extensible
    async def ext(self, spec):
        await spin(1)
        throw(spec)

    async def gen(self, spec):
        got = yield asyncio.sleep(0, result=3)
        assert got == 3
        throw(spec)

    async def inner(self, spec):
        yield self._throw(spec)

    async def _throw(self, spec):
        await asyncio.sleep(0)
        throw(spec)

    async def task(self, spec):
        await asyncio.ensure_future(self._throw(spec))

    async def items(self, spec):
        async def agen():
            yield 1
            throw(spec)
        return agen()

    async def result(self, what):
        return {"lock": threading.Lock(), "undumpable": Undumpable(), "unloadable": Unloadable()}[what]

    async def take(self, value):
        return "taken"

    @mo.no_lock
    async def echo(self, i, n=0):
        await spin(n)
        return ["echo", i]

    @mo.no_lock
    async def relay(self, rest, method, *args):
        ref, rest = rest[0], rest[1:]
        if rest:
            return await ref.relay(rest, method, *args)
        r = await getattr(ref, method)(*args)
        if method == "items":
            return [x async for x in r]
        return r


MODES = ["plain", "coro", "later", "free", "ext", "gen", "inner", "task"]


async def outcome(aw):
    try:
        return ["value", await aw]
    except BaseException as e:
        return ["error", e]


def plain_outcome(spec):
    try:
        throw(spec)
    except BaseException as e:
        return e


def judge(what, spec, out, mode, address):
    if out[0] != "error":
        raise Violation(f"{what}: no error arrived but {out[1]!r}")
    e = out[1]
    if hard(spec):
        return
    want = plain_outcome(spec)
    if spec["kind"] in STOPS and isinstance(e, RuntimeError):
        if e.__cause__ is None or type_name(e.__cause__) != spec["kind"]:
            raise Violation(f"{what}: {spec['kind']} became {e!r} without its cause")
        return
    if not isinstance(e, type(want)):
        raise Violation(f"{what}: raised {want!r} ({type(want)}) but {e!r} ({type(e).__mro__}) arrived")
    a, b = view(want), view(e)
    for k in ("address", "pid"):
        b.pop("." + k, None) if "." + k not in a else 0
    if a != b:
        keys = [k for k in set(a) | set(b) if a.get(k, "missing") != b.get(k, "missing")]
        raise Violation(f"{what}: {want!r} arrived with other data: " + "; ".join(f"{k}: {a.get(k, 'missing')!r} became {b.get(k, 'missing')!r}" for k in keys))
    if isinstance(want, BaseExceptionGroup):
        m, rest = e.split(lambda x: not isinstance(x, BaseExceptionGroup))
        if rest is not None or m is None:
            raise Violation(f"{what}: the group does not split as before")
    if text(want) not in text(e):
        raise Violation(f"{what}: text {text(want)!r} became {text(e)!r}")
    if address is not None and f"address={address}" not in text(e):
        raise Violation(f"{what}: the message does not name {address}: {text(e)!r}")
    import traceback
    tb = "".join(traceback.format_tb(e.__traceback__))
    if "in throw" not in tb:
        raise Violation(f"{what}: the traceback does not show where it was raised: {tb}")


async def scenario(c, addrs, main, kind, tag):
    """the same for in-process and real pools"""
    n = len(addrs)
    refs = []
    uids = []
    try:
        for k in range(n):
            uid = f"h{k}{tag}"
            await bounded(mo.create_actor(Host, uid=uid, address=addrs[k]), 20, "creating")
            uids.append(uid)
            refs.append(ActorRef(main if c["ref"] == "main" else addrs[k], uid.encode()))
        jobs = []
        for i, (k, d) in enumerate(c["noise"]):
            jobs.append((i, asyncio.ensure_future(outcome(refs[k % n].echo(i, d)))))
        results = []
        for x in c["steps"]:
            path = [refs[k % n] for k in x["path"]]
            target = addrs[x["path"][-1] % n]
            uid = uids[x["path"][-1] % n]
            what = f"{kind} {x}"
            args = None
            if x["what"] == "raise":
                method, args = x["mode"], (x["spec"],)
                if method == "task" and x["spec"]["kind"] in ("SystemExit", "KeyboardInterrupt"):
                    method = "inner"  # in a task these end the event loop, as asyncio documents
            elif x["what"] == "items":
                method, args = "items", (x["spec"],)
            elif x["what"] == "result":
                method, args = "result", (x["obj"],)
            elif x["what"] == "arg":
                method, args = "take", ({"lock": threading.Lock(), "undumpable": Undumpable(), "unloadable": Unloadable()}[x["obj"]],)
            elif x["what"] == "create":
                aw = mo.create_actor(Host, [x["where"], x["spec"]], uid=f"new{tag}-{len(results)}", address=target)
            if args is not None:
                if len(path) > 1:
                    aw = path[0].relay(path[1:], method, *args)
                elif method == "items":
                    aw = consume(path[0], args[0])
                else:
                    aw = getattr(path[0], method)(*args)
            if x["cancel_other"]:
                t = asyncio.ensure_future(outcome(path[0].echo("gone", 30)))
                await spin(2)
                t.cancel()
                await asyncio.sleep(0)
            results.append((what, x, target, uid, await bounded(outcome(aw), 20, what)))
        for i, t in jobs:
            out = await bounded(t, 20, f"noise {i}")
            if out != ["value", ["echo", i]]:
                raise Violation(f"{kind}: an unrelated call to pool {c['noise'][i][0] % n} gave {out}; steps {c['steps']}")
        for k in range(n):
            out = await bounded(outcome(refs[k].echo(k)), 20, "a later call")
            if out != ["value", ["echo", k]]:
                raise Violation(f"{kind}: a later call to pool {k} gave {out}; steps {c['steps']}")
        for what, x, target, uid, out in results:
            if x["what"] in ("raise", "create", "items"):
                # which pool runs it decides the address named
                # (a reference that reached its own process calls directly: no message, the last message's address is named)
                named = x["what"] != "items" and (kind == "processes" or len(x["path"]) == 1)
                judge(what, x["spec"], out, x.get("mode"), target if named else None)
            else:
                direct = kind == "dummy" or kind == "processes" and all(k % n == 0 for k in x["path"])
                # objects are handed over as they are inside a process
                if not direct and out[0] != "error":
                    raise Violation(f"{what}: arrived as {out}")
                if not direct and x["obj"] == "unloadable" and not isinstance(out[1], CannotLoad):
                    raise Violation(f"{what}: arrived as {out}, not as the error of loading it")
    finally:
        for k, uid in enumerate(uids):
            await bounded(outcome(mo.destroy_actor(ActorRef(addrs[k], uid.encode()))), 20, "destroying")


async def consume(ref, spec):
    g = await ref.items(spec)
    async for _ in g:
        pass


async def in_process(c):
    async with Cluster(2, tcp=c["tcp"]) as cl:
        await scenario(c, cl.addresses, cl.main, "tcp" if c["tcp"] else "dummy", "")


def info(c):
    kinds = sorted({x["spec"]["kind"] for x in c["steps"] if "spec" in x} | {x["what"] for x in c["steps"]})
    return {"nontrivial": any(x["what"] in ("arg", "result") or len(x["path"]) > 1 or x["spec"]["args"] or x["spec"]["attrs"] or x["spec"]["cause"]
                              for x in c["steps"]), "labels": kinds}


def in_process_run(c):
    run_async(in_process, c, limit=100)
    return info(c)


POOL = RealPool(2)
COUNT = iter(range(10 ** 9))


def processes_run(c):
    POOL.run(scenario, c, POOL.addresses, POOL.main, "processes", f"-{next(COUNT)}", limit=100)
    return info(c)


def spec_strat():
    val = st.one_of(st.integers(-5, 300), st.text("aé\n[]%{}", max_size=6), st.none(), st.binary(max_size=3).map(lambda b: b.hex()),
                    st.lists(st.integers(0, 3), max_size=2), st.lists(st.integers(0, 3), max_size=2).map(lambda x: {"t": x}))
    attrs = st.dictionaries(st.sampled_from(["extra", "note", "payload", "retry"]), st.one_of(st.integers(0, 9), st.text("ab", max_size=3), st.lists(st.integers(0, 3), max_size=2)), max_size=2)

    def mk(children, kinds):
        return st.fixed_dictionaries({"kind": kinds, "args": st.lists(val, max_size=3), "attrs": attrs, "notes": st.lists(st.text("xyz", max_size=3), max_size=1),
                                      "cause": st.one_of(st.none(), children), "how": st.sampled_from(["from", "from", "none", "implicit"]),
                                      "subs": st.lists(children, max_size=2)})

    easy = sorted(set(KINDS) - HARD - STOPS - {"BaseGroup"})
    leaf = st.fixed_dictionaries({"kind": st.sampled_from(easy), "args": st.lists(val, max_size=2), "attrs": attrs, "notes": st.just([]), "cause": st.none(),
                                  "how": st.just("from"), "subs": st.just([])})
    mid = mk(leaf, st.sampled_from(easy))
    return st.one_of(mk(mid, st.sampled_from(sorted(KINDS))), mk(leaf, st.sampled_from(sorted(KINDS))))


def strat():
    spec = spec_strat()
    path = st.one_of(st.lists(st.integers(0, 2), min_size=1, max_size=1), st.lists(st.integers(0, 2), min_size=1, max_size=4))
    co = st.booleans()
    step = st.one_of(
        st.fixed_dictionaries({"what": st.just("raise"), "path": path, "mode": st.sampled_from(MODES), "spec": spec, "cancel_other": co}),
        st.fixed_dictionaries({"what": st.just("raise"), "path": path, "mode": st.sampled_from(MODES), "spec": spec, "cancel_other": co}),
        st.fixed_dictionaries({"what": st.just("raise"), "path": path, "mode": st.sampled_from(MODES), "spec": spec, "cancel_other": co}),
        st.fixed_dictionaries({"what": st.just("items"), "path": path, "spec": spec, "cancel_other": co}),
        st.fixed_dictionaries({"what": st.just("create"), "path": path, "where": st.sampled_from(["init", "post"]), "spec": spec, "cancel_other": co}),
        st.fixed_dictionaries({"what": st.just("result"), "path": path, "obj": st.sampled_from(["lock", "undumpable", "unloadable"]), "cancel_other": co}),
        st.fixed_dictionaries({"what": st.just("arg"), "path": path, "obj": st.sampled_from(["lock", "undumpable", "unloadable"]), "cancel_other": co}))
    return st.fixed_dictionaries({"tcp": st.booleans(), "ref": st.sampled_from(["direct", "direct", "main"]), "steps": st.lists(step, min_size=1, max_size=4),
                                  "noise": st.lists(st.tuples(st.integers(0, 2), st.integers(0, 40)).map(list), max_size=4)})


SEARCHES = [
    Search("in_process", strat, in_process_run, quick=2400, thorough=80000, shards=5, case_limit=150, rule=RULE),
    Search("processes", strat, processes_run, setup=POOL.setup, teardown=POOL.teardown, quick=600, thorough=20000, shards=3, case_limit=150, rule=RULE, weight=2),
]
