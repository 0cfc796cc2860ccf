"""C30: core helper functions obey their stated laws."""
import asyncio
import copy
import dataclasses
import importlib
import itertools
import os
import pickle
import shutil
import sys
import tempfile
import traceback
import types

from hypothesis import strategies as st

from vf.core import Search, Violation, run_async, weighted
from xoscar import utils
from xoscar.serialization import deserialize, serialize

RULE = ("sizes: texts of generated numbers, units and blanks; texts: any text or bytes and subclasses; addresses: generated hosts, ports and schemes against an address model; "
        "retry: functions failing a generated number of times in generated ways; lazy: generated modules, places, handlers and reads; slots: generated data classes against "
        "their plain twins; wrap: generated exceptions, bases, messages. Non-trivial = every case except trivial texts and functions that never fail")
ASSUMPTIONS = ["a size is a number, blanks and one of k, m, g, t (and letters after it) or %", "v6 hosts are written without brackets", "slotted data classes are neither frozen nor use super()",
               "waiting between attempts is set to nothing"]
TECHNIQUE = "property-based testing against independent models, plain twins and round trips"
COUNT = itertools.count()


# ------------------------------------------------------------------ sizes
def sizes_run(c):
    n, unit = c["n"], c["unit"]
    if c["kind"] == "number":
        got = utils.parse_readable_size(n)
        if got != (float(n), False) or type(got[0]) is not float:
            raise Violation(f"{n!r} gave {got}")
        return {"nontrivial": False}
    text = c["before"] + repr(n) + c["mid"] + unit + c["after"]
    low = unit.strip().lower()
    bad = "e" in repr(n) or "n" in repr(n) or c["junk"]
    if c["junk"]:
        text = c["junk"] + text
    try:
        got = utils.parse_readable_size(text)
    except ValueError:
        if bad or (low and low[0] not in "kmgt%"):
            return {"labels": ["rejected"]}
        raise
    if bad or (low and low[0] not in "kmgt%"):
        raise Violation(f"{text!r} gave {got}")
    want = (float(repr(n)) / 100, True) if low == "%" else (float(repr(n)) * 1024 ** {"": 0, "k": 1, "m": 2, "g": 3, "t": 4}[low[:1]], False)
    if got != want:
        raise Violation(f"{text!r} gave {got}, must be {want}")
    return {"labels": [low]}


def sizes_strat():
    blank = st.sampled_from(["", "", " ", "  ", "\t"])
    return st.fixed_dictionaries({
        "kind": weighted((1, st.just("number")), (6, st.just("text"))), "n": st.one_of(st.integers(-10 ** 6, 10 ** 15), st.floats(-1e9, 1e9, allow_nan=False).map(lambda x: round(x, 6))),
        "unit": st.sampled_from(["", "k", "m", "g", "t", "K", "M", "G", "T", "kb", "MB", "GiB", "tb", "%", "KiB", "x", "b", "eb"]), "before": blank, "mid": blank, "after": blank,
        "junk": weighted((8, st.just("")), (1, st.sampled_from(["x", "k", "--", "1.2.", "%"])))})


# ------------------------------------------------------------------ texts
class Str(str):
    pass


class Bytes(bytes):
    pass


def texts_run(c):
    t, enc = c["text"], c["encoding"]
    try:
        b = t.encode(enc)
    except UnicodeEncodeError:
        for v in (t, Str(t)):
            try:
                utils.to_binary(v, enc)
            except UnicodeEncodeError:
                continue
            raise Violation(f"{t!r} became {enc}")
        return {"nontrivial": False}
    for v in (t, Str(t), b, Bytes(b)):
        x, y = utils.to_binary(v, enc), utils.to_str(v, enc)
        if type(x) is not bytes or x != b:
            raise Violation(f"to_binary({v!r}) gave {x!r}")
        if type(y) is not str or y != t:
            raise Violation(f"to_str({v!r}) gave {y!r}")
    if utils.to_binary(None) is not None or utils.to_str(None) is not None:
        raise Violation("None was changed")
    for v in (1, [t], bytearray(b), 1.5, object()):
        for f in (utils.to_str, utils.to_binary):
            try:
                r = f(v)
            except TypeError:
                continue
            raise Violation(f"{f.__name__}({v!r}) gave {r!r}")
    return {"nontrivial": bool(t)}


def texts_strat():
    return st.fixed_dictionaries({"text": st.one_of(st.text(max_size=30), st.text(alphabet=st.characters(codec="utf-8"), max_size=30)), "encoding": st.sampled_from(["utf-8", "utf-8", "latin-1", "utf-16-le", "ascii"])})


# ------------------------------------------------------------------ addresses
V4 = ["127.0.0.1", "0.0.0.0", "10.0.0.0", "192.168.0.1", "0.0.0.1", "10.0.0.10", "localhost", "host-1.example", "00.0.0.0"]
V6 = ["::", "::1", "0:0:0:0:0:0:0:0", "2001:db8:3333:4444:5555:6666:7777:8888", "fe80::1", "::ffff", "0000:0000:0000:0000:0000:0000:0000:0000", "1::", "0:0::0:0", "::0", "0::"]


def addresses_run(c):
    def make(a):
        host = (V6 if a["v6"] else V4)[a["host"] % (len(V6) if a["v6"] else len(V4))]
        return a["scheme"], host, a["port"], f"{a['scheme']}{host}:{a['port']}"

    def zero(host):
        return host == "0.0.0.0" or ("::" in host or host.count(":") == 7) and not host.strip("0:")
    (s1, h1, p1, remote), (s2, h2, p2, connect) = make(c["remote"]), make(c["connect"])
    for s, h, p, text in (make(c["remote"]), make(c["connect"])):
        v4, v6 = utils.is_v4_zero_ip(text), utils.is_v6_zero_ip(text)
        if v4 != (h == "0.0.0.0") or v6 != (":" in h and zero(h)) or utils.is_zero_ip(text) != zero(h):
            raise Violation(f"{text}: zero v4 {v4}, zero v6 {v6}, zero {utils.is_zero_ip(text)}")
        if utils.is_v6_ip(h) != (":" in h) or utils.is_v6_ip(s + h) != (":" in h):
            raise Violation(f"{h}: v6 {utils.is_v6_ip(h)}")
    want = f"{s2}{h2}:{p1}" if zero(h1) and not zero(h2) else remote
    got = utils.fix_all_zero_ip(remote, connect)
    if got != want:
        raise Violation(f"fix_all_zero_ip({remote!r}, {connect!r}) gave {got!r}, must be {want!r}")
    return {"nontrivial": got != remote, "labels": ["fixed" if got != remote else "kept"]}


def addresses_strat():
    a = st.fixed_dictionaries({"v6": st.booleans(), "host": st.integers(0, 10), "port": st.integers(1, 65535), "scheme": st.just("")})
    return st.fixed_dictionaries({"remote": a, "connect": a, "scheme": st.sampled_from(["", "", "ucx://", "test://"])}).map(
        lambda c: {"remote": {**c["remote"], "scheme": c["scheme"]}, "connect": {**c["connect"], "scheme": c["scheme"]}})


# ------------------------------------------------------------------ retries
class Err(Exception):
    pass


class SubErr(Err):
    pass


def retry_run(c):
    calls = []
    kinds = {"err": Err, "sub": SubErr, "other": ZeroDivisionError, "base": KeyboardInterrupt}

    def step(a, k):
        calls.append((a, k))
        i = len(calls) - 1
        f = c["fails"][i] if i < len(c["fails"]) else "ok"
        if f != "ok":
            raise kinds[f](i)
        return ("done", i)

    def plain(*a, **k):
        """the doc"""
        return step(a, k)

    async def co(*a, **k):
        """the doc"""
        await asyncio.sleep(0)
        return step(a, k)

    async def aw(a, k):
        return step(a, k)

    def future(*a, **k):
        """the doc"""
        return aw(a, k)
    f = {"plain": plain, "co": co, "future": future}[c["kind"]]
    kw = {} if c["ex"] is None else {"ex_type": {"err": Err, "tuple": (Err, ZeroDivisionError), "exception": Exception}[c["ex"]]}
    if c["kind"] == "future":
        kw["sync"] = False
    if c["max"] != -1:
        kw["max_retries"] = c["max"]
    g = utils.retry_callable(f, wait_interval=0, **kw)
    if g.__name__ != f.__name__ or g.__doc__ != "the doc":
        raise Violation(f"the wrapper is named {g.__name__}, {g.__doc__!r}")
    args, kwargs = ((1, "a"), {"k": 2})

    async def call():
        r = g(*args, **kwargs)
        return await r if c["kind"] != "plain" else r
    ex_type = kw.get("ex_type", Exception)
    want, n = None, 0
    while want is None:
        fail = c["fails"][n] if n < len(c["fails"]) else "ok"
        n += 1
        if fail == "ok":
            want = ("ok", ("done", n - 1))
        elif not issubclass(kinds[fail], ex_type) or n == c["max"]:
            want = ("raised", kinds[fail], n - 1)
    box = []

    async def outer():
        try:
            box.append(("ok", await call()))
        except BaseException as e:  # noqa: B036
            box.append(("raised", type(e), e.args[0]))
    run_async(outer, limit=20)
    if box[0] != want or len(calls) != n or any(x != (args, kwargs) for x in calls):
        raise Violation(f"ended with {box[0]} after {len(calls)} attempts, must be {want} after {n}; {c}")
    return {"nontrivial": n > 1, "labels": [c["kind"], "exhausted" if n == c["max"] and want[0] != "ok" else want[0]]}


def retry_strat():
    return st.fixed_dictionaries({"kind": st.sampled_from(["plain", "co", "future"]), "ex": st.sampled_from([None, "err", "tuple", "exception"]), "max": st.sampled_from([-1, 1, 2, 3, 5, 8]),
                                  "fails": st.lists(st.sampled_from(["err", "err", "sub", "other", "base", "ok", "err"]), max_size=9)})


# ------------------------------------------------------------------ lazy imports
FOLDER = None


def setup():
    global FOLDER
    FOLDER = tempfile.mkdtemp(prefix="vf-c30-")
    sys.path.insert(0, FOLDER)


def teardown():
    shutil.rmtree(FOLDER, ignore_errors=True)


def lazy_run(c):
    name = f"vf_lazy_{os.getpid()}_{next(COUNT)}"
    full = f"{name}.sub" if c["sub"] else name
    if c["exists"]:
        if c["sub"]:
            os.mkdir(os.path.join(FOLDER, name))
            open(os.path.join(FOLDER, name, "__init__.py"), "w").close()
            path = os.path.join(FOLDER, name, "sub.py")
        else:
            path = os.path.join(FOLDER, name + ".py")
        with open(path, "w") as f:
            f.write("LOADS = []\nvalue = 41\ndef func(x):\n    return x + 1\n")
        importlib.invalidate_caches()
    rename = c["rename"] and "other"
    key = rename or full
    g = {key: None} if c["in_globals"] else {"x": 1}
    loc = {} if c["locals"] else None
    kw = {"rename": rename} if rename else {}
    m = utils.lazy_import(full, globals=g, locals=loc, placeholder=c["placeholder"], **kw)
    ran = []
    try:
        if not c["exists"]:
            if c["placeholder"]:
                for f in (lambda: m.anything, lambda: m.func(1), lambda: m()):
                    try:
                        f()
                    except AttributeError as e:
                        if name not in str(e):
                            raise Violation(f"the error {e} does not name the module")
                    else:
                        raise Violation("a missing module could be used")
            elif m is not None:
                raise Violation(f"a missing module gave {m}")
            if utils.lazy_import_on_load(None)(len) is not len:
                raise Violation("the decorator changed the function")
            return {"labels": ["missing"]}
        if full in sys.modules:
            raise Violation("the module was imported at once")
        if c["in_globals"]:
            g[key] = m
        want, pending = [], []
        for n, s in enumerate(c["steps"]):
            if s == "handler":
                def h(n=n):
                    ran.append(n)
                if utils.lazy_import_on_load(m)(h) is not h:
                    raise Violation("the decorator changed the function")
                pending.append(n)
            elif s == "user":
                # a handler that uses the module
                def h(n=n):
                    ran.append(n)
                    ran.append(m.value)
                m.add_load_handler(h)
                pending.append((n, 41))
            elif s == "missing":
                try:
                    m.nothing
                except AttributeError:
                    pass
                else:
                    raise Violation("a missing attribute was found")
            else:
                if s == "call":
                    if m.func(4) != 5:
                        raise Violation("a function of the module gave another result")
                elif m.value != 41:
                    raise Violation("the module has another value")
                for p in pending:
                    want += p if isinstance(p, tuple) else [p]
                pending = []
                if c["in_globals"] and not isinstance(g[key], types.ModuleType):
                    raise Violation("the global was not replaced by the module")
                if not c["in_globals"] and (key in g or (loc is not None) != (key in (loc or {}))):
                    raise Violation(f"the module went to the wrong place: {sorted(g)} {loc}")
            if ran != want:
                raise Violation(f"load handlers ran {ran}, must be {want}; {c}")
        return {"nontrivial": bool(want), "labels": ["handlers"] if want else []}
    finally:
        for k in (full, name):
            sys.modules.pop(k, None)


def lazy_strat():
    return st.fixed_dictionaries({"exists": weighted((6, st.just(True)), (1, st.just(False))), "sub": st.booleans(), "rename": st.booleans(), "placeholder": st.booleans(), "in_globals": st.booleans(), "locals": st.booleans(),
                                  "steps": st.lists(st.sampled_from(["handler", "handler", "user", "missing", "value", "call"]), max_size=10)})


# ------------------------------------------------------------------ data classes with slots
def slots_run(c):
    def make(base=None, part=None):
        fields = []
        for f in part:
            n, d = f["name"], f["default"]
            fields.append((n, int) if d == "no" else (n, int, dataclasses.field(default=7)) if d == "value" else (n, list, dataclasses.field(default_factory=lambda: [1])))
        ns = {"total": lambda self: [getattr(self, f["name"]) for f in c["fields"]], "K": 5}
        return dataclasses.make_dataclass("Data", fields, bases=(base,) if base else (), namespace=ns, order=c["order"], module=__name__)
    # fields without a default come first
    rank = {"no": 0, "value": 1, "factory": 1}
    fields = sorted(({f["name"]: f for f in c["fields"]}).values(), key=lambda f: rank[f["default"]])
    c = dict(c, fields=fields)
    cut = c["cut"] % (len(fields) + 1) if c["inherit"] else 0
    if c["inherit"]:
        plain = make(make(None, fields[:cut]), fields[cut:])
        slotted = utils.dataslots(make(utils.dataslots(make(None, fields[:cut])), fields[cut:])) if not c["half"] else utils.dataslots(make(make(None, fields[:cut]), fields[cut:]))
    else:
        plain, slotted = make(None, fields), utils.dataslots(make(None, fields))
    globals()["Data"] = slotted
    need = [f["name"] for f in fields if f["default"] == "no"]
    vals = {n: v for n, v in zip([f["name"] for f in fields], c["values"])}
    for n in need:
        vals.setdefault(n, 0)
    try:
        p, s = plain(**vals), slotted(**vals)
        p2, s2 = plain(**vals), slotted(**vals)

        def same(a, b, what):
            if a != b:
                raise Violation(f"{what}: {b}, plain {a}; {c}")
        same(repr(p), repr(s), "repr")
        same(dataclasses.asdict(p), dataclasses.asdict(s), "fields")
        same([f.name for f in dataclasses.fields(p)], [f.name for f in dataclasses.fields(s)], "field names")
        same(p.total(), s.total(), "method")
        same(p.K, s.K, "class attribute")
        same(p == p2, s == s2, "equality")
        if not c["half"] and hasattr(s, "__dict__"):
            raise Violation("a slotted instance has a __dict__")
        for n, v in zip(vals, reversed(c["values"])):
            setattr(p, n, v)
            setattr(s, n, v)
        same(p == p2, s == s2, "equality after a change")
        if c["order"]:
            try:
                w = p < p2
            except TypeError:
                w = TypeError
            try:
                x = s < s2
            except TypeError:
                x = TypeError
            same(w, x, "order")
        if not c["half"]:
            try:
                s.unknown = 1
            except AttributeError:
                pass
            else:
                raise Violation("a slotted instance took an unknown attribute")
        for t in (pickle.loads(pickle.dumps(s)), copy.copy(s), copy.deepcopy(s), dataclasses.replace(s), deserialize(*serialize(s))):
            if t != s or type(t) is not slotted:
                raise Violation(f"a copy is {t}, original {s}")
    finally:
        globals().pop("Data", None)
    return {"nontrivial": len(fields) > 0, "labels": ["inherit"] if c["inherit"] else []}


def slots_strat():
    f = st.fixed_dictionaries({"name": st.sampled_from("abcdef"), "default": st.sampled_from(["no", "value", "factory"])})
    return st.fixed_dictionaries({"fields": st.lists(f, max_size=6), "order": st.booleans(), "inherit": st.booleans(), "half": st.booleans(), "cut": st.integers(0, 6),
                                  "values": st.lists(st.integers(0, 9), min_size=6, max_size=6)})


# ------------------------------------------------------------------ wrapped exceptions
class Custom(Exception):
    def __init__(self, a, b=2):
        super().__init__(a)
        self.a, self.b = a, b

    def twice(self):
        return self.a, self.a

    def __str__(self):
        return f"custom {self.a} {self.b}"


class Slotted(ValueError):
    __slots__ = ("x", "y")

    def __init__(self, x):
        self.x = x


class Mixin:
    mark = "mixin"

    def hello(self):
        return "hello"


EXC = [lambda v: ValueError(v), lambda v: KeyError(v), lambda v: OSError(2, v), lambda v: UnicodeDecodeError("utf-8", b"ab", 0, 1, v), lambda v: Custom(v, b=[v]), lambda v: Slotted(v),
       lambda v: StopIteration(v), lambda v: SyntaxError(v), lambda v: Exception(), lambda v: Exception(v, 1), lambda v: FileNotFoundError(2, v, "name")]
ATTRS = ["a", "b", "x", "errno", "strerror", "filename", "encoding", "object", "start", "reason", "value", "msg", "note"]


def wrap_run(c):
    exc = EXC[c["exc"]](c["v"])
    if c["note"]:
        exc.note = [c["v"]]
    cause = TypeError("cause") if c["cause"] else None
    try:
        try:
            if c["cause"] == "context":
                raise cause
            raise exc from cause
        except TypeError:
            raise exc
    except BaseException as e:  # noqa: B036
        tb = e.__traceback__
    bases = (Mixin,) if c["bases"] else None
    kw = {"bases": bases, "message": c["message"], "attr_dict": {"extra": 3, "shout": lambda self: str(self).upper()} if c["attrs"] else None, "wrap_name": "wrapped"}
    want_str = c["message"] or str(exc)
    w = utils.wrap_exception(exc, **kw)
    if w.__traceback__ is not tb or w.__wrapped__ is not exc or w.__context__ is not exc.__context__:
        raise Violation("traceback or context changed")
    forms = [w]
    if c["travel"]:
        forms.append(deserialize(*serialize(w)))
    for k, x in enumerate(forms):
        if not isinstance(x, type(exc)) or (bases and not isinstance(x, Mixin)) or type(x).__name__ != type(exc).__name__:
            raise Violation(f"a wrapped {type(exc)} is a {type(x).__mro__}")
        if x.args != exc.args or str(x) != want_str:
            raise Violation(f"wrapped: args {x.args} text {str(x)!r}, original {exc.args} {want_str!r}; {c}")
        for a in ATTRS:
            v, u = getattr(exc, a, "none"), getattr(x, a, "none")
            if v != u:
                raise Violation(f"{a} of the wrapped is {u!r}, original {v!r}; {c}")
        if hasattr(exc, "twice") and x.twice() != exc.twice():
            raise Violation("a method gave another result")
        if bases and (x.mark, x.hello()) != ("mixin", "hello"):
            raise Violation("the base does not work")
        if c["attrs"] and (x.extra != 3 or x.shout() != want_str.upper()):
            raise Violation("the given attributes do not work")
        if (x.__cause__ is None) != (exc.__cause__ is None) or type(x.__cause__) is not type(exc.__cause__):
            raise Violation(f"cause {x.__cause__!r}, original {exc.__cause__!r}")
        try:
            raise x
        except type(exc) as e:
            if e is not x:
                raise Violation("another exception was caught")
        text = "".join(traceback.format_exception(type(x), x, x.__traceback__))
        if not c["message"] and want_str.strip() and "\n" not in want_str and c["exc"] != 7 and want_str not in text:
            raise Violation(f"the traceback does not show {want_str!r}")
    return {"labels": [type(exc).__name__] + (["travel"] if c["travel"] else [])}


def wrap_strat():
    return st.fixed_dictionaries({"exc": st.integers(0, len(EXC) - 1), "v": st.sampled_from(["text", "", "é", "two\nlines", "x" * 50]), "note": st.booleans(), "cause": st.sampled_from([None, "cause", "context"]),
                                  "bases": st.booleans(), "attrs": st.booleans(), "message": st.sampled_from([None, None, "a message", ""]), "travel": st.booleans()})


SEARCHES = [
    Search("sizes", sizes_strat, sizes_run, quick=3000, thorough=200000, shards=1, rule=RULE),
    Search("texts", texts_strat, texts_run, quick=2000, thorough=100000, shards=1, rule=RULE),
    Search("addresses", addresses_strat, addresses_run, quick=3000, thorough=100000, shards=1, rule=RULE),
    Search("retry", retry_strat, retry_run, quick=2000, thorough=60000, shards=1, rule=RULE),
    Search("lazy", lazy_strat, lazy_run, setup=setup, teardown=teardown, quick=2000, thorough=50000, shards=1, rule=RULE),
    Search("slots", slots_strat, slots_run, quick=2000, thorough=50000, shards=1, rule=RULE),
    Search("wrap", wrap_strat, wrap_run, quick=2000, thorough=50000, shards=1, rule=RULE),
]
