"""JSON specs of Python object graphs, their builder and an isomorphism test.

A spec is {"n": [node, ...], "r": root}; node = [kind, payload...]; children are
indexes of earlier nodes, so that any spec builds; "back" edges added afterwards
([src, dst] pairs) make cycles, only where the whole cycle runs through lists and
dict values (other cycles cannot be built by a deserializer working bottom-up)."""
from __future__ import annotations

import collections
import dataclasses
import datetime
import decimal
import enum
import fractions
import math
import pathlib
import uuid

import numpy as np
from hypothesis import strategies as st


# ---- classes whose instances appear in graphs ------------------------------
class Color(enum.Enum):
    RED = 1
    BLUE = "b"


class Level(enum.IntEnum):
    LOW = 1
    HIGH = 7


class Tag(str, enum.Enum):
    X = "x-tag"
    Y = "y-tag"


class Perm(enum.Flag):
    R = 1
    W = 2


class SubStr(str):
    pass


class SubBytes(bytes):
    pass


class SubInt(int):
    pass


class SubFloat(float):
    pass


class SubList(list):
    pass


class SubTuple(tuple):
    pass


class SubDict(dict):
    pass


class NoArgDict(dict):
    def __init__(self):
        super().__init__()


NT2 = collections.namedtuple("NT2", "left right")


@dataclasses.dataclass
class Point:
    x: object
    y: object


class Plain:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Slotted:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b


class MyErr(Exception):
    def __init__(self, code, msg=""):
        super().__init__(code, msg)
        self.code = code


# a user type with its own serializer, see checks/c01
class Tree:
    def __init__(self, label, kids):
        self.label, self.kids = label, kids


class SubTree(Tree):
    pass


class Loose:
    """serialized without registering itself, through temporary sub-objects"""

    def __init__(self, items):
        self.items = items


class Blob:
    def __init__(self, parts):
        self.parts = parts


SCALARS = {
    "none": lambda p: None, "bool": bool, "ell": lambda p: Ellipsis,
    "nan": lambda p: math.nan, "inf": lambda p: math.inf if p else -math.inf,
    "negzero": lambda p: -0.0,
    "dt": lambda p: datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=p),
    "dttz": lambda p: datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone(datetime.timedelta(minutes=p % 1400))),
    "date": lambda p: datetime.date.fromordinal(1 + abs(p) % 3000000),
    "td": lambda p: datetime.timedelta(microseconds=p),
    "complex": lambda p: complex(p, -p / 3),
    "npdtype": lambda p: np.dtype(["i4", ">f8", "U7", "M8[ns]", [("a", "u1"), ("b", "f4")]][p % 5]),
    "npscalar": lambda p: [np.int8(p % 100), np.float32(p), np.uint64(abs(p)), np.complex64(p), np.bool_(p % 2),
                           np.datetime64(abs(p), "s"), np.str_("s%d" % p), np.bytes_(b"b%d" % p)][p % 8],
    "builtin": lambda p: [len, max, print, math.sin][p % 4],
    "type": lambda p: [int, dict, Point, np.ndarray, type(None)][p % 5],
    "color": lambda p: list(Color)[p % 2], "level": lambda p: list(Level)[p % 2],
    "tag": lambda p: list(Tag)[p % 2], "perm": lambda p: [Perm.R, Perm.W, Perm.R | Perm.W][p % 3],
    "dec": lambda p: decimal.Decimal(p) / 7, "frac": lambda p: fractions.Fraction(p, 7),
    "uuid": lambda p: uuid.UUID(int=abs(p)), "range": lambda p: range(p % 9, p % 50, 2),
    "slice": lambda p: slice(p, None, 3), "path": lambda p: pathlib.PurePosixPath(f"/a/{p}"),
    "substr": lambda p: SubStr("s%d" % p), "subbytes": lambda p: SubBytes(b"b%d" % p),
    "subint": SubInt, "subfloat": SubFloat,
}

BYTES_KINDS = ("bytes", "bytearray", "memoryview")


def mkstr(n, salt, alpha):
    base = {"a": "abcdefgh", "u": "ab\u00e9\u4e2d\U0001f600z\u0000\n", "s": "q\ud800w\udfff"}[alpha]
    s = base * (n // len(base) + 1)
    s = s[salt % len(base):] + s
    return s[:n]


def mkbytes(n, salt):
    if n == 0:
        return b""
    unit = bytes((salt * 7 + i * 31) % 256 for i in range(min(n, 251)))
    return (unit * (n // len(unit) + 1))[:n]


class Graph:
    """The objects built from one spec."""

    def __init__(self, spec):
        nodes = spec["n"]
        self.objs = objs = []
        for node in nodes:
            objs.append(self.make(node))
        self.cyclic = 0
        for src, dst in spec.get("back", ()):
            if self._pure_path(nodes, spec, dst, src):
                s, d = objs[src], objs[dst]
                if type(s) is list or type(s) is SubList:
                    s.append(d)
                else:
                    s[("back", dst)] = d
                self.cyclic += 1
        self.root = objs[spec["r"]]

    @staticmethod
    def _pure_path(nodes, spec, dst, src):
        """True when adding src->dst makes no cycle through anything but lists/dicts."""
        ok = ("list", "sublist", "dict", "odict", "subdict")
        if nodes[src][0] not in ok:
            return False
        # back edges only to later-or-equal nodes; which of those lie on a cycle?
        # conservatively: every node from which src is reachable must be pure
        edges = {i: list(kids(n)) for i, n in enumerate(nodes)}
        for a, b in spec.get("back", ()):
            edges[a].append(b)
        seen, todo = {dst}, [dst]
        while todo:
            for k in edges[todo.pop()]:
                if k not in seen:
                    seen.add(k)
                    todo.append(k)
        if src not in seen:
            return True
        rev = collections.defaultdict(list)
        for a, ks in edges.items():
            for k in ks:
                rev[k].append(a)
        back, todo = {src}, [src]
        while todo:
            for k in rev[todo.pop()]:
                if k not in back:
                    back.add(k)
                    todo.append(k)
        return all(nodes[i][0] in ok for i in seen & back)

    def make(self, node):
        kind = node[0]
        o = self.objs
        if kind in SCALARS:
            return SCALARS[kind](node[1])
        if kind == "int":
            return int(node[1])
        if kind == "float":
            return float(node[1])
        if kind == "str":
            return mkstr(*node[1:])
        if kind == "bytes":
            return mkbytes(*node[1:])
        if kind == "bytearray":
            return bytearray(mkbytes(*node[1:]))
        if kind == "memoryview":
            return memoryview(mkbytes(*node[1:]))
        c = [o[i] for i in node[1]]
        if kind == "list":
            return c
        if kind == "sublist":
            return SubList(c)
        if kind == "tuple":
            return tuple(c)
        if kind == "subtuple":
            return SubTuple(c)
        if kind == "nt":
            return NT2(c[0], c[1]) if len(c) > 1 else NT2(1, 2)
        if kind in ("dict", "odict", "subdict", "noargdict", "defaultdict", "counter"):
            keys = [hkey(k) for k in node[2]]
            items = list(dict(zip(keys, c)).items())
            if kind == "dict":
                return dict(items)
            if kind == "odict":
                return collections.OrderedDict(items)
            if kind == "subdict":
                return SubDict(items)
            if kind == "defaultdict":
                return collections.defaultdict(list, items)
            if kind == "counter":
                return collections.Counter({k: i + 1 for i, (k, _) in enumerate(items)})
            d = NoArgDict()
            d.update(items)
            return d
        if kind == "set":
            return {hkey(k) for k in node[2]}
        if kind == "frozenset":
            return frozenset(hkey(k) for k in node[2])
        if kind == "deque":
            return collections.deque(c, maxlen=10 + len(c))
        if kind == "point":
            return Point(c[0] if c else 0, c[1:] if c else [])
        if kind == "plain":
            return Plain(**{f"f{i}": x for i, x in enumerate(c)})
        if kind == "slotted":
            return Slotted(c[0] if c else None, c[-1] if c else None)
        if kind == "exc":
            return MyErr(c[0] if c else 3, "m") if len(c) < 2 else ValueError(*c)
        if kind == "tree":
            return Tree(f"t{len(c)}", c)
        if kind == "subtree":
            return SubTree(f"s{len(c)}", c)
        if kind == "loose":
            return Loose(c)
        if kind == "blob":
            return Blob([mkbytes(n, i) for i, n in enumerate(node[2])])
        raise ValueError(kind)


def kids(node):
    if node[0] in SCALARS or node[0] in BYTES_KINDS or node[0] in ("int", "float", "str"):
        return ()
    return node[1]


def hkey(k):
    """hashable key from JSON: scalars as they are, lists become tuples, dicts select kinds"""
    if isinstance(k, list):
        return tuple(hkey(x) for x in k)
    if isinstance(k, dict):
        (kind, p), = k.items()
        if kind == "str":
            return mkstr(*p)
        if kind == "bytes":
            return mkbytes(*p)
        return SCALARS[kind](p)
    return k


# ---- isomorphism ------------------------------------------------------------
class Different(Exception):
    pass


#: kinds of objects whose sharing the statement covers
def tracked(x):
    return isinstance(x, (list, dict, Tree)) or (isinstance(x, tuple) and len(x) > 0)


def _opaque(x):
    """pickled as one unit: sharing inside is pickle's business, with outside is lost"""
    return isinstance(x, (set, frozenset, collections.deque, Point, Plain, Slotted,
                          BaseException, NoArgDict, collections.Counter))


def isomorphic(a, b, sharing=True):
    """Raises Different unless b is a copy of a (types, values, order, sharing)."""
    fwd, bwd, keep = {}, {}, []
    done = set()
    stack = [(a, b, "", sharing)]

    while stack:
        x, y, path, share = stack.pop()
        if isinstance(x, memoryview):
            if bytes(x) != bytes(y):
                raise Different(f"{path}: bytes differ")
            continue
        if type(x) is bytes:
            if not isinstance(y, (bytes, bytearray, memoryview)) or bytes(y) != x:
                raise Different(f"{path}: {short(x)} became {short(y)}")
            continue
        if type(x) is not type(y):
            raise Different(f"{path}: type {type(x).__name__} became {type(y).__name__} ({short(x)} -> {short(y)})")
        if share and tracked(x):
            if id(x) in fwd:
                if fwd[id(x)] is not y:
                    raise Different(f"{path}: one object became two")
            elif id(y) in bwd:
                raise Different(f"{path}: two objects became one ({short(x)})")
            else:
                fwd[id(x)] = y
                bwd[id(y)] = x
                keep.append((x, y))
        if (id(x), id(y)) in done:
            continue
        done.add((id(x), id(y)))
        keep.append((x, y))
        if isinstance(x, dict):
            if isinstance(x, collections.defaultdict) and x.default_factory != y.default_factory:
                raise Different(f"{path}: default factory lost")
            if isinstance(x, SubDict) or True:
                if len(x) != len(y):
                    raise Different(f"{path}: {len(x)} items became {len(y)}")
            for (k1, v1), (k2, v2) in zip(x.items(), y.items()):
                stack.append((k1, k2, path + ".key", False))
                stack.append((v1, v2, path + f"[{short(k1)}]", share and not _opaque(x)))
        elif isinstance(x, (list, tuple)):
            if len(x) != len(y):
                raise Different(f"{path}: length {len(x)} became {len(y)}")
            for i, (v1, v2) in enumerate(zip(x, y)):
                stack.append((v1, v2, path + f"[{i}]", share))
        elif isinstance(x, collections.deque):
            if x.maxlen != y.maxlen or len(x) != len(y):
                raise Different(f"{path}: deque differs")
            for i, (v1, v2) in enumerate(zip(x, y)):
                stack.append((v1, v2, path + f"[{i}]", False))
        elif isinstance(x, (set, frozenset)):
            if x != y or sorted(map(reprkey, x)) != sorted(map(reprkey, y)):
                raise Different(f"{path}: set {short(x)} became {short(y)}")
        elif isinstance(x, (Point, Plain, Tree)):
            stack.append((list(vars(x).items()), list(vars(y).items()), path + ".", False)
                         if not isinstance(x, Tree) else (x.label, y.label, path + ".label", False))
            if isinstance(x, Tree):
                if len(x.kids) != len(y.kids):
                    raise Different(f"{path}: kids")
                for i, (v1, v2) in enumerate(zip(x.kids, y.kids)):
                    stack.append((v1, v2, path + f".kids[{i}]", share))
        elif isinstance(x, Slotted):
            stack.append((x.a, y.a, path + ".a", False))
            stack.append((x.b, y.b, path + ".b", False))
        elif isinstance(x, Loose):
            if len(x.items) != len(y.items):
                raise Different(f"{path}: items")
            for i, (v1, v2) in enumerate(zip(x.items, y.items)):
                stack.append((v1, v2, path + f".items[{i}]", share))
        elif isinstance(x, Blob):
            stack.append((x.parts, y.parts, path + ".parts", False))
        elif isinstance(x, BaseException):
            stack.append((x.args, y.args, path + ".args", False))
            stack.append((vars(x), vars(y), path + ".vars", False))
        elif isinstance(x, float) and not isinstance(x, np.generic):
            if not (x == y or (math.isnan(x) and math.isnan(y))) or math.copysign(1, x) != math.copysign(1, y):
                raise Different(f"{path}: {x!r} became {y!r}")
        elif isinstance(x, datetime.datetime):
            if x != y or x.tzinfo != y.tzinfo:
                raise Different(f"{path}: {x!r} became {y!r}")
        elif isinstance(x, str):
            if x != y:
                raise Different(f"{path}: str of {len(x)} became {short(y)}")
        else:
            if not (x == y):
                raise Different(f"{path}: {short(x)} became {short(y)}")


def reprkey(x):
    return f"{type(x).__name__}:{x!r}"


def short(x):
    try:
        r = repr(x) if not isinstance(x, (list, tuple, dict)) or len(x) < 20 else f"<{type(x).__name__} of {len(x)}>"
    except Exception:
        r = object.__repr__(x)
    return r.encode("ascii", "backslashreplace").decode()[:120]


# ---- strategies -------------------------------------------------------------
LENS = st.one_of(st.integers(0, 12), st.sampled_from([1022, 1023, 1024, 1025, 1026, 2048, 5000]))
scalar_nodes = st.one_of(
    st.sampled_from(sorted(SCALARS)).flatmap(lambda k: st.tuples(st.just(k), st.integers(-10**12, 10**12).map(
        lambda p: p % 1000 if k in ("range", "type", "builtin", "subint", "subfloat", "slice", "dttz", "perm", "color", "level", "tag") else p))),
    st.tuples(st.just("int"), st.one_of(st.integers(-300, 300), st.integers(-2**70, 2**70)).map(str)),
    st.tuples(st.just("float"), st.floats(allow_nan=False, allow_infinity=False)),
    st.tuples(st.just("str"), LENS, st.integers(0, 7), st.sampled_from("aaauus")),
    st.tuples(st.sampled_from(["bytes", "bytes", "bytearray", "memoryview"]), LENS, st.integers(0, 9)),
).map(list)
key_specs = st.recursive(
    st.one_of(st.integers(-5, 20), st.text("abcxyz", max_size=3), st.booleans(), st.none(),
              st.fixed_dictionaries({}).flatmap(lambda _: st.one_of(
                  st.tuples(LENS, st.integers(0, 7), st.sampled_from("au")).map(lambda t: {"str": list(t)}),
                  st.tuples(LENS, st.integers(0, 9)).map(lambda t: {"bytes": list(t)}),
                  st.integers(0, 3).map(lambda p: {"tag": p}), st.integers(0, 99).map(lambda p: {"dt": p}),
                  st.integers(0, 99).map(lambda p: {"substr": p})))),
    lambda inner: st.lists(inner, max_size=2), max_leaves=3)
CONTAINERS = ["list", "list", "list", "tuple", "dict", "dict", "sublist", "subtuple", "nt", "odict", "subdict",
              "defaultdict", "counter", "noargdict", "set", "frozenset", "deque", "point", "plain", "slotted",
              "exc", "tree", "tree", "subtree", "loose", "loose", "blob"]
PLAIN_CONTAINERS = [c for c in CONTAINERS if c not in ("tree", "subtree", "loose", "blob")]


@st.composite
def graphs(draw, max_nodes=14, containers=CONTAINERS, cycles=True):
    n = draw(st.integers(1, max_nodes))
    nodes = []
    for i in range(n):
        if i == 0 or draw(st.integers(0, 99)) < 40:
            if draw(st.integers(0, 9)) < 3:
                # an empty container is a leaf too
                nodes.append([draw(st.sampled_from(["list", "dict", "tuple", "noargdict", "odict", "sublist", "tree"
                                                    if "tree" in containers else "list"])), [], []])
            else:
                nodes.append(draw(scalar_nodes))
        else:
            kind = draw(st.sampled_from(containers))
            ch = draw(st.lists(st.integers(0, i - 1), max_size=5))
            if kind in ("dict", "odict", "subdict", "defaultdict", "counter", "noargdict", "set", "frozenset"):
                keys = draw(st.lists(key_specs, min_size=len(ch), max_size=len(ch)))
                nodes.append([kind, ch, keys])
            elif kind == "blob":
                nodes.append([kind, [], draw(st.lists(st.integers(0, 40), max_size=3))])
            else:
                nodes.append([kind, ch])
    # the root refers to several nodes, so that sharing is reachable
    if n > 1 and draw(st.booleans()):
        nodes.append(["list", draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=6))])
    spec = {"n": nodes, "r": len(nodes) - 1}
    if cycles:
        lists = [i for i, x in enumerate(nodes) if x[0] in ("list", "sublist", "dict", "odict", "subdict")]
        if lists and draw(st.booleans()):
            spec["back"] = draw(st.lists(st.tuples(st.sampled_from(lists), st.integers(0, len(nodes) - 1)).map(list),
                                         max_size=3))
    return spec


@st.composite
def wide(draw):
    """a list of many small nodes: crosses the spawn threshold of the async serializers"""
    m = draw(st.sampled_from([20, 95, 98, 99, 100, 101, 102, 150, 400]))
    kind = draw(st.sampled_from(["list", "tuple", "dict"]))
    base = draw(st.lists(st.sampled_from([["list", [], []], ["dict", [], []], ["str", 1024, 1, "a"], ["bytes", 1500, 2],
                                          ["tuple", [], []], ["set", [], [1, 2]]]), min_size=1, max_size=3))
    nodes = list(base)
    nb = len(base)
    for i in range(m):
        nodes.append(["list", [i % nb, max(0, len(nodes) - 1)] if draw(st.booleans()) else [i % nb]]
                     if i % 3 else ["dict", [i % nb], [i]])
    if kind == "dict":
        nodes.append(["dict", list(range(len(nodes))), list(range(len(nodes)))])
    else:
        nodes.append([kind, list(range(len(nodes)))])
    return {"n": nodes, "r": len(nodes) - 1}


def features(spec):
    """labels of a spec, for the coverage report"""
    labs = set()
    refs = collections.Counter(k for n in spec["n"] for k in kids(n))
    for i, n in enumerate(spec["n"]):
        labs.add(n[0])
        if refs[i] > 1 and n[0] in ("list", "dict", "tuple", "tree", "sublist", "odict"):
            labs.add("shared")
            if not kids(n):
                labs.add("shared-empty")
    if spec.get("back"):
        labs.add("back-edge")
    return labs
