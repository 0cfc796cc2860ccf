"""C02: arrays, sparse matrices, tables and tensors survive serialization."""
import asyncio
import io
import warnings

import cloudpickle
import numpy as np
import pandas as pd
import pyarrow as pa
import scipy.sparse as sps
import torch
from hypothesis import strategies as st

from vf.core import Search, Violation, run_async
from xoscar.aio import AioFileObject
from xoscar.serialization import AioDeserializer, AioSerializer, deserialize, serialize, serialize_with_spawn

warnings.simplefilter("ignore")
RULE = ("a case is a data object (dtype, shape, chain of view operations, class, values from a seed) with a way of driving "
        "the serializer and of nesting; non-trivial = at least one element and (non-contiguous, non-default dtype or subclass), "
        "or a zero-size corner; distinct by case content")
ASSUMPTIONS = ["CPU objects only", "writability of received buffers and the strides of non-contiguous originals are not claimed",
               "memory-mapped arrays may arrive as plain arrays; numpy dtype metadata is not claimed"]


class SubArr(np.ndarray):
    pass


class AttrArr(np.ndarray):
    def __new__(cls, a, info):
        o = np.asarray(a).view(cls)
        o.info = info
        return o

    def __array_finalize__(self, o):
        self.info = getattr(o, "info", None)

    def __reduce__(self):
        f, a, s = super().__reduce__()
        return f, a, (s, self.info)

    def __setstate__(self, s):
        super().__setstate__(s[0])
        self.info = s[1]


STRUCTS = [
    [("a", "<i4"), ("b", ">f8")], [("a", "u1"), ("b", "<U3"), ("c", "S2")],
    [("a", "<f4", (2,)), ("b", "<i2", (2, 2))], [("x", [("p", "<i4"), ("q", "<c8")]), ("y", "?")],
    {"names": ["a", "b"], "formats": ["<i4", "<f8"], "offsets": [4, 16], "itemsize": 32},
    {"names": ["a", "b", "c"], "formats": ["<i4", "<f8", "u1"], "offsets": [12, 0, 8], "itemsize": 20},
    {"names": ["a", "b"], "formats": ["<i4", "<i2"], "offsets": [0, 2], "itemsize": 4},
    [("a", "i1"), ("b", "f8")],  # aligned below
    [(("title", "a"), "<i4"), ("b", "<f4")],
]
DTYPES = ["?", "i1", "u1", "<i2", ">i2", "<i4", ">u4", "<i8", ">i8", "<u8", "<f2", ">f2", "<f4", ">f4", "<f8", ">f8", "g",
          "<c8", ">c8", "<c16", "G", "S0", "S1", "S7", "<U1", "<U5", ">U3", "V3", "V16",
          "<M8[ns]", "<M8[25s]", ">M8[D]", "<m8[us]", "<m8", "<M8", "O", "T"]


def mkdtype(d):
    if isinstance(d, int):
        s = STRUCTS[d]
        if isinstance(s, dict):
            return np.dtype(s)
        return np.dtype([tuple(x) if not isinstance(x[1], list) else (x[0], x[1]) for x in s], align=d == 7)
    if d == "O":
        return np.dtype(object)
    if d == "T":
        return np.dtypes.StringDType()
    return np.dtype(d)


def fill(dt, n, rng):
    if dt.kind == "O":
        pool = [None, 1, "x", 2.5, (1, 2), b"z", [1]]
        a = np.empty(n, object)
        for i in range(n):
            a[i] = pool[rng.randint(len(pool))]
        return a
    if dt.kind == "T":
        return np.array(["s" * int(k) for k in rng.randint(0, 30, n)], dtype=dt)
    if dt.names is not None:
        a = np.zeros(n, dt)
        for f in dt.names:
            sub = dt.fields[f][0]
            if sub.subdtype:
                base, shp = sub.subdtype
                a[f] = fill(base, n * int(np.prod(shp)), rng).reshape((n,) + shp)
            else:
                a[f] = fill(sub, n, rng)
        return a
    if dt.kind == "b":
        return rng.randint(0, 2, n).astype(dt)
    if dt.kind == "U":
        k = dt.itemsize // 4
        return np.array(["".join(chr(97 + int(c) % 1000) for c in rng.randint(0, 5000, rng.randint(0, k + 1))) for _ in range(n)], dtype=dt) if k else np.zeros(n, dt)
    if dt.kind in "fc" and dt.itemsize in (16, 32) and dt.char in "gG":
        return rng.standard_normal(n).astype(dt)
    return np.frombuffer(rng.bytes(n * dt.itemsize), dtype=dt, count=n).copy() if dt.itemsize and n else np.zeros(n, dt)


def build_array(c):
    dt = mkdtype(c["dt"])
    rng = np.random.RandomState(c["seed"])
    shape = tuple(c["shape"])
    n = int(np.prod(shape)) if shape else 1
    a = fill(dt, n, rng).reshape(shape)
    for op in c["ops"]:
        if op[0] == "T":
            axes = list(range(a.ndim))
            a = a.transpose(axes[::-1] if op[1] % 2 else axes[1:] + axes[:1])
        elif op[0] == "F":
            a = np.asfortranarray(a)
        elif op[0] == "slice" and a.ndim:
            sl = [slice(None)] * a.ndim
            sl[op[1] % a.ndim] = slice(op[2], op[3], op[4] or None)
            a = a[tuple(sl)]
        elif op[0] == "newaxis":
            a = np.expand_dims(a, op[1] % (a.ndim + 1))
        elif op[0] == "bcast":
            a = np.broadcast_to(a, (op[1] % 3,) + a.shape)
        elif op[0] == "ro":
            a = a.view()
            a.flags.writeable = False
        elif op[0] == "index" and a.ndim and a.shape[0]:
            b = a[op[1] % a.shape[0]]
            if isinstance(b, np.ndarray):
                a = b
        elif op[0] == "fields" and a.dtype.names:
            names = list(a.dtype.names)
            k = op[1] % len(names)
            names = names[k:] + names[:k]
            a = a[names[:1 + op[2] % len(names)]]
        elif op[0] == "field" and a.dtype.names:
            a = a[a.dtype.names[op[1] % len(a.dtype.names)]]
    cls = c["cls"]
    if cls == "masked" and a.dtype.kind not in "OT":
        mask = np.zeros(a.shape, np.ma.make_mask_descr(a.dtype))
        if a.dtype.names is None:
            mask = np.asarray(np.random.RandomState(c["seed"] + 1).randint(0, 2, a.shape), bool)
        return np.ma.array(a, mask=mask)
    if cls == "matrix" and a.ndim == 2 and a.dtype.names is None:
        return np.matrix(a)
    if cls == "rec" and a.dtype.names:
        return a.view(np.recarray)
    if cls == "sub":
        return a.view(SubArr)
    if cls == "attr":
        return AttrArr(a, {"k": c["seed"]})
    return a


def eq_values(x, y):
    """bitwise equality of values (padding excluded)"""
    if x.shape != y.shape:
        return False
    if x.dtype.names is not None:
        return all(eq_values(np.asarray(x[f]), np.asarray(y[f])) for f in x.dtype.names)
    if x.dtype.kind == "O":
        return all(type(p) is type(q) and p == q for p, q in zip(x.ravel().tolist(), y.ravel().tolist()))
    if x.dtype.kind in "TgG" or x.dtype.char in "gG":
        return bool(np.array_equal(x, y))
    return x.tobytes() == y.tobytes()


def eq_array(x, y, what):
    if type(x) is not type(y):
        raise Violation(f"{what}: {type(x).__name__} came back as {type(y).__name__}")
    xd = x.dtype
    if type(x) is not np.ndarray and xd != y.dtype:
        # numpy's own pickling makes subclasses native-endian
        xd = xd.newbyteorder("=")
        if xd == y.dtype.newbyteorder("="):
            xd = y.dtype
    if xd != y.dtype or xd.names != y.dtype.names or xd.itemsize != y.dtype.itemsize:
        raise Violation(f"{what}: dtype {x.dtype!r} came back as {y.dtype!r}")
    if x.shape != y.shape:
        raise Violation(f"{what}: shape {x.shape} came back as {y.shape}")
    if isinstance(x, np.ma.MaskedArray):
        if not np.array_equal(np.ma.getmaskarray(x), np.ma.getmaskarray(y)):
            raise Violation(f"{what}: mask changed")
        x0, y0 = np.asarray(x.data), np.asarray(y.data)
    else:
        x0, y0 = np.asarray(x), np.asarray(y)
    if xd is not x.dtype:
        x0 = x0.astype(y0.dtype)
    if not eq_values(x0, y0):
        raise Violation(f"{what}: values changed: {x0!r} -> {y0!r}"[:800])
    if isinstance(x, AttrArr) and x.info != y.info:
        raise Violation(f"{what}: attribute lost")
    if type(x) is np.ndarray and x.size and x.flags.f_contiguous and not x.flags.c_contiguous and not y.flags.f_contiguous:
        raise Violation(f"{what}: Fortran layout lost")


# ---- drivers -----------------------------------------------------------------
async def _spawn(o):
    h, b = await serialize_with_spawn(o, spawn_threshold=1)
    return deserialize(cloudpickle.loads(cloudpickle.dumps(h)), [bytes(memoryview(x).cast("B") if memoryview(x).nbytes else b"") for x in b])


def raw(x):
    m = memoryview(x)
    return m.tobytes()


async def _stream(o):
    bufs = await AioSerializer(o).run()
    data = b"".join(raw(b) for b in bufs)
    r = asyncio.StreamReader(limit=2 ** 22)
    r.feed_data(data)
    r.feed_eof()
    out = await AioDeserializer(r).run()
    if await r.read():
        raise Violation("bytes left over after deserialization")
    return out


async def _file(o):
    f = AioFileObject(io.BytesIO())
    for b in await AioSerializer(o).run():
        await f.write(b)
    await f.seek(0)
    return await AioDeserializer(f).run()


def transport(o, how):
    if how == "plain":
        h, b = serialize(o)
        return deserialize(cloudpickle.loads(cloudpickle.dumps(h)), [raw(x) for x in b])
    if how == "views":
        h, b = serialize(o)
        return deserialize(cloudpickle.loads(cloudpickle.dumps(h)), [memoryview(raw(x)) for x in b])
    return run_async({"spawn": _spawn, "stream": _stream, "file": _file}[how], o)


def nest(o, n):
    return {"none": o, "list": [o, 5, o], "dict": {"k": o, "l": [o]}, "tuple": ("a" * 2000, (o,), b"b" * 3000, o)}[n]


def unnest(r, n):
    if n == "none":
        return [r]
    if n == "list":
        ok = type(r) is list and len(r) == 3 and r[1] == 5
        out = [r[0], r[2]] if ok else None
    elif n == "dict":
        ok = type(r) is dict and list(r) == ["k", "l"]
        out = [r["k"], r["l"][0]] if ok else None
    else:
        ok = type(r) is tuple and len(r) == 4 and r[0] == "a" * 2000 and bytes(r[2]) == b"b" * 3000
        out = [r[1][0], r[3]] if ok else None
    if not ok or out[0] is not out[1]:
        raise Violation(f"container around the data changed: {type(r)}")
    return out[:1]


def run_np(c):
    a, twin = build_array(c), build_array(c)
    for out in unnest(transport(nest(a, c["nest"]), c["how"]), c["nest"]):
        eq_array(twin, out, c["how"])
    eq_array(twin, a, "the original after serializing")
    labs = [type(a).__name__, "kind:" + a.dtype.kind, "how:" + c["how"]]
    if a.size == 0:
        labs.append("empty")
    if not a.flags.c_contiguous and not a.flags.f_contiguous:
        labs.append("strided")
    return {"nontrivial": True, "labels": labs}


HOW = st.sampled_from(["plain", "views", "spawn", "stream", "file"])
NEST = st.sampled_from(["none", "none", "list", "dict", "tuple"])
OPS = st.lists(st.one_of(
    st.tuples(st.just("T"), st.integers(0, 1)), st.just(("F",)), st.just(("ro",)),
    st.tuples(st.just("slice"), st.integers(0, 3), st.one_of(st.none(), st.integers(-3, 3)), st.one_of(st.none(), st.integers(-3, 5)),
              st.sampled_from([1, 2, 3, -1, -2, None])),
    st.tuples(st.just("newaxis"), st.integers(0, 3)), st.tuples(st.just("bcast"), st.integers(0, 2)),
    st.tuples(st.just("index"), st.integers(0, 3)),
    st.tuples(st.just("fields"), st.integers(0, 3), st.integers(0, 3)), st.tuples(st.just("field"), st.integers(0, 3))).map(list), max_size=3)


def strat_np():
    return st.fixed_dictionaries({
        "dt": st.one_of(st.sampled_from(DTYPES), st.integers(0, len(STRUCTS) - 1)),
        "shape": st.lists(st.sampled_from([0, 1, 1, 2, 3, 5]), max_size=4), "ops": OPS, "seed": st.integers(0, 999),
        "cls": st.sampled_from(["nd"] * 6 + ["masked", "matrix", "rec", "sub", "attr"]), "how": HOW, "nest": NEST})


# ---- pandas / arrow ----------------------------------------------------------
def build_series(kind, n, rng):
    idx = rng.randint(0, 5, n)
    if kind == "f":
        a = rng.standard_normal(n)
        a[idx == 0] = np.nan
        return pd.Series(a)
    if kind == "i":
        return pd.Series(rng.randint(-9, 9, n), dtype="int32")
    if kind == "o":
        return pd.Series([["x", None, 3, (1, 2), b"q"][i] for i in idx], dtype=object)
    if kind == "str":
        return pd.Series([["x", None, "yyy", "\u4e2d", ""][i] for i in idx], dtype="str")
    if kind == "cat":
        return pd.Series(pd.Categorical(["abcde"[i] for i in idx], categories=list("edcbaz"), ordered=True))
    if kind == "tz":
        return pd.Series(pd.to_datetime(rng.randint(0, 2 ** 40, n), utc=True).tz_convert("Asia/Tokyo"))
    if kind == "td":
        return pd.Series(pd.to_timedelta(rng.randint(0, 2 ** 40, n)))
    if kind == "Int64":
        return pd.Series([None if i == 0 else int(i) for i in idx], dtype="Int64")
    if kind == "bool":
        return pd.Series([None if i == 0 else bool(i % 2) for i in idx], dtype="boolean")
    if kind == "period":
        return pd.Series(pd.PeriodIndex(ordinal=np.asarray(rng.randint(0, 500, n), "i8"), freq="M") if False else pd.period_range("2020-01", periods=n, freq="M"))
    if kind == "interval":
        return pd.Series(pd.arrays.IntervalArray.from_arrays(np.arange(n), np.arange(n) + 1))
    return pd.Series(pd.arrays.SparseArray(np.where(idx > 2, idx, 0)))


SER = ["f", "i", "o", "str", "cat", "tz", "td", "Int64", "bool", "period", "interval", "sparse"]


def build_pd(c):
    rng = np.random.RandomState(c["seed"])
    n = c["n"]
    cols = [build_series(k, n, rng) for k in c["cols"]]
    if c["obj"] == "series":
        s = cols[0].rename(c["seed"] % 2 and "nm" or None)
        o = s
    elif c["obj"] == "frame":
        o = pd.DataFrame({f"c{i}": s for i, s in enumerate(cols)})
        if c["dupcol"] and len(cols) > 1:
            o.columns = ["c"] * len(cols)
    elif c["obj"] == "index":
        return pd.Index(cols[0], name="ix")
    elif c["obj"] == "multi":
        return pd.MultiIndex.from_arrays([s for s in cols], names=[f"l{i}" for i in range(len(cols))])
    else:
        df = pd.DataFrame({f"c{i}": s for i, s in enumerate(cols) if c["cols"][i] in ("f", "i", "str", "Int64", "bool", "td", "tz")})
        tb = pa.Table.from_pandas(df)
        tb = tb.append_column("lst", pa.array([[i, None] if i % 2 else None for i in range(n)], pa.list_(pa.int16())))
        tb = tb.append_column("dic", pa.array(["a" if i % 2 else None for i in range(n)]).dictionary_encode())
        tb = tb.append_column("st", pa.array([{"p": i, "q": "z"} for i in range(n)], pa.struct([("p", pa.int64()), ("q", pa.string())])))
        if c["slice"]:
            tb = tb.slice(1, max(0, n - 2))
        if c["obj"] == "batch":
            b = tb.combine_chunks().to_batches()
            return b[0] if b else pa.RecordBatch.from_pandas(df)
        if c["obj"] == "chunked":
            return tb.column(0)
        return pa.concat_tables([tb, tb]) if c["dupcol"] else tb
    if c["slice"] and n > 2:
        o = o.iloc[::-2]
    if c["mi"] and n:
        o = o.copy()
        o.index = pd.MultiIndex.from_arrays([range(len(o)), list("ab" * len(o))[:len(o)]])
    return o


def eq_pd(x, y, what):
    if type(x) is not type(y):
        raise Violation(f"{what}: {type(x).__name__} came back as {type(y).__name__}")
    try:
        if isinstance(x, pd.DataFrame):
            pd.testing.assert_frame_equal(x, y, check_exact=True, check_freq=True, check_index_type="exact")
        elif isinstance(x, pd.Series):
            pd.testing.assert_series_equal(x, y, check_exact=True, check_index_type="exact")
        elif isinstance(x, pd.Index):
            pd.testing.assert_index_equal(x, y, exact=True)
        elif isinstance(x, (pa.Table, pa.RecordBatch)):
            if not x.equals(y, check_metadata=True):
                raise AssertionError("arrow data differ")
        elif not x.equals(y):
            raise AssertionError("arrow data differ")
    except AssertionError as e:
        raise Violation(f"{what}: {e}"[:1500])


def run_pd(c):
    a, twin = build_pd(c), build_pd(c)
    for out in unnest(transport(nest(a, c["nest"]), c["how"]), c["nest"]):
        eq_pd(twin, out, c["how"])
    eq_pd(twin, a, "the original after serializing")
    return {"nontrivial": c["n"] > 0, "labels": [c["obj"]]}


def strat_pd():
    return st.fixed_dictionaries({
        "obj": st.sampled_from(["series", "frame", "frame", "index", "multi", "table", "batch", "chunked"]),
        "cols": st.lists(st.sampled_from(SER), min_size=1, max_size=4), "n": st.sampled_from([0, 1, 2, 5, 40]),
        "seed": st.integers(0, 99), "dupcol": st.booleans(), "slice": st.booleans(), "mi": st.booleans(), "how": HOW, "nest": NEST}
    ).map(lambda c: {**c, "cols": [k for k in c["cols"] if c["obj"] not in ("table", "batch", "chunked") or k in ("f", "i", "str", "Int64", "bool", "td", "tz")] or ["f"]}
          ).map(lambda c: {**c, "cols": [k if c["obj"] not in ("multi", "index") or k not in ("sparse", "interval", "o") else "i" for k in c["cols"]]})


# ---- sparse ------------------------------------------------------------------
def build_sp(c):
    rng = np.random.RandomState(c["seed"])
    m, n = c["shape"]
    dt = np.dtype(c["dt"])
    rows = [np.asarray(rng.randint(0, n, rng.randint(0, 4)) if n else [], "i8") for _ in range(m)]
    if c["canon"]:
        rows = [np.unique(r) for r in rows]
    indices = np.concatenate(rows + [np.zeros(0, "i8")]).astype(c["idx"])
    indptr = np.concatenate([[0], np.cumsum([len(r) for r in rows])]).astype(c["idx"])
    data = fill(dt, len(indices), rng) if dt.kind != "c" else (rng.randint(0, 9, len(indices)) * (1 + 2j)).astype(dt)
    if c["zeros"]:
        data = data.copy()
        data[::2] = 0
    o = sps.csr_matrix((data, indices, indptr), shape=(m, n))
    f = c["fmt"]
    if f == "csr":
        return o
    if f == "csr_array":
        return sps.csr_array(o)
    return o.asformat(f)


def run_sp(c):
    a, twin = build_sp(c), build_sp(c)
    for y in unnest(transport(nest(a, c["nest"]), c["how"]), c["nest"]):
        x = twin
        if type(x) is not type(y) or x.dtype != y.dtype or x.shape != y.shape:
            raise Violation(f"{x!r} came back as {y!r}")
        if c["fmt"].startswith("csr") or c["fmt"] == "csc":
            for f in ("data", "indices", "indptr"):
                eq_array(getattr(x, f), getattr(y, f), f)
            if bool(x.has_sorted_indices) != bool(y.has_sorted_indices) or bool(x.has_canonical_format) != bool(y.has_canonical_format):
                raise Violation("sortedness flags changed")
        if dt_ok(c) and not np.array_equal(x.toarray(), y.toarray(), equal_nan=x.dtype.kind in "fc"):
            raise Violation("dense values differ")
        if c["canon"] and dt_ok(c) and c["shape"][0] and c["shape"][1] and x.dtype.kind != "b":
            v = np.ones(c["shape"][1], x.dtype)
            if not np.array_equal(x @ v, y @ v, equal_nan=True):
                raise Violation("product with the received matrix differs")
    return {"nontrivial": a.nnz > 0, "labels": [c["fmt"], "canon" if c["canon"] else "raw"]}


def dt_ok(c):
    return True


def strat_sp():
    return st.fixed_dictionaries({
        "shape": st.tuples(st.sampled_from([0, 1, 2, 5, 9]), st.sampled_from([0, 1, 3, 7])).map(list),
        "dt": st.sampled_from(["<f8", "<f4", "<i4", "i1", "?", "<c16", "<u8"]), "idx": st.sampled_from(["<i4", "<i8"]),
        "canon": st.booleans(), "zeros": st.booleans(), "seed": st.integers(0, 999),
        "fmt": st.sampled_from(["csr", "csr", "csr", "csr_array", "csc", "coo", "lil"]), "how": HOW, "nest": NEST})


# ---- torch -------------------------------------------------------------------
TD = ["float32", "float64", "float16", "bfloat16", "int8", "uint8", "int16", "int32", "int64", "bool", "complex64", "complex128",
      "uint16", "uint32", "float8_e4m3fn", "complex32"]


def bits(t):
    t = t.detach()
    t = t.contiguous().resolve_conj().resolve_neg().reshape(-1)
    t = torch.empty(t.numel(), dtype=t.dtype).copy_(t)
    return t.view(torch.uint8).numpy().tobytes()


def build_torch(c):
    rng = np.random.RandomState(c["seed"])
    dt = getattr(torch, c["dt"])
    shape = tuple(c["shape"])
    n = int(np.prod(shape)) if shape else 1
    isz = torch.empty(0, dtype=dt).element_size()
    if dt is torch.bool:
        t = torch.tensor(rng.randint(0, 2, n).tolist(), dtype=torch.bool) if n else torch.empty(0, dtype=dt)
    else:
        t = torch.frombuffer(bytearray(rng.bytes(n * isz)), dtype=dt).clone() if n else torch.empty(0, dtype=dt)
    t = t.reshape(shape)
    for op in c["ops"]:
        if op[0] == "t" and t.dim() > 1:
            t = t.transpose(0, -1)
        elif op[0] == "step" and t.dim():
            t = t[..., ::2]
        elif op[0] == "narrow" and t.dim() and t.shape[0]:
            t = t[1:]
        elif op[0] == "expand":
            t = t.expand((2,) + tuple(t.shape))
        elif op[0] == "conj" and t.is_complex():
            t = t.conj()
        elif op[0] == "imag" and t.is_complex() and dt is not torch.complex32:
            t = t.imag
        elif op[0] == "cl" and t.dim() == 4:
            t = t.contiguous(memory_format=torch.channels_last)
    if c["cls"] == "param" and (t.is_floating_point() or t.is_complex()) and c["dt"] not in ("float8_e4m3fn", "complex32"):
        return torch.nn.Parameter(t.clone(), requires_grad=c["grad"])
    if c["cls"] == "sparse" and c["dt"] in ("float32", "float64", "int64"):
        return torch.nan_to_num(t).to_sparse()
    if c["grad"] and (t.is_floating_point() or t.is_complex()):
        t = t.detach().requires_grad_(True)
    return t


def run_torch(c):
    a, twin = build_torch(c), build_torch(c)
    for y in unnest(transport(nest(a, c["nest"]), c["how"]), c["nest"]):
        x = twin
        if type(x) is not type(y) or x.dtype != y.dtype or x.shape != y.shape or x.layout != y.layout:
            raise Violation(f"{type(x).__name__} {x.dtype} {tuple(x.shape)} {x.layout} came back as {type(y).__name__} {y.dtype} {tuple(y.shape)} {y.layout}")
        if x.requires_grad != y.requires_grad:
            raise Violation("requires_grad changed")
        if x.layout is torch.sparse_coo:
            x, y = x.to_dense(), y.to_dense()
        if bits(x) != bits(y):
            raise Violation(f"values changed: {x!r} -> {y!r}"[:800])
    x, y = (t.to_dense() if t.layout is torch.sparse_coo else t for t in (twin, a))
    if bits(x) != bits(y) or twin.requires_grad != a.requires_grad:
        raise Violation("serializing altered the tensor")
    return {"nontrivial": a.numel() > 0 or bool(c["ops"]), "labels": [c["dt"], type(a).__name__, "0d" if a.dim() == 0 else "nd"]}


def strat_torch():
    return st.fixed_dictionaries({
        "dt": st.sampled_from(TD), "shape": st.lists(st.sampled_from([0, 1, 2, 3, 4]), max_size=4),
        "ops": st.lists(st.sampled_from([["t"], ["step"], ["narrow"], ["expand"], ["conj"], ["imag"], ["cl"]]), max_size=2),
        "cls": st.sampled_from(["t", "t", "t", "param", "sparse"]), "grad": st.booleans(), "seed": st.integers(0, 999),
        "how": HOW, "nest": NEST})


SEARCHES = [
    Search("numpy", strat_np, run_np, quick=14000, thorough=400000, shards=4, rule="array: dtype x shape x views x class"),
    Search("tables", strat_pd, run_pd, quick=2400, thorough=60000, shards=2, rule="pandas and arrow objects"),
    Search("sparse", strat_sp, run_sp, quick=3000, thorough=60000, shards=1, rule="scipy sparse matrices"),
    Search("torch", strat_torch, run_torch, quick=5000, thorough=150000, shards=1, rule="tensors: dtype x shape x views x class"),
]
