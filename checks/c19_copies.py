"""C19: copy_to puts every byte of buffers and files at its place, or raises."""
import asyncio
import io
import itertools
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

import xoscar as mo
from vf.actors import Cluster
from vf.core import Search, Violation, bounded, run_async, weighted
from vf.realpool import RealPool
from xoscar.aio import AioFileObject

RULE = ("1-3 copies at the same time, each of 1-6 generated buffers (memory views, numpy arrays of several types and shapes, offsets into "
        "larger storage, destinations longer than the data) or 1-4 files (real files, in-memory ones, text ones, from a generated start position), "
        "from any pool to any pool, with a generated block size (none, 1, just around the sizes); one of them may be broken (destination "
        "released, too short, read only, closed, write error at the n-th write, source read error). Oracle: the bytes expected in every "
        "destination including those around it; a broken copy must raise and must not disturb the others. Non-trivial = a copy that "
        "spans several blocks or packs several buffers in one block, or a broken one")
ASSUMPTIONS = ["a source and its destination are of the same kind (memory view to memory view or byte array, array to array of the same type)",
               "different copies running at the same time have different destinations",
               "what a failed copy wrote before failing is not prescribed"]
TECHNIQUE = "property-based testing: generated copies and faults, oracle = expected content of all storage"
COUNT = itertools.count()
GUARD = 0xA5


class Flaky(io.BytesIO):
    def __init__(self, data=b"", fail_write=None, fail_read=None):
        super().__init__(data)
        self.nw = self.nr = 0
        self.fail_write, self.fail_read = fail_write, fail_read

    def write(self, b):
        self.nw += 1
        if self.fail_write is not None and self.nw > self.fail_write:
            raise OSError(28, "no space")
        return super().write(b)

    def read(self, n=-1):
        self.nr += 1
        if self.fail_read is not None and self.nr > self.fail_read:
            raise OSError(5, "input error")
        return super().read(n)


def content(seed, n):
    return np.random.RandomState(seed).bytes(n) if n else b""


DTYPES = {"view": "u1", "u1": "u1", "i4": "<i4", "f8": "<f8", "2d": "u1"}


def source_buffer(b, seed):
    data = content(seed, b["n"] * np.dtype(DTYPES[b["kind"]]).itemsize * (3 if b["kind"] == "2d" else 1))
    if b["kind"] == "view":
        store = bytearray(b"\xee" * b["pre"] + data + b"\xee" * 3)
        return memoryview(store)[b["pre"]:b["pre"] + len(data)], data
    a = np.frombuffer(bytearray(data), dtype=DTYPES[b["kind"]])
    if b["kind"] == "2d":
        a = a.reshape(-1, 3)
    if b["pre"] % 3 == 2 and b["kind"] != "2d":
        wide = np.zeros(len(a) * 2, dtype=a.dtype)
        wide[::2] = a
        a = wide[::2]
    return a, data


class Holder(mo.Actor):
    def __init__(self):
        self.sets = {}

    def make_buffers(self, key, specs, broken):
        refs, stores, live = [], [], []
        for i, b in enumerate(specs):
            item = np.dtype(DTYPES[b["kind"]]).itemsize * (3 if b["kind"] == "2d" else 1)
            fault = broken["how"] if broken and broken["at"] % len(specs) == i else None
            n = b["n"] + b["post"]
            if fault == "short":
                n = b["n"] - 1 - broken["n"] % b["n"] if b["n"] else 0
            total = (b["pre"] + n + 2) * item
            store = bytearray([GUARD]) * total
            raw = bytes(store) if fault == "readonly" else store
            if b["kind"] == "view":
                d = memoryview(raw)[b["pre"] * item:(b["pre"] + n) * item]
            else:
                d = np.frombuffer(raw, dtype=DTYPES[b["kind"]])
                if b["kind"] == "2d":
                    d = d.reshape(-1, 3)
                d = d[b["pre"]:b["pre"] + n]
            refs.append(mo.buffer_ref(self.address, d))
            stores.append(store)
            if fault != "gone":
                live.append(d)
            del d
        self.sets[key] = ("buffers", stores, live)
        return refs

    def make_files(self, key, specs, broken, folder):
        refs, files = [], []
        for i, b in enumerate(specs):
            fault = broken["how"] if broken and broken["at"] % len(specs) == i else None
            path = None
            if b["kind"] == "text":
                f = io.StringIO()
            elif b["kind"] == "memory" or fault == "write":
                f = Flaky(fail_write=broken["n"] % 3 if fault == "write" else None)
            else:
                path = os.path.join(folder, f"d{key}-{i}")
                open(path, "wb").close()
                f = open(path, "rb" if fault == "readonly" else "w+b", **({"buffering": 0} if b["pre"] % 2 else {}))
            pre = "é" * b["pre"] if b["kind"] == "text" else b"\xa5" * b["pre"]
            if f.writable() and fault != "write":
                f.write(pre)
            if fault == "closed":
                f.close()
            a = AioFileObject(f)
            refs.append(mo.file_object_ref(self.address, a))
            if fault != "gone":
                files.append((a, f, b["pre"]))
            else:
                f.close()
                files.append(None)
            del a
        self.sets[key] = ("files", files)
        return refs

    def content(self, key):
        s = self.sets.pop(key)
        if s[0] == "buffers":
            return [bytes(x) for x in s[1]]
        out = []
        for x in s[1]:
            if x is None:
                out.append(None)
                continue
            _, f, _ = x
            if f.closed or not f.readable():
                out.append(None)
                continue
            f.seek(0)
            out.append(f.read())
            f.close()
        return out

    async def send_buffers(self, specs, seed, refs, block):
        return await send_buffers(specs, seed, refs, block)

    async def send_files(self, specs, seed, refs, block, broken, folder):
        return await send_files(specs, seed, refs, block, broken, folder)


async def send_buffers(specs, seed, refs, block):
    bufs = [source_buffer(b, seed + i)[0] for i, b in enumerate(specs)]
    before = [bytes(x) if isinstance(x, memoryview) else x.tobytes() for x in bufs]
    err = None
    try:
        await mo.copy_to(bufs, refs, *([block] if block else []))
    except Exception as e:
        e.__traceback__ = None
        err = repr(e)[:500]
    after = [bytes(x) if isinstance(x, memoryview) else x.tobytes() for x in bufs]
    return err, before == after


def text_content(seed, n):
    return "".join("aé\u20ac\U0001f600"[i % 4] for i in content(seed, n))


async def send_files(specs, seed, refs, block, broken, folder):
    files = []
    for i, b in enumerate(specs):
        fault = broken["how"] if broken and broken["at"] % len(specs) == i else None
        if b["kind"] == "text":
            f = io.StringIO(text_content(seed + i, b["n"]))
        elif b["kind"] == "memory" or fault == "read":
            f = Flaky(content(seed + i, b["n"]), fail_read=broken["n"] % 3 if fault == "read" else None)
        else:
            path = os.path.join(folder, f"s{seed}-{i}-{next(COUNT)}-{os.getpid()}")
            with open(path, "wb") as g:
                g.write(content(seed + i, b["n"]))
            f = open(path, "rb", **({"buffering": 0} if b["pre"] % 2 else {}))
        if b["kind"] != "text":
            f.seek(min(b["skip"], b["n"]))
        files.append(f)
    err = None
    try:
        await mo.copy_to([AioFileObject(f) for f in files], refs, *([block] if block else []))
    except Exception as e:
        e.__traceback__ = None
        err = repr(e)[:500]
    for f in files:
        f.close()
    return err, True


FOLDER = None


async def scenario(c, addresses, tcp_pool=None):
    run = next(COUNT)
    holders = [await mo.create_actor(Holder, address=a, uid=f"h{i}-{run}") for i, a in enumerate(addresses)]
    interesting = False
    labels = set()

    async def one(k, p):
        nonlocal interesting
        key = f"{run}-{k}"
        dst = holders[p["to"] % len(holders)]
        broken = p["broken"]
        block = p["block"]
        seed = c["seed"] + 100 * k
        if p["files"]:
            refs = await dst.make_files(key, p["fs"], broken, FOLDER)
            args = (p["fs"], seed, refs, block, broken, FOLDER)
            send = send_files if p["from"] is None else holders[p["from"] % len(holders)].send_files
        else:
            refs = await dst.make_buffers(key, p["bs"], broken)
            args = (p["bs"], seed, refs, block)
            send = send_buffers if p["from"] is None else holders[p["from"] % len(holders)].send_buffers
        err, unchanged = await bounded(send(*args), 40, f"a copy; {p}")
        if not unchanged:
            raise Violation(f"copying changed the source buffers: {p}")
        got = await dst.content(key)
        if p["files"]:
            sizes = [max(0, f["n"] - (f["skip"] if f["kind"] != "text" else 0)) for f in p["fs"]]
            fatal = False
            if broken:
                i = broken["at"] % len(p["fs"])
                f, how, n = p["fs"][i], broken["how"], sizes[i]
                real = f["kind"] == "real"
                chunk = block or 4 * 1024 ** 2
                if how == "gone" or how == "closed":
                    fatal = n > 0
                elif how == "readonly":
                    fatal = n > 0 and real
                elif how == "write":
                    writes = -(-n // chunk)
                    fatal = f["kind"] != "text" and writes > broken["n"] % 3
                elif how == "read":
                    reads = -(-n // chunk) + 1
                    fatal = f["kind"] != "text" and reads > broken["n"] % 3
                maybe = how in ("write", "read", "short") or not fatal
        else:
            sizes = [b["n"] for b in p["bs"]]
            fatal = maybe = False
            if broken:
                i = broken["at"] % len(p["bs"])
                how = broken["how"]
                fatal = how in ("gone", "readonly", "short") and sizes[i] > 0
                maybe = not fatal
        total = sum(sizes)
        if broken:
            labels.add("broken-" + broken["how"])
            interesting = interesting or fatal
            if fatal and err is None:
                raise Violation(f"a copy that could not be done ({broken['how']}) did not raise: {p}")
            if err is not None:
                if not fatal and not maybe:
                    raise Violation(f"a copy raised {err}: {p}")
                return
        elif err is not None:
            raise Violation(f"a copy raised {err}: {p}")
        eff = block or 4 * 1024 ** 2
        interesting = interesting or total > eff or (len(sizes) > 1 and sum(1 for s in sizes if s) > 1)
        labels.add("files" if p["files"] else "buffers")
        labels.add("blocks" if total > eff else "single")
        for i, s in enumerate(p["fs"] if p["files"] else p["bs"]):
            if broken and broken["at"] % len(sizes) == i:
                continue
            if p["files"]:
                if s["kind"] == "text":
                    want = "é" * s["pre"] + text_content(seed + i, s["n"])
                else:
                    want = b"\xa5" * s["pre"] + content(seed + i, s["n"])[s["skip"]:]
            else:
                item = np.dtype(DTYPES[s["kind"]]).itemsize * (3 if s["kind"] == "2d" else 1)
                want = bytearray([GUARD]) * ((s["pre"] + s["n"] + s["post"] + 2) * item)
                data = source_buffer(s, seed + i)[1]
                want[s["pre"] * item:s["pre"] * item + len(data)] = data
                want = bytes(want)
            have = got[i]
            if have != want:
                at = next((j for j, (x, y) in enumerate(zip(have, want)) if x != y), min(len(have), len(want)))
                raise Violation(f"destination {i} differs from position {at} on (lengths {len(have)}, wanted {len(want)}): {p}")

    await asyncio.gather(*[one(k, p) for k, p in enumerate(c["copies"])])
    for h in holders:
        await mo.destroy_actor(h)
    return {"nontrivial": interesting, "labels": sorted(labels)}


async def in_process(c):
    async with Cluster(2, tcp=c["tcp"]) as cl:
        return await scenario(c, cl.addresses)


def setup_folder():
    global FOLDER
    FOLDER = tempfile.mkdtemp(prefix="vf-c19-")


def teardown_folder():
    shutil.rmtree(FOLDER, ignore_errors=True)


def clean():
    for f in os.listdir(FOLDER):
        os.unlink(os.path.join(FOLDER, f))


def in_process_run(c):
    try:
        return run_async(in_process, c, limit=100)
    finally:
        clean()


POOL = RealPool(2)


def setup():
    setup_folder()
    POOL.setup()


def teardown():
    POOL.teardown()
    teardown_folder()


async def on_processes(c):
    return await scenario(c, POOL.addresses)


def processes_run(c):
    try:
        return POOL.run(on_processes, c, limit=100)
    finally:
        clean()


def strat(big):
    block = st.one_of(st.none(), st.integers(1, 40), st.sampled_from([64, 100, 1000, 4096]))

    @st.composite
    def copies(draw):
        blk = draw(block)
        near = [max(0, (blk or 10) + d) for d in (-1, 0, 1)] + [2 * (blk or 10)]
        size = st.one_of(st.integers(0, 12), st.integers(0, 120), st.sampled_from(near))
        if big and blk is None:
            size = st.one_of(size, st.sampled_from([4 * 1024 ** 2 - 1, 4 * 1024 ** 2, 4 * 1024 ** 2 + 1, 6_000_000]))
        if blk and blk > 500:
            size = st.one_of(size, st.integers(0, 3 * blk))
        buf = st.fixed_dictionaries({"kind": st.sampled_from(["view", "view", "u1", "u1", "i4", "f8", "2d"]), "n": size, "pre": st.integers(0, 5), "post": st.sampled_from([0, 0, 0, 1, 7])})
        fil = st.fixed_dictionaries({"kind": st.sampled_from(["real", "memory", "memory", "text"]), "n": size, "pre": st.integers(0, 4), "skip": st.sampled_from([0, 0, 0, 1, 5])})
        files = draw(st.booleans())
        broken = draw(weighted((3, st.none()), (1, st.fixed_dictionaries({
            "how": st.sampled_from(["gone", "readonly", "closed", "write", "read"] if files else ["gone", "readonly", "short", "short"]), "at": st.integers(0, 5), "n": st.integers(0, 5)}))))
        return {"files": files, "block": blk, "broken": broken, "to": draw(st.integers(0, 2)), "from": draw(st.one_of(st.none(), st.integers(0, 2))),
                "bs": draw(st.lists(buf, min_size=1, max_size=6)) if not files else [], "fs": draw(st.lists(fil, min_size=1, max_size=4)) if files else []}
    return st.fixed_dictionaries({"tcp": st.booleans(), "seed": st.integers(0, 10 ** 6), "copies": st.lists(copies(), min_size=1, max_size=3)})


SEARCHES = [
    Search("in_process", lambda: strat(False), in_process_run, setup=setup_folder, teardown=teardown_folder, quick=1500, thorough=60000, shards=5, case_limit=120, rule=RULE),
    Search("processes", lambda: strat(True), processes_run, setup=setup, teardown=teardown, quick=300, thorough=15000, shards=3, case_limit=120, rule=RULE, weight=2),
]
