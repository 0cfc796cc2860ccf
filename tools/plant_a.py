from plant import plant

plant("c01-temp-ids", "C01", [("serialization/core.pyx", "        context[obj_id] = obj\n\n        return self._serial_iterable(obj)", "        context[obj_id] = None\n\n        return self._serial_iterable(obj)")],
 "a user serializer that hands out temporary lists/tuples for several objects of one graph, freed in between so that their addresses are reused",
 "sharing: a temporary list is taken for an unrelated one that lived at the same address, so objects come back with other objects' contents",
'''
import sys
from xoscar.serialization.core import Serializer, serialize, deserialize

class P:
    def __init__(self, a, b): self.a, self.b = a, b

class PSer(Serializer):
    def serial(self, obj, context):
        context[id(obj)] = obj
        return (), [[obj.a, [obj.a]], [obj.b, [obj.b]]], False
    def deserial(self, serialized, context, subs):
        return P(subs[0][0], subs[1][0])

PSer.register(P)
try:
    for n in (2, 5, 50):
        objs = [P(f"a{i}" * 60, f"b{i}" * 60) for i in range(n)]
        got = deserialize(*serialize(objs))
        if [(p.a, p.b) for p in got] != [(p.a, p.b) for p in objs]:
            sys.exit("contents mixed up")
except SystemExit:
    raise
except BaseException as e:
    sys.exit(f"failed: {e!r}")
''')

plant("c02-csr-shape", "C02", [("serialization/scipy.py", """        empty_arr = np.zeros(0, dtype=data.dtype)

        target_csr = sps.coo_matrix(
            (empty_arr, (empty_arr,) * 2), dtype=data.dtype, shape=shape
        ).tocsr()
        target_csr.data, target_csr.indices, target_csr.indptr = data, indices, indptr
        return target_csr""", """        if not len(indices):
            return sps.csr_matrix(shape, dtype=data.dtype)
        return sps.csr_matrix((data, indices, indptr), dtype=data.dtype)""")],
 "a CSR matrix with stored values whose last columns are empty", "the matrix comes back narrower than it was",
'''
import sys
import numpy as np, scipy.sparse as sps
from xoscar.serialization.core import serialize, deserialize
for shape in [(3, 3), (2, 7), (7, 2)]:
    m = sps.csr_matrix((np.array([1.0, 2.0]), (np.array([0, 1]), np.array([1, 0]))), shape=shape)
    g = deserialize(*serialize(m))
    if g.shape != m.shape or (g != m).nnz:
        sys.exit(f"{m.shape} became {g.shape}")
''')

plant("c06-throw-unlocked", "C06", [("core.pyx", """                async with self._lock:
                    with debug_async_timeout('actor_lock_timeout',
                                             'async_generator %r hold lock timeout', gen):
                        if not is_exception:
                            res = await gen.asend(res)
                        else:
                            res = await gen.athrow(*res)
""", """                if is_exception:
                    # the awaitable failed, let the method handle it first
                    res = await gen.athrow(*res)
                else:
                    async with self._lock:
                        with debug_async_timeout('actor_lock_timeout',
                                                 'async_generator %r hold lock timeout', gen):
                            res = await gen.asend(res)
""")],
 "a method resumed by a failed awaitable at its yield, which suspends in its handler while another call is made",
 "mutual exclusion: the handler runs at the same time as other methods of the actor",
'''
import asyncio, sys
import xoscar as mo

class A(mo.Actor):
    def __init__(self):
        self.inside, self.bad = 0, 0
    async def _fail(self):
        await asyncio.sleep(0.01)
        raise ValueError
    async def _body(self):
        self.inside += 1
        if self.inside > 1: self.bad += 1
        await asyncio.sleep(0.05)
        self.inside -= 1
    async def gen(self):
        try:
            yield self._fail()
        except ValueError:
            await self._body()
    async def other(self):
        await self._body()
    def get(self): return self.bad

async def main():
    pool = await mo.create_actor_pool("test://127.0.0.1", n_process=0)
    async with pool:
        a = await mo.create_actor(A, address=pool.external_address)
        await asyncio.gather(a.gen(), *[a.other() for _ in range(4)], a.gen())
        return await a.get()
if asyncio.run(main()): sys.exit("two methods inside at once")
''')

plant("c14-batch-kwargs", "C14", [("core.pyx", """            if kwargs:
                has_kw = True

        if not has_kw:""", """            has_kw = bool(kwargs)

        if not has_kw:""")],
 "a batch through a message reference whose last call has no keyword arguments but an earlier one has", "keyword arguments of the batch are dropped",
'''
import asyncio, sys
import xoscar as mo

class A(mo.Actor):
    @mo.extensible
    def f(self, a, b=1): return a, b
    @f.batch
    def f(self, args, kwargs):
        return [(*a, k.get("b", 1))[:2] if len(a) == 1 else a for a, k in zip(args, kwargs)]

async def main():
    pool = await mo.create_actor_pool("test://127.0.0.1", n_process=0)
    async with pool:
        a = await mo.create_actor(A, address=pool.external_address)
        for calls in ([a.f.delay(1, b=5), a.f.delay(2)], [a.f.delay(1), a.f.delay(2, b=6)]):
            got = [tuple(x) for x in await a.f.batch(*calls)]
            want = [(1, 5), (2, 1)] if calls[0].arguments[3] else [(1, 1), (2, 6)]
            if got != want: sys.exit(f"{got} != {want}")
asyncio.run(main())
''')

plant("c15-equal-value", "C15", [("core.pyx", "result = tuple(task_result if t is coros[0] else t for t in values)", "result = tuple(task_result if t == coros[0] else t for t in values)")],
 "a tuple with exactly one awaitable next to an element whose comparison is not a plain boolean or always true (array, mock, query object)",
 "the other elements are compared with the coroutine: arrays raise, objects equal to everything are replaced by the result",
'''
import asyncio, sys
import numpy as np
import xoscar as mo

class Any_:
    def __eq__(self, o): return True
    __hash__ = None

class A(mo.Actor):
    async def _v(self): return 7
    def f(self): return self._v(), np.arange(3)
    def g(self): return Any_(), self._v()

async def main():
    pool = await mo.create_actor_pool("test://127.0.0.1", n_process=0)
    async with pool:
        a = await mo.create_actor(A, address=pool.external_address)
        x, y = await a.f()
        assert x == 7 and y.tolist() == [0, 1, 2]
        x, y = await a.g()
        assert type(x) is Any_ and y == 7
try: asyncio.run(main())
except BaseException as e: sys.exit(repr(e))
''')

