"""A real pool (sub-processes) kept for many cases of one worker."""
from __future__ import annotations

import asyncio
import logging

import vf.warm  # noqa: F401
import xoscar as mo
from vf.core import TSCALE, Hang, HarnessError

logging.disable(logging.CRITICAL)


class RealPool:
    def __init__(self, n=2, **kw):
        self.n, self.kw = n, kw
        self.loop = None
        self.pool = None

    def setup(self):
        self.loop = asyncio.new_event_loop()
        self.loop.set_exception_handler(lambda *_: None)
        asyncio.set_event_loop(self.loop)
        self.start()

    def start(self):
        async def go():
            for attempt in range(3):
                try:
                    return await asyncio.wait_for(
                        mo.create_actor_pool("127.0.0.1", n_process=self.n, **{"use_uvloop": False, **self.kw}), 60 * TSCALE)
                except (OSError, asyncio.TimeoutError) as e:
                    err = e
            raise HarnessError(f"cannot start a pool: {err!r}")

        self.pool = self.loop.run_until_complete(go())
        self.addresses = list(self.pool._config.get_external_addresses())
        self.main = self.addresses[0]

    def run(self, coro_fn, *args, limit=40.0):
        async def main():
            task = asyncio.ensure_future(coro_fn(*args))
            done, _ = await asyncio.wait([task], timeout=limit * TSCALE)
            if not done:
                task.cancel()
                raise Hang(f"case did not finish within {limit * TSCALE:.0f}s")
            return task.result()

        return self.loop.run_until_complete(main())

    def stop(self):
        if self.pool is None:
            return
        try:
            self.loop.run_until_complete(asyncio.wait_for(self.pool.stop(), 20))
        except BaseException:
            pass
        self.pool = None

    def teardown(self):
        self.stop()
