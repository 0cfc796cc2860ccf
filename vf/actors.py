"""In-process clusters for generated histories of actor calls.

All pools of a cluster live in this process (backend "test"), so a history is
fast and its schedule is a function of the case. `kind` chooses how a caller
reaches an actor:
  local  reference looked up in the process: direct method calls
  msg    message through the in-process channel
  tcp    message through a TCP connection (real serialization)
  main   message sent to the main pool, which forwards it to the hosting pool
"""
from __future__ import annotations

import asyncio
import logging

import vf.warm  # noqa: F401
import xoscar as mo
from xoscar.backends.router import Router
from xoscar.core import ActorRef

logging.disable(logging.CRITICAL)

KINDS = ("local", "msg", "tcp", "main")


class NoMapRouter(Router):
    """Every address is external: connections are real ones."""

    def get_internal_address(self, external_address):
        return None

    def add_router(self, router):
        pass

    def remove_router(self, router):
        pass


class Cluster:
    def __init__(self, n=2, tcp=False, **kw):
        self.n, self.tcp, self.kw = n, tcp, kw

    async def __aenter__(self):
        Router.set_instance(None)
        self.pool = await mo.create_actor_pool("test://127.0.0.1", n_process=self.n, use_uvloop=False, **self.kw)
        self.addresses = list(self.pool._config.get_external_addresses())
        self.main = self.addresses[0]
        if self.tcp:
            self.inner = Router.get_instance()
            Router.set_instance(NoMapRouter([], None))
        return self

    async def __aexit__(self, *a):
        if self.tcp:
            Router.set_instance(self.inner)
        try:
            await asyncio.wait_for(asyncio.shield(self.pool.stop()), 10)
        except asyncio.TimeoutError:
            pass
        Router.set_instance(None)

    async def create(self, cls, *args, where=0, uid=None, **kw):
        return await mo.create_actor(cls, *args, uid=uid, address=self.addresses[where], **kw)

    async def ref(self, address, uid, kind):
        if kind == "local":
            return await mo.actor_ref(address=address, uid=uid)
        if kind == "main":
            return ActorRef(self.main, uid)
        return ActorRef(address, uid)


async def spin(n):
    for _ in range(n):
        await asyncio.sleep(0)
