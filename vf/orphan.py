"""A main process that is going to be killed: argv[1] is json {n, acts}."""
import asyncio
import json
import logging
import os
import signal
import sys

import xoscar as mo
from checks.c22_stop import Busy
from xoscar.core import ActorRef

logging.disable(logging.CRITICAL)


async def main():
    c = json.loads(sys.argv[1])
    pool = await mo.create_actor_pool("127.0.0.1", n_process=c["n"], use_uvloop=False)
    subs = list(pool.sub_processes)
    tasks = []
    for i, act in enumerate(c["acts"]):
        a = subs[i % len(subs)]
        if act == "append":
            tasks.append(asyncio.ensure_future(pool.append_sub_pool()))
        elif act == "crash":
            os.kill(pool.sub_processes[a].pid, signal.SIGKILL)
            await asyncio.sleep(0.6)
        else:
            task = asyncio.ensure_future(mo.create_actor(Busy, uid=act, address=a))
            tasks.append(task)
            done, _ = await asyncio.wait([task], timeout=1)
            if not done or task.exception():
                # blocked or dead
                continue
            tasks.append(asyncio.ensure_future(getattr(ActorRef(a, act), act)()))
            await asyncio.sleep(0.05)
    print("ready", flush=True)
    await asyncio.Event().wait()


asyncio.run(main())
