"""A main pool in a process of its own: argv[1] is json {address, n_process, kw}. Ends when its standard input does."""
import asyncio
import json
import logging
import sys

import xoscar as mo

logging.disable(logging.CRITICAL)


async def main():
    cfg = json.loads(sys.argv[1])
    pool = await mo.create_actor_pool(cfg["address"], n_process=cfg["n_process"], use_uvloop=False, **cfg.get("kw", {}))
    print(json.dumps({"addresses": pool._config.get_external_addresses()}), flush=True)
    loop = asyncio.get_running_loop()
    await loop.run_in_executor(None, sys.stdin.buffer.read)
    await asyncio.wait_for(pool.stop(), 20)


if __name__ == "__main__":
    asyncio.run(main())
