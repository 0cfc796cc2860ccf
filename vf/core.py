"""Searches, violations and the helpers check modules use."""
from __future__ import annotations

import asyncio
import hashlib
import json
import os
from dataclasses import dataclass, field
from typing import Any, Callable, Optional

#: multiplies every hang limit; confirmation replays run with a larger value
TSCALE = float(os.environ.get("VF_TSCALE", "1"))


class Violation(AssertionError):
    """The property does not hold for the current case."""


class Hang(Violation):
    """The code under test did not finish in a (very generous) time.

    Only reported when a fresh-process replay with larger limits hangs too."""


class HarnessError(Exception):
    """The harness or environment failed; says nothing about the property."""


class Skip(Exception):
    """The case is outside the domain (counted, never a failure)."""


@dataclass
class Search:
    name: str
    #: zero-argument callable giving a hypothesis strategy of JSON-able cases
    strategy: Optional[Callable[[], Any]]
    #: run(case) -> info dict ({"nontrivial": bool, "labels": [..]}) or None
    run: Callable[[Any], Any]
    #: number of cases (over all shards) for quick / thorough
    quick: int = 1000
    thorough: int = 20000
    #: how many worker processes share these cases
    shards: int = 1
    thorough_shards: int = 8
    #: parent kills the worker when one case takes longer than this
    case_limit: float = 60.0
    #: soft wall budget per worker (seconds); remaining cases are not run
    quick_budget: float = 40.0
    thorough_budget: float = 1200.0
    #: explicit cases run before the generated ones (regressions, corner cases)
    examples: list = field(default_factory=list)
    setup: Optional[Callable[[], None]] = None
    teardown: Optional[Callable[[], None]] = None
    #: how often to retry a replay before calling the failure unconfirmed
    replay_tries: int = 3
    #: what a case is and which ones count as non-trivial
    rule: str = ""
    #: sort key; heavier searches start first
    weight: float = 1.0
    env: dict = field(default_factory=dict)
    #: kill left-over grandchildren etc. -- run worker under `tini -s`
    subreaper: bool = False


def case_json(case) -> str:
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def case_hash(case) -> str:
    return hashlib.sha256(case_json(case).encode()).hexdigest()[:16]


def check(cond, msg="", *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def check_eq(got, want, what=""):
    if got != want or type(got) is not type(want):
        raise Violation(f"{what}: got {got!r}, want {want!r}")


def same(got, want, what=""):
    if got != want:
        raise Violation(f"{what}: got {got!r}, want {want!r}")


async def bounded(aw, seconds=20.0, what="operation"):
    """Await with a hang limit; exceeding it raises Hang (a violation kind that
    is only believed after confirmation)."""
    task = asyncio.ensure_future(aw)
    done, _ = await asyncio.wait([task], timeout=seconds * TSCALE)
    if not done:
        task.cancel()
        raise Hang(f"{what} did not finish within {seconds * TSCALE:.0f}s")
    return task.result()


def run_async(coro_fn, *args, limit=30.0, debug=False):
    """Run coro_fn(*args) on a fresh loop, with an overall hang limit; leftover
    tasks are cancelled, whatever happened."""

    async def main():
        task = asyncio.ensure_future(coro_fn(*args))
        done, _ = await asyncio.wait([task], timeout=limit * TSCALE)
        if not done:
            task.cancel()
            raise Hang(f"case did not finish within {limit * TSCALE:.0f}s")
        return task.result()

    loop = asyncio.new_event_loop()
    loop.set_exception_handler(lambda *_: None)
    try:
        asyncio.set_event_loop(loop)
        return loop.run_until_complete(main())
    finally:
        try:
            pending = [t for t in asyncio.all_tasks(loop) if not t.done()]
            for t in pending:
                t.cancel()
            if pending:
                loop.run_until_complete(asyncio.wait(pending, timeout=5))
            loop.run_until_complete(loop.shutdown_asyncgens())
        finally:
            asyncio.set_event_loop(None)
            loop.close()


def weighted(*pairs):
    """one_of with weights (one_of itself drops repeated strategies)."""
    from hypothesis import strategies as st

    table = [i for i, (w, _) in enumerate(pairs) for _ in range(w)]
    return st.sampled_from(table).flatmap(lambda i: pairs[i][1])


#: environment of searches that start many processes: without torch, whose import takes most of their start
def lean_env():
    import vf

    return {"PYTHONPATH": f"{vf.VERIF}/vf/notorch:{vf.REPO_PY}:{vf.VERIF}"}
