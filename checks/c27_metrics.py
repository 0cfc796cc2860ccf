"""C27: metrics report what was recorded."""
import itertools
import math
import os
import socket
import time

# a clock that stands still while the code under test runs; installed before the metrics are imported
_REAL = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter")}
FROZEN = None
for _n in _REAL:
    setattr(time, _n, lambda _n=_n: _REAL[_n]() if FROZEN is None else FROZEN)

import prometheus_client  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

from vf.core import Search, Violation, weighted  # noqa: E402
from xoscar.metrics import api  # noqa: E402
from xoscar.metrics.api import Metrics, Percentile, PercentileArg, record_time_cost_percentile  # noqa: E402

RULE = ("records: 1-5 metrics of all four kinds (some made before the metrics are initialised, some with tag keys) on either backend, histories of 1-60 records "
        "with generated values, tag sets (orders, odd texts), bursts around the reporting threshold and time steps, against exact per-metric, per-tag-set statistics; "
        "percentiles: generated capacities, windows and streams (also the ready-made percentiles and timed blocks) against a sorted window. "
        "Non-trivial = two metrics or tag sets took part, or a burst / time step caused a report; a window was completed")
ASSUMPTIONS = ["the clock stands still during a record", "a meter or histogram reports when 2000 (count / values) or one second have gathered since the last report, "
               "a window starting at the last report of the tag set or at the creation of the metric", "metric names are used once per process", "tags are exactly the declared ones"]
TECHNIQUE = "model-based property-based testing (exact statistics per metric and tag set under a controlled clock, sorted windows)"
COUNT = itertools.count()
KINDS = ["counter", "gauge", "meter", "histogram"]
TAGS = ["a", "b", "", "é", "a b", "x=y", '"', "a\nb", "1"]


def setup():
    # no server is started: the registry is read directly
    prometheus_client.start_http_server = lambda *a, **k: None


def close_to(a, b):
    return a is not None and math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)


def records_run(c):
    global FROZEN
    now = 1_000_000.0
    before = set(prometheus_client.REGISTRY._collector_to_names)
    models, metrics = [], []
    reports = multi = 0
    try:
        FROZEN = now

        def make(i, early):
            d = c["metrics"][i]
            if d["early"] is not early:
                return
            name = f"vf{os.getpid()}.m{next(COUNT)}"
            keys = tuple(f"k{x}" for x in range(d["keys"]))
            m = getattr(Metrics, d["kind"])(name, d["text"], keys or None)
            metrics[i] = (m, name, keys)
            if m.name not in (name, name.replace(".", ":")) or m.description != d["text"] or m.type != d["kind"].capitalize() or tuple(m.tag_keys)[:len(keys)] != keys:
                raise Violation(f"metric is {m.name} {m.description!r} {m.type} {m.tag_keys}, made with {name} {d}")
        metrics = [None] * len(c["metrics"])
        for i in range(len(metrics)):
            make(i, True)
        for i, m in enumerate(metrics):
            if m is not None:
                # dropped: not initialised
                m[0].record(5, {k: "a" for k in m[2]} or None)
        api.init_metrics(c["backend"], {"port": 1})
        for i in range(len(metrics)):
            make(i, False)
        start = now
        models = [{} for _ in metrics]
        last = [0] * len(metrics)
        used = set()
        for step in c["steps"]:
            now += step["dt"]
            FROZEN = now
            i = step["i"] % len(metrics)
            m, name, keys = metrics[i]
            kind = c["metrics"][i]["kind"]
            for _ in range(step["times"]):
                v = step["v"]
                tags = {k: TAGS[(step["tags"] >> (4 * j)) % len(TAGS)] for j, k in enumerate(keys)}
                if step["flip"]:
                    tags = dict(reversed(tags.items()))
                if not keys and step["flip"]:
                    tags = None
                copy = None if tags is None else dict(tags)
                m.record(v, tags) if tags is not None or step["flip"] else m.record(v)
                if tags != copy or (tags is not None and list(tags) != list(copy)):
                    raise Violation(f"recording changed the caller's tags: {tags}, were {copy}")
                key = frozenset((copy or {}).items())
                used.add((i, key))
                w = models[i].setdefault(key, {"count": 0, "data": [], "since": start, "value": None})
                report = None
                if kind == "counter":
                    w["count"] += v
                    report = w["count"]
                elif kind == "gauge":
                    report = v
                elif kind == "meter":
                    w["count"] += v
                    past = max(now - w["since"], 1e-9)
                    if w["count"] >= 2000 or past >= 1:
                        report = w["count"] / past
                        w["count"], w["since"] = 0, now
                else:
                    w["data"].append(v)
                    if len(w["data"]) >= 2000 or now - w["since"] >= 1:
                        report = sum(w["data"]) / len(w["data"])
                        w["data"], w["since"] = [], now
                if report is not None:
                    w["value"] = last[i] = report
                    if kind in ("meter", "histogram"):
                        reports += 1
            if c["backend"] == "console":
                if not close_to(m.value, last[i]):
                    raise Violation(f"{kind} has value {m.value}, model {last[i]}; {c}")
            for j, (mj, nj, kj) in enumerate(metrics):
                if c["backend"] != "prometheus":
                    if not close_to(mj.value, last[j]):
                        raise Violation(f"another metric changed: {mj.value}, model {last[j]}; {c}")
                    continue
                for key, w in models[j].items():
                    got = prometheus_client.REGISTRY.get_sample_value(nj.replace(".", ":"), {**dict(key), "host": socket.gethostname(), "pid": str(os.getpid())})
                    if w["value"] is None:
                        if got is not None:
                            raise Violation(f"{c['metrics'][j]['kind']} reported {got} for {dict(key)}, model nothing; {c}")
                    elif not close_to(got, float(w["value"])):
                        raise Violation(f"{c['metrics'][j]['kind']} shows {got} for {dict(key)}, model {w['value']}; {c}")
        multi = len(used) >= 2
    finally:
        FROZEN = None
        api.shutdown_metrics()
        for x in set(prometheus_client.REGISTRY._collector_to_names) - before:
            prometheus_client.REGISTRY.unregister(x)
    return {"nontrivial": bool(multi or reports), "labels": [c["backend"]] + sorted({d["kind"] for d in c["metrics"]}) + (["report"] if reports else [])}


def records_strat():
    metric = st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "keys": st.integers(0, 3), "early": st.booleans(), "text": st.sampled_from(["", "a text", "é"])})
    step = st.fixed_dictionaries({
        "i": st.integers(0, 4), "v": st.sampled_from([1, 1, 2, 0, 0.5, -3, 7.25, 1e6, 1999, 2000]), "tags": weighted((4, st.sampled_from([0, 1, 16, 17])), (1, st.integers(0, 4095))), "flip": st.booleans(),
        "times": weighted((10, st.just(1)), (3, st.integers(2, 9)), (1, st.sampled_from([1999, 2000, 2001]))), "dt": st.sampled_from([0, 0, 0, 0.25, 0.5, 1, 1.5, 60])})
    return st.fixed_dictionaries({"backend": st.sampled_from(["console", "prometheus"]), "metrics": st.lists(metric, min_size=1, max_size=5), "steps": st.lists(step, min_size=1, max_size=60)})


# ------------------------------------------------------------------ percentiles
def percentiles_run(c):
    global FROZEN
    done = 0
    outs, ps, sizes = [], [], []
    args = []
    for p in c["percentiles"]:
        out = []
        window = p["window"]
        if p["kind"] == "own":
            cap = p["capacity"]
            ps.append(Percentile(cap, window, out.append))
        else:
            kind, part = {"p99": (Percentile.PercentileType.P99, 100), "p95": (Percentile.PercentileType.P95, 20), "p90": (Percentile.PercentileType.P90, 10)}[p["kind"]]
            window = max(window, part)
            cap = window // part
            args.append(PercentileArg(kind, out.append, window))
            ps.append(getattr(Percentile, f"build_{p['kind']}")(out.append, window))
        outs.append(out)
        sizes.append((cap, window))
    if c["timed"]:
        # blocks of a known length, one window each time
        try:
            now = FROZEN = 5000.0
            for v in c["values"]:
                with record_time_cost_percentile([PercentileArg(a.percentile_type, a.callback, a.window) for a in args]):
                    now += abs(v)
                    FROZEN = now
        finally:
            FROZEN = None
        if any(outs):
            raise Violation(f"a percentile reported before its window was full: {outs}")
    values = c["values"] * c["repeat"]
    for v in values:
        for p in ps:
            p.record_data(v)
    for out, (cap, window) in zip(outs, sizes):
        want = []
        for i in range(window, len(values) + 1, window):
            w = sorted(values[i - window:i])
            want.append(w[:cap][-1])
        done += len(want)
        if out != want:
            raise Violation(f"capacity {cap} of window {window} reported {out}, model {want} for {values}")
    return {"nontrivial": done > 0, "labels": sorted({p["kind"] for p in c["percentiles"]})}


def percentiles_strat():
    p = st.fixed_dictionaries({"kind": st.sampled_from(["own", "own", "p99", "p95", "p90"]), "capacity": st.integers(1, 12), "window": weighted((3, st.integers(1, 20)), (1, st.integers(1, 420)))})
    return st.fixed_dictionaries({"percentiles": st.lists(p, min_size=1, max_size=4), "timed": st.booleans(), "repeat": st.sampled_from([1, 1, 2, 5, 20]),
                                  "values": st.lists(weighted((2, st.integers(-5, 5)), (2, st.floats(-1e6, 1e6, allow_nan=False, width=32))), max_size=60)})


SEARCHES = [
    Search("records", records_strat, records_run, setup=setup, quick=4000, thorough=100000, shards=5, rule=RULE),
    Search("percentiles", percentiles_strat, percentiles_run, quick=4000, thorough=100000, shards=2, rule=RULE),
]
