"""P29: exports and reports carry the same facts as the event log and change nothing."""
import collections
import contextlib
import copy
import glob
import inspect
import io
import json
import math
import os
import random
import tempfile

import numpy as np
import pandas as pd

from mon import core, gen, oracles, simcheck, trace
from prodsys.models import performance_data
from prodsys.util import kpi_visualization as vis
from prodsys.util import runner as runner_module
from prodsys.util.post_processing import PostProcessor

MIX = ["base", "fail", "setup", "multi", "busy", "link", "rework", "tight", "aux", "auxstore", "charge", "batch", "zero", "vehicles", "store", "names", "planned"]
COLS = ["Time", "Resource", "State", "State Type", "Activity", "Expected End Time", "Product", "Origin location", "Target location", "Empty Transport"]
SKIP = {"read_df_from_csv", "save_inductive_petri_net", "get_eventlog_for_product"}


def cell(x):
    """Plain comparable value of a cell; missing values are None."""
    x = getattr(x, "value", x)
    if x is None or x is pd.NA or x is pd.NaT or (isinstance(x, (float, np.floating)) and math.isnan(x)) or x == "":
        return None
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return float(x)
    if x in ("True", "False"):
        return x == "True"
    return str(x)


def equal(a, b, tol=1e-9):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b and type(a) is type(b)


def canon(x):
    """Comparable form of anything a post processor returns."""
    if isinstance(x, pd.DataFrame):
        idx = [cell(i) if not isinstance(i, tuple) else tuple(map(cell, i)) for i in x.index]
        return ("frame", [str(c) for c in x.columns], idx, [[canon(v) if isinstance(v, (list, dict)) else cell(v) for v in x[c].tolist()] for c in x.columns])
    if isinstance(x, pd.Series):
        return ("series", [cell(i) if not isinstance(i, tuple) else tuple(map(cell, i)) for i in x.index], [cell(v) for v in x.tolist()])
    if isinstance(x, dict):
        return ("dict", [(str(k), canon(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple, np.ndarray)):
        return ("list", [canon(v) for v in x])
    if hasattr(x, "model_dump"):
        return ("model", type(x).__name__, canon(x.model_dump()))
    return cell(x)


def near(a, b, tol=1e-9):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))
    return equal(a, b, tol)


def names():
    """Everything a post processor offers without arguments."""
    out = []
    for n in sorted(dir(PostProcessor)):
        if n.startswith("_") or n in SKIP:
            continue
        a = inspect.getattr_static(PostProcessor, n)
        if inspect.isfunction(a):
            ps = list(inspect.signature(a).parameters.values())[1:]
            if any(p.default is inspect.Parameter.empty for p in ps):
                continue
            out.append((n, True))
        elif not isinstance(a, (str, bool, type(None))):
            out.append((n, False))
    return out


def get(p, n, call):
    with contextlib.redirect_stdout(io.StringIO()):
        v = getattr(p, n)
        return canon(v() if call else v)


def tryget(p, n, call):
    try:
        return ("value", get(p, n, call))
    except Exception as e:
        return ("error", f"{type(e).__name__}: {e}"[:200])


def table(rows):
    return [[cell(r.get(c)) for c in COLS] for r in rows]


def compare(out, c, what, want, got, tol=1e-9):
    c["exports compared: " + what] += 1
    if len(want) != len(got):
        out.append((f"{what} has another number of entries", f"{len(got)} instead of {len(want)}"))
        return
    for i, (a, b) in enumerate(zip(want, got)):
        if not near(a, b, tol):
            out.append((f"{what} differs from the event log", f"entry {i}: {b} instead of {a}"))
            return
    c["entries compared"] += len(want)


def exports(runner, want, tmp, out, c, tag):
    """want: table of the recorded events."""
    df = runner.event_logger.get_data_as_dataframe()
    compare(out, c, "data frame", want, [[cell(v) for v in row] for row in df[COLS].itertuples(index=False)])
    d1, d2 = os.path.join(tmp, tag + "csv"), os.path.join(tmp, tag + "json")
    runner.save_results_as_csv(d1)
    runner.save_results_as_json(d2)
    f1, f2 = glob.glob(d1 + "/*"), glob.glob(d2 + "/*")
    if len(f1) != 1 or len(f2) != 1:
        out.append(("an export writes another number of files", f"{f1} {f2}"))
        return None
    texts = {k: str for k in COLS if k not in ("Time", "Expected End Time", "Empty Transport")}
    r = pd.read_csv(f1[0], float_precision="round_trip", dtype=texts, keep_default_na=False, na_values=[""])
    compare(out, c, "CSV file", want, [[cell(v) for v in row] for row in r[COLS].itertuples(index=False)])
    j = json.load(open(f2[0]))
    n = len(j["Time"])
    compare(out, c, "JSON file", want, [[cell(j[k][str(i)]) for k in COLS] for i in range(n)], 1e-8)
    ev = runner.get_event_data_of_simulation()
    w = [[a[0], a[1], a[2], a[3], a[4], a[6], -1.0 if a[5] is None else a[5], a[8]] for a in want]
    compare(out, c, "event objects", w, [[cell(x) for x in (e.time, e.resource, e.state, e.state_type, e.activity, e.product, e.expected_end_time, e.target_location)] for e in ev])
    return f1[0]


def evaluate(spec):
    out, c = [], collections.Counter()
    rng = random.Random(spec["seed"] + "/p29")
    d = gen.generate(spec["seed"], simcheck.PROFILES[spec["profile"]])
    h = d["_horizon"]
    tr = trace.run(d, [])
    c["runs"] += 1
    if tr.crash:
        return core.Outcome(simcheck.crash_violation(tr), c, False, "-")
    runner = tr.runner
    E0 = copy.deepcopy(runner.event_logger.event_data)
    want = table(E0)
    here = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="p29_") as tmp:
        os.chdir(tmp)
        try:
            body(spec, d, h, rng, runner, E0, want, tmp, out, c)
        finally:
            os.chdir(here)
    return core.Outcome(out, c, len(want) > 0, core.digest(want[:400]), dict(spec=spec, observed=dict(c), **simcheck.sample(tr)))


def body(spec, d, h, rng, runner, E0, want, tmp, out, c):
    warm, method = rng.random() < 0.3, rng.choice(["mser5", "threshold_stabilization", "static_ratio"])
    mk = lambda: PostProcessor(df_raw=runner.event_logger.get_data_as_dataframe(), warm_up_cutoff=warm, cut_off_method=method)
    every = names()
    # every figure from a post processor of its own
    alone = {n: tryget(mk(), n, call) for n, call in every}
    for n, v in alone.items():
        c["figures"] += 1
        if v[0] == "error":
            c["figures that cannot be computed: " + n] += 1
            out.append(("a figure cannot be computed", f"{n}: {v[1]} (warm-up {warm and method})"))
    if runner.event_logger.event_data != E0:
        out.append(("a figure changes the event log", ""))
    # all from one, in any order and repeatedly, with reports in between
    p = mk()
    raw = p.df_raw.copy()
    plan = every * 2
    rng.shuffle(plan)
    used = []
    plots = [f for n, f in inspect.getmembers(vis, inspect.isfunction) if n.startswith("plot_") and f.__module__ == vis.__name__]
    for k, (n, call) in enumerate(plan):
        v = tryget(p, n, call)
        c["figures in any order"] += 1
        if v[0] != alone[n][0] or (v[0] == "value" and not near(v[1], alone[n][1], 1e-12)):
            out.append(("a figure depends on what was asked before", f"{n} after {used[-12:]}: {difference(alone[n], v)}"))
            break
        used.append(n)
        if not p.df_raw.equals(raw) or list(p.df_raw.columns) != list(raw.columns):
            out.append(("a figure changes the raw data", n))
            break
        if k % 12 == 5:
            f = rng.choice(plots)
            kw = dict(transport_resource_names=[r["ID"] for r in d["resource_data"] if r["controller"] == "TransportController"]) if "transport_resource_names" in inspect.signature(f).parameters else {}
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    f(p, return_html=True, **kw)
                c["plots"] += 1
                c["plot " + f.__name__] += 1
            except Exception as e:
                c["plots that fail: " + f.__name__] += 1
            used.append(f.__name__)
            if not p.df_raw.equals(raw) or list(p.df_raw.columns) != list(raw.columns):
                out.append(("a plot changes the raw data", f.__name__))
                break
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            vis.print_aggregated_data(mk())
            c["printed reports"] += 1
        except Exception as e:
            out.append(("the printed report fails", f"{type(e).__name__}: {e}"))
    # exports
    path = exports(runner, want, tmp, out, c, "a")
    if path:
        q = PostProcessor(filepath=path, warm_up_cutoff=warm, cut_off_method=method)
        for n, call in rng.sample(every, min(14, len(every))):
            v = tryget(q, n, call)
            c["figures from a file"] += 1
            if n == "df_raw":
                continue
            if v[0] != alone[n][0] or (v[0] == "value" and not near(v[1], alone[n][1], 1e-9)):
                out.append(("a figure from the exported file differs", f"{n}: {difference(alone[n], v)}"))
    # performance data
    runner.warm_up_cutoff, runner.cut_off_method, runner.post_processor = warm, method, None
    try:
        perf = runner.get_performance_data()
    except Exception as e:
        out.append(("the performance data cannot be made", f"{type(e).__name__}: {e}"))
        perf = None
    if perf:
        c["performance data"] += 1
        kp = mk()
        kpis = kp.WIP_KPIs + kp.throughput_and_output_KPIs + kp.aggregated_throughput_time_KPIs + kp.machine_state_KPIS
        a, b = sorted(json.dumps(k.model_dump(mode="json"), sort_keys=True) for k in kpis), sorted(json.dumps(k.model_dump(mode="json"), sort_keys=True) for k in perf.kpis)
        if a != b:
            out.append(("the performance data has other figures", f"{[x for x in a if x not in b][:2]} {[x for x in b if x not in a][:2]}"))
        w = [[x[0], x[1], x[2], x[3], x[4], x[6], -1.0 if x[5] is None else x[5], x[8]] for x in want]
        compare(out, c, "event log of the performance data", w, [[cell(x) for x in (e.time, e.resource, e.state, e.state_type, e.activity, e.product, e.expected_end_time, e.target_location)] for e in perf.event_log])
        if not any(isinstance(k.value, float) and not math.isfinite(k.value) for k in perf.kpis):
            back = performance_data.Performance.model_validate_json(perf.model_dump_json())
            c["performance data read back"] += 1
            if not near(canon(back), canon(perf), 1e-12):
                out.append(("performance data read back differ", difference(canon(perf), canon(back))))
    agg = canon(runner.get_aggregated_data_simulation_results())
    if not near(agg, get(PostProcessor(df_raw=runner.event_logger.get_data_as_dataframe()), "get_aggregated_data", True), 1e-12):
        out.append(("the aggregated results differ", ""))
    if runner.event_logger.event_data != E0:
        out.append(("an export changes the event log", ""))
    # a run that is looked at in between
    if spec["i"] % 3 == 0:
        r2 = runner_module.Runner(adapter=trace.build(d))
        r2.initialize_simulation()
        cut = sorted(rng.uniform(0, h) for _ in range(2))
        for k, t in enumerate(cut):
            r2.run(t)
            pre = table(r2.event_logger.event_data)
            if pre != want[:len(pre)]:
                out.append(("the event log changes afterwards", f"at {t}"))
            exports(r2, pre, tmp, out, c, f"m{k}")
            for n, call in rng.sample(every, 5):
                tryget(r2.get_post_processor(), n, call)
        r2.run(h)
        c["runs looked at in between"] += 1
        if table(r2.event_logger.event_data) != want:
            out.append(("looking at a run changes its course", f"cuts {cut}"))
        else:
            for n, call in rng.sample(every, 5):
                fresh = PostProcessor(df_raw=runner.event_logger.get_data_as_dataframe())
                if str(tryget(r2.get_post_processor(), n, call)) != str(tryget(fresh, n, call)):
                    out.append(("figures of a run looked at before are outdated", n))


def difference(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{str(a)[:150]} ({len(a)}) vs {str(b)[:150]} ({len(b)})"
        for x, y in zip(a, b):
            if not near(x, y, 1e-12):
                return difference(x, y)
    return f"{str(a)[:200]} vs {str(b)[:200]}"


def definition():
    def cases(seed, tier):
        n = 150 if tier == "quick" else 6000
        return [dict(i=i, profile=MIX[i % len(MIX)], seed=f"P29/{seed}/{i}") for i in range(n)]
    return dict(cases=cases, evaluate=evaluate,
                required=["exports compared: " + x for x in ("data frame", "CSV file", "JSON file", "event objects", "event log of the performance data")] +
                ["figures", "figures in any order", "figures from a file", "plots", "printed reports", "performance data read back", "runs looked at in between"],
                rule="one generated run, exported in every form and reported in a random order; distinct = different event log",
                assumptions=["the JSON file keeps ten digits after the decimal point", "missing values are written as -1 (expected end time) or empty text in event objects"])
