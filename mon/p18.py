"""P18: reported performance figures recomputed from the event log."""
import collections
import math

from mon import core, gen, simcheck, trace
from prodsys.util.post_processing import PostProcessor

EPS = 1e-6
PROFILES = [("base", 3), ("fail", 3), ("setup", 2), ("multi", 2), ("busy", 1), ("link", 1), ("rework", 1), ("tight", 1), ("aux", 1), ("auxstore", 1),
            ("charge", 2), ("batch", 1), ("zero", 1), ("vehicles", 1), ("store", 1), ("names", 2), ("planned", 1)]


def close(a, b, tol=1e-6):
    if a != a and b != b:
        return True
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


ZERO = -1


def last_entry(tr):
    """The observed period ends with the last entry the tables speak about (interruptions of setups, chargings and breakdowns are none)."""
    return max(r.t for r in tr.rows if r.stype != "ProcessBreakdown" and not (r.stype in ("Setup", "Breakdown", "Charging") and "interrupt" in r.act))


def activity(tr, rid, since=0.0):
    """Exact division of [since, last log entry] of a resource: {kind: duration}, and the working time that follows an end of a job
    which leaves an even number of jobs (of which the reported table loses sight: a known finding)."""
    rows = [r for r in tr.rows if r.stype != "ProcessBreakdown"]
    end = last_entry(tr)
    ev = []
    kinds = {"Breakdown": "UD", "Setup": "ST", "Charging": "CR"}
    for j in tr.jobs:
        if j.res != rid or j.zero:
            continue
        if j.stype in kinds:
            ev.append((j.start, kinds[j.stype], 1))
            ev.append((j.end if j.end is not None else end, kinds[j.stype], -1))
        elif j.stype in ("Production", "Transport"):
            ev.append((j.start, "open", 1))
            ev.append((j.end if j.end is not None else end, "open", -1))
            segs = list(j.segs)
            if j.open_seg is not None:
                segs.append((j.open_seg, end))
            for a, b in segs:
                ev.append((a, "PR", 1))
                ev.append((b, "PR", -1))
    last_kind = {}
    order = {"finished product": 1, "created product": 2, "end state": 5, "end interrupt": 4, "start state": 6, "start interrupt": 7}
    for r in rows:
        if r.res == rid:
            iface = r.stype not in ("Production", "Transport")
            if iface and "interrupt" in r.act:
                continue
            k = {"start state": 8, "end state": 3}.get(r.act, 0) if iface else order.get(r.act, 0)
            last_kind[r.t] = max(last_kind.get(r.t, 0), k)
    ev.sort(key=lambda e: e[0])
    n = collections.Counter()
    out = collections.Counter()
    last, lost, at = 0.0, 0.0, None
    for t, k, d in ev + [(end, None, 0)]:
        if t > last:
            if n["UD"] > 0:
                kind = "UD"
            elif n["CR"] > 0:
                kind = "CR"
            elif n["ST"] > 0:
                kind = "ST"
            elif n["PR"] > 0:
                kind = "PR"
            elif n["open"] > 0:
                kind = "UD"
            else:
                kind = "SB"
            cuts = sorted({last, t} | {x for x in last_kind if last < x < t})
            for a, b in zip(cuts, cuts[1:]):
                a2, b2 = max(a, since), max(b, since)
                out[kind] += b2 - a2
                if kind == "PR" and last_kind.get(a) == 5 and n["open"] % 2 == 0:
                    lost += b2 - a2
            last = t
        if k:
            n[k] += d
    return out, end, lost


def shares(tr, rid, since, g, total, out, c, what=""):
    """Compare the reported durations {kind: (duration, percent)} of a resource with the log."""
    exact, end, lost = activity(tr, rid, since)
    period = end - since
    c["resources" + what] += 1
    if period <= EPS:
        return
    if any(v[1] < -1e-9 or v[1] > 100 + 1e-6 for v in g.values()) or not close(sum(v[1] for v in g.values()), 100):
        out.append(("shares out of bounds or not adding up to 100" + what, f"{rid}: {g}"))
    bad = None
    for k in ("PR", "SB", "ST", "UD", "CR"):
        c["shares judged"] += 1
        if exact[k] > 0:
            c["share " + k] += 1
        if abs(g.get(k, (0, 0))[0] - exact[k]) > 1e-6 * max(1.0, end):
            bad = bad or k
    if bad is None and not close(total, period):
        bad = "period"
    if bad is None:
        for k, v in g.items():
            if not close(v[1], 100 * exact[k] / period):
                out.append(("share does not fit its duration" + what, f"{rid}: {k} {v} of {period}"))
        return
    msg = f"{rid}: {({x: round(y[0], 4) for x, y in g.items()})} of {total} reported, {({x: round(y, 4) for x, y in exact.items()})} of {period} in the log"
    mech = None
    if lost > 0:
        alt = dict(exact)
        alt["PR"] -= lost
        if all(abs(g.get(k, (0, 0))[0] - alt.get(k, 0)) <= 1e-6 * max(1.0, end) for k in ("PR", "SB", "ST", "UD", "CR")) and close(total, period - lost):
            mech = "even-jobs-left"
            c["lost time with an even number of jobs left"] += 1
    out.append((f"wrong time share {bad}" + what, msg, mech))


def evaluate(spec):
    prof = dict(simcheck.PROFILES[spec["profile"]])
    data = gen.generate(spec["seed"], prof)
    tr = trace.run(data)
    c = collections.Counter(runs=1, log_rows=len(tr.rows))
    out = simcheck.crash_violation(tr)
    if out or not tr.rows:
        return core.Outcome(out, c, False)
    runner = tr.runner
    try:
        judge(tr, runner, out, c)
        more(tr, runner, out, c)
        warm(tr, runner, out, c)
    except Exception as e:
        import traceback
        f = traceback.extract_tb(e.__traceback__)
        out.append(("computing performance figures fails", f"{type(e).__name__}: {str(e)[:200]} at {f[-1].filename.split('/')[-1]}:{f[-1].name} / " + " < ".join(x.name for x in f[-6:])))
    return core.Outcome(out, c, c["finished"] > 0, core.digest([(r.t, r.res, r.act, r.prod) for r in tr.rows]), dict(spec=spec, observed=dict(c)))


def judge(tr, runner, out, c):
    p = runner.get_post_processor()
    created, finished = {}, {}
    for r in tr.rows:
        if r.act == "created product":
            created[r.prod] = r.t
        elif r.act == "finished product":
            finished[r.prod] = r.t
    c["finished"] += len(finished)
    want = {o: (tr.ptype(o), finished[o] - created[o], created[o], finished[o]) for o in finished}
    df = p.df_throughput
    got = {}
    for _, x in df.iterrows():
        if x["Product"] in got:
            out.append(("product listed twice", str(x["Product"])))
        got[x["Product"]] = (x["Product_type"], float(x["Throughput_time"]), float(x["Start_time"]), float(x["End_time"]))
    if set(got) != set(want):
        out.append(("throughput table lists the wrong products", f"missing {sorted(set(want) - set(got))[:5]}, extra {sorted(set(got) - set(want))[:5]}"))
    for o in set(got) & set(want):
        if got[o][0] != want[o][0] or any(not close(x, y) for x, y in zip(got[o][1:], want[o][1:])):
            out.append(("wrong throughput time", f"{o}: {got[o]} reported, {want[o]} in the log"))
            break
    if finished:
        figures(p, list(want.values()), out, c, "")
    # WIP over time
    seq = sorted([(t, -1) for t in finished.values()] + [(t, 1) for t in created.values()])
    level = {}
    n = 0
    for t, d in seq:
        n += d
        level[t] = n
    times = sorted(level)
    w = p.df_WIP
    w = w.loc[w["WIP_Increment"] != 0]
    seen = {}
    for t, x in zip(w["Time"], w["WIP"]):
        seen[float(t)] = x
    c["WIP steps"] += len(seen)
    if sorted(seen) != times:
        out.append(("WIP changes at the wrong instants", f"{sorted(set(seen) ^ set(times))[:5]}"))
    else:
        bad = [(t, seen[t], level[t]) for t in times if seen[t] != level[t]]
        if bad:
            out.append(("wrong WIP", f"time, reported, true: {bad[:4]}"))
    mean_wip(tr, p, created, finished, out, c)
    # resources
    states = p.df_aggregated_resource_states
    rep = collections.defaultdict(dict)
    per = {}
    for _, x in states.iterrows():
        rep[x["Resource"]][x["Time_type"]] = (float(x["time_increment"]), float(x["percentage"]))
        per[x["Resource"]] = float(x["resource_time"])
    for rid in tr.R:
        mine = [r for r in tr.rows if r.res == rid]
        if not mine:
            if rid in rep:
                out.append(("figures for a resource without events", rid))
            continue
        end = last_entry(tr)
        g = rep.get(rid, {})
        if not g:
            if end > 0 and any(r.stype != "ProcessBreakdown" for r in mine):
                out.append(("no figures for a resource", rid))
            continue
        shares(tr, rid, 0.0, g, per[rid], out, c)
    ks = collections.defaultdict(list)
    for k in p.machine_state_KPIS:
        ks[k.resource].append((getattr(k.name, "value", k.name), k.value))
    name = dict(SB="standby_time", PR="productive_time", UD="unscheduled_downtime", ST="setup_time", CR="charging_time")
    for rid, g in rep.items():
        w = sorted((name[t], v[1]) for t, v in g.items())
        h = sorted(ks.get(rid, []))
        if [x[0] for x in w] != [x[0] for x in h] or any(not close(x[1], y[1]) for x, y in zip(w, h)):
            out.append(("reported resource figures differ from their table", f"{rid}: {h} / {w}"))


def figures(p, rows, out, c, what):
    by = collections.defaultdict(list)
    for r in rows:
        by[r[0]].append(r)
    t0, t1 = min(r[2] for r in rows), max(r[3] for r in rows)
    tp = {k.product_type: k.value for k in p.throughput_and_output_KPIs if getattr(k.name, "value", k.name) == "throughput"}
    op = {k.product_type: k.value for k in p.throughput_and_output_KPIs if getattr(k.name, "value", k.name) == "output"}
    tt = {k.product_type: k.value for k in p.aggregated_throughput_time_KPIs}
    for nm, g in (("throughput", tp), ("output", op), ("throughput time", tt)):
        if set(g) != set(by):
            out.append((f"{nm}{what} reported for the wrong product types", f"{sorted(g)} / {sorted(by)}"))
            return
    for t, rs in by.items():
        c["product types" + what] += 1
        if op[t] != len(rs):
            out.append(("wrong output" + what, f"{t}: {op[t]}, log {len(rs)}"))
        if t1 > t0 and not close(tp[t], len(rs) / (t1 - t0)):
            out.append(("wrong throughput" + what, f"{t}: {tp[t]}, log {len(rs) / (t1 - t0)}"))
        m = sum(r[1] for r in rs) / len(rs)
        if not close(tt[t], m):
            out.append(("wrong mean throughput time" + what, f"{t}: {tt[t]}, log {m}"))
    a = [p.get_aggregated_throughput_data(), p.get_aggregated_throughput_time_data()]
    if sorted(a[0]) != sorted(len(rs) for rs in by.values()):
        out.append(("wrong aggregated output" + what, str(a[0])))


def mean_wip(tr, p, created, finished, out, c):
    """Average over the log entries (entries of auxiliaries excluded) of the number of products in the system."""
    k = {x.product_type: x.value for x in p.WIP_KPIs}
    c["WIP figures"] += len(k)
    total = k.get("all_products")
    if total is None:
        out.append(("no total WIP", str(k)))
        return
    aux = {r.prod for r in tr.rows if r.act == "created auxiliary"}
    rows = [r for r in tr.rows if r.stype != "ProcessBreakdown" and r.prod not in aux and r.act in
            ("created product", "finished product", "start state", "end state", "start interrupt", "end interrupt")
            and not (r.stype in ("Setup", "Breakdown", "Charging") and "interrupt" in r.act)]

    def band(rows, made, done):
        """Extreme orders of simultaneous entries, plus one opening entry per resource without products."""
        ts = sorted(made)
        fs = sorted(done)
        import bisect
        lo = hi = 0.0
        for r in rows:
            hi += bisect.bisect_right(ts, r.t) - bisect.bisect_left(fs, r.t)
            lo += bisect.bisect_left(ts, r.t) - bisect.bisect_right(fs, r.t)
        n = len(rows)
        return lo / (n + len(tr.R)), hi / n
    lo, hi = band(rows, created.values(), finished.values())
    if not (lo - EPS <= total <= hi + EPS):
        out.append(("wrong mean WIP", f"{total}, between {lo} and {hi} by the log"))
    for t in tr.PR:
        mine = [r for r in rows if r.prod is not None and r.prod in created and tr.ptype(r.prod) == t]
        if not mine:
            continue
        if t not in k:
            out.append(("no WIP for a product type", t))
            continue
        c["WIP by type"] += 1
        lo, hi = band(mine, [x for o, x in created.items() if tr.ptype(o) == t], [x for o, x in finished.items() if tr.ptype(o) == t])
        if not (lo - EPS <= k[t] <= hi + EPS):
            out.append(("wrong mean WIP of a product type", f"{t}: {k[t]}, between {lo} and {hi} by the log"))


def busy_times(tr):
    """{product: {kind: time worked on it}}"""
    out = collections.defaultdict(collections.Counter)
    for j in tr.jobs:
        if j.stype in ("Production", "Transport") and not j.zero:
            for a, b in j.segs:
                out[j.prod][j.stype] += b - a
    return out


def ratio(tr, p, rows, out, c, what):
    """rows: (type, throughput time, start, end, product) of the products considered."""
    busy = busy_times(tr)
    by = collections.defaultdict(list)
    for r in rows:
        by[r[0]].append(r)
    got = {x["Product_type"]: x for _, x in p.df_production_flow_ratio.iterrows()}
    if set(got) != set(by):
        out.append(("flow ratio for the wrong product types" + what, f"{sorted(got)} / {sorted(by)}"))
        return
    for t, rs in by.items():
        m = sum(r[1] for r in rs) / len(rs)
        if m <= EPS:
            continue
        a = 100 * sum(busy[r[4]]["Production"] for r in rs) / len(rs) / m
        b = 100 * sum(busy[r[4]]["Transport"] for r in rs) / len(rs) / m
        c["flow ratios" + what] += 1
        for k, w in (("Production ", a), ("Transport ", b), ("Idle ", 100 - a - b)):
            if not close(got[t][k], w):
                out.append(("wrong flow ratio" + what, f"{t}: {k}{got[t][k]}, log {w}"))
                return


def series(rows, up, down):
    """Running count after each instant."""
    n, level = 0, {}
    for r in rows:
        d = 1 if r.act == up else -1 if r.act == down else 0
        n += d
        level[r.t] = n
    return level


def more(tr, runner, out, c):
    p = runner.get_post_processor()
    made, done = {}, {}
    for r in tr.rows:
        if r.act == "created product":
            made[r.prod] = r.t
        elif r.act == "finished product":
            done[r.prod] = r.t
    full = [(tr.ptype(o), done[o] - made[o], made[o], done[o], o) for o in done]
    if full:
        ratio(tr, p, full, out, c, "")
    # single throughput times
    want = {o: (t, x, a, b) for t, x, a, b, o in full}
    got = {k.product: (k.product_type, k.value, k.start_time, k.end_time) for k in p.dynamic_thoughput_time_KPIs}
    c["throughput times of products"] += len(got)
    if set(got) != set(want) or any(got[o][0] != want[o][0] or any(not close(x, y) for x, y in zip(got[o][1:], want[o][1:])) for o in want):
        out.append(("wrong throughput times of products", f"{[(o, got.get(o), want.get(o)) for o in sorted(set(got) | set(want)) if got.get(o) != want.get(o)][:2]}"))
    # products in the system over time, as figures
    for t in sorted({tr.ptype(o) for o in made}) + ["Total"]:
        ks = [k for k in p.dynamic_WIP_KPIs if k.product_type == t]
        ev = sorted([x for o, x in made.items() if t in (tr.ptype(o), "Total")] + [x for o, x in done.items() if t in (tr.ptype(o), "Total")])
        c["WIP periods"] += len(ks)
        if len(ks) != len(ev):
            out.append(("WIP over time has another number of steps", f"{t}: {len(ks)}, log {len(ev)}"))
            continue
        ks = sorted(ks, key=lambda k: (k.start_time, k.end_time))
        if any(not close(k.start_time, x) for k, x in zip(ks, ev)):
            out.append(("WIP over time changes at other instants", t))
            continue
        last = {}
        for k, nxt in zip(ks, ev[1:] + ev[-1:]):
            if not close(k.end_time, nxt):
                out.append(("a WIP period ends at another instant", f"{t}: {k.start_time} to {k.end_time}, next {nxt}"))
                break
            if k.end_time > k.start_time:
                n = sum(1 for o, x in made.items() if t in (tr.ptype(o), "Total") and x <= k.start_time) - sum(1 for o, x in done.items() if t in (tr.ptype(o), "Total") and x <= k.start_time)
                c["WIP periods judged"] += 1
                if k.value != n:
                    out.append(("wrong WIP in a period", f"{t}: {k.value} from {k.start_time} to {k.end_time}, log {n}"))
                    break
    # auxiliaries in use over time
    types = {}
    for r in tr.rows:
        if r.act == "created auxiliary":
            types[r.prod] = r.prod.rsplit("_", 1)[0]
    if sorted(p.get_auxiliary_ids()) != sorted(types) or sorted(p.get_auxiliary_types()) != sorted(set(types.values())):
        out.append(("wrong auxiliaries", f"{p.get_auxiliary_ids()[:3]} {p.get_auxiliary_types()}, log {sorted(types)[:3]}"))
    elif types:
        mean = {}
        for t in sorted(set(types.values())) + ["Total"]:
            rows = [r for r in tr.rows if r.prod in types and t in (types[r.prod], "Total")]
            df = p.df_auxiliary_WIP if t == "Total" else p.df_auxiliary_WIP_per_auxiliary_type
            if t != "Total":
                df = df.loc[df["Auxiliary_type"] == t]
            seen = {}
            for x, y in zip(df["Time"], df["auxiliary_WIP"]):
                seen[float(x)] = y
            level = series(rows, "started auxiliary usage", "finished auxiliary usage")
            c["auxiliary usage steps"] += len(level)
            if seen != level:
                out.append(("wrong number of auxiliaries in use", f"{t}: {[(x, seen.get(x), level.get(x)) for x in sorted(set(seen) | set(level)) if seen.get(x) != level.get(x)][:3]}"))
                break
            n, tot = 0, 0
            for r in rows:
                n += {"started auxiliary usage": 1, "finished auxiliary usage": -1}.get(r.act, 0)
                tot += n
            mean["all_products" if t == "Total" else t] = tot / len(rows)
        else:
            g = {getattr(k.product_type, "value", k.product_type): k.value for k in p.auxiliary_WIP_KPIs}
            c["auxiliary figures"] += len(g)
            if set(g) != set(mean) or any(not close(g[x], mean[x]) for x in g):
                out.append(("wrong mean number of auxiliaries in use", f"{g}, log {mean}"))
    # availability
    down, n = 0.0, 0
    for _, x in p.df_aggregated_resource_states.drop_duplicates("Resource").iterrows():
        n += 1
    for _, x in p.df_aggregated_resource_states.iterrows():
        if x["Time_type"] == "UD":
            down += x["percentage"]
    if n:
        oee = dict(zip(p.df_oee_production_system["KPI"], p.df_oee_production_system["Value"]))
        c["availabilities"] += 1
        c["availabilities below 100"] += down > 0
        if abs(oee["Availability"] - (100 - down / n)) > 0.0051 or oee["OEE"] != oee["Availability"]:
            out.append(("wrong availability", f"{oee}, by the reported downtimes {100 - down / n}"))


def warm(tr, runner, out, c):
    """The warm-up cut-off removes exactly the products that started before some instant."""
    for method in ("mser5", "threshold_stabilization", "static_ratio"):
        p = PostProcessor(df_raw=runner.event_logger.get_data_as_dataframe(), warm_up_cutoff=True, cut_off_method=method)
        full = [(x["Product_type"], float(x["Throughput_time"]), float(x["Start_time"]), float(x["End_time"]), x["Product"]) for _, x in p.df_throughput.iterrows()]
        if len(full) < 3:
            continue
        kept = p.df_throughput_with_warum_up_cutoff
        ids = set(kept["Product"])
        if not ids:
            out.append(("the warm-up cut-off removes everything", method))
            continue
        cut = min(x[2] for x in full if x[4] in ids)
        c["warm-up cut-offs"] += 1
        gone = [x for x in full if x[4] not in ids]
        c["warm-up removed something"] += bool(gone)
        wrong = [x for x in gone if x[2] >= cut]
        if wrong:
            out.append(("the warm-up cut-off does not remove the earlier part", f"{method}: cut at {cut}, removed {wrong[:3]}"))
        types = {x[0] for x in full}
        if {x[0] for x in full if x[4] in ids} != types:
            out.append(("the warm-up cut-off removes a product type", f"{method}"))
        if not gone and p.warm_up_cutoff_time != 0:
            out.append(("warm-up time without removal", f"{method}: {p.warm_up_cutoff_time}"))
        if gone and not close(p.warm_up_cutoff_time, cut):
            out.append(("wrong warm-up time", f"{method}: {p.warm_up_cutoff_time}, {cut}"))
        figures(p, [x for x in full if x[4] in ids], out, c, " after warm-up")
        ratio(tr, p, [x for x in full if x[4] in ids], out, c, " after warm-up")
        st = p.df_aggregated_resource_states
        for rid, g in st.groupby("Resource"):
            if rid in tr.R:
                d = {x["Time_type"]: (float(x["time_increment"]), float(x["percentage"])) for _, x in g.iterrows()}
                shares(tr, rid, float(p.warm_up_cutoff_time), d, float(g["resource_time"].iloc[0]), out, c, " after warm-up")


def cases(seed, tier):
    n = 600 if tier == "quick" else 12000
    names = []
    for x, w in PROFILES:
        names += [x] * w
    return [dict(profile=names[i % len(names)], seed=f"P18/{seed}/{i}") for i in range(n)]


def definition():
    return dict(cases=cases, evaluate=evaluate,
                required=["product types", "resources", "share PR", "share SB", "share ST", "share UD", "share CR", "WIP figures", "warm-up removed something",
                          "flow ratios", "flow ratios after warm-up", "WIP periods judged", "throughput times of products", "auxiliary figures", "availabilities below 100"],
                rule="a random configuration simulated and its figures recomputed; distinct = the event log differs")
