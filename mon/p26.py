"""P26: battery-powered resources recharge in time and do not work while charging."""
import collections
import math
import random

from mon import core, gen, oracles, simcheck, trace

SHARE = 0.9  # of the battery life may be used between two charges
MIX = ["charge", "charge", "busy", "fail", "multi", "vehicles", "aux", "setup", "rework", "link", "tight", "zero", "queues", "batch", "batchpure", "names", "planned"]


def data_of(spec):
    rng = random.Random(spec["seed"] + "/p26")
    prof = dict(simcheck.PROFILES[spec["profile"]])
    prof.update(p_charging=0.0)
    if spec["profile"] != "link":
        prof.update(p_link=0.0)
    d = gen.generate(spec["seed"], prof)
    n = [0]
    mean = max(1.0, d["_horizon"] / rng.choice([10, 25, 60]))

    def num(lo, hi):
        return float(rng.randint(max(1, int(lo)), max(1, int(hi)))) if rng.random() < 0.6 else round(rng.uniform(lo, hi), 3)

    def model(lo, hi):
        n[0] += 1
        x = dict(ID=f"ch_tm{n[0]}", description="")
        if rng.random() < 0.7:
            x.update(distribution_function="constant", location=num(lo, hi), scale=0.0)
        else:
            x.update(samples=[num(lo, hi) for _ in range(rng.randint(1, 4))])
        d["time_model_data"].append(x)
        return x["ID"]
    for r in d["resource_data"]:
        vehicle = r["controller"] == "TransportController"
        if rng.random() < (0.85 if vehicle else 0.5):
            for k in range(rng.choice([1, 1, 1, 2])):
                sid = f"CH{k}_{r['ID']}"
                d["state_data"].append(dict(ID=sid, description="", type="ChargingState", time_model_id=model(0.1 * mean, 0.8 * mean), battery_time_model_id=model(0.3 * mean, 3 * mean)))
                r["state_ids"].append(sid)
    return d


def values(x):
    return x["samples"] if "samples" in x else [x["location"]]


def judge(tr, c):
    out = []
    down = collections.defaultdict(list)
    for j in tr.jobs:
        if j.stype == "Breakdown":
            down[j.res].append((j.start, math.inf if j.end is None else j.end))
    for rid, r in tr.R.items():
        cs = [tr.ST[s] for s in r["state_ids"] if tr.ST[s]["type"] == "ChargingState"]
        vehicle = r["controller"] == "TransportController"
        charges = sorted((j for j in tr.jobs if j.res == rid and j.stype == "Charging"), key=lambda j: j.first.i)
        if not cs:
            if charges:
                out.append(("charging without a battery", str(charges[0])))
            continue
        link = any(tr.P[p]["type"] == "LinkTransportProcesses" for p in r["process_ids"])
        c["batteries of " + ("vehicles" if vehicle else "machines")] += len(cs)
        work = sorted((j for j in tr.jobs if j.res == rid and j.stype in ("Production", "Transport")), key=lambda j: j.first.i)
        # nothing is worked while charging
        for g in charges:
            ge = math.inf if g.end is None else g.end
            for j in work:
                je = math.inf if j.end is None else j.end
                if min(je, ge, tr.horizon) - max(j.start, g.start) > 1e-9 * max(1, g.start):
                    out.append((("a vehicle moves" if vehicle else "a machine works") + " while charging", f"{g} {j}"))
                    break
            if g.prod is not None:
                out.append(("charging with a product", str(g)))
        first = firsts(work, link)
        batch = r["controller"] == "BatchController"
        for st in cs:
            B = values(tr.TM[st["battery_time_model_id"]])
            lo, hi = SHARE * min(B), SHARE * max(B)
            ct = values(tr.TM[st["time_model_id"]])
            mine = [g for g in charges if g.state == st["ID"]]
            c["charges"] += len(mine)
            for g in mine:
                if g.end is not None:
                    c["complete charges"] += 1
                    if len(g.segs) > 1 or not any(abs(g.end - g.start - x) < 1e-6 * max(1, g.end) for x in ct):
                        out.append(("a charge takes another time than its model provides", f"{g} {ct}"))
            # usage over the log order; a charge counts from its end
            ev = [(j.first.i, 0, j) for j in work] + [(g.first.i, 1, g) for g in mine] + [(g.last.i, 2, g) for g in mine if g.end is not None]
            use, due_since = 0.0, None
            n, over, begun = 0, 0, None
            for i, what, j in sorted(ev, key=lambda e: e[:2]):
                tol = 1e-6 * max(1.0, hi)
                if what == 0:
                    over += j.first.i in first and use >= hi + tol and not j.zero and not (batch and j.start == begun)  # a batch begins as one
                    begun = j.start
                    if over >= r["capacity"]:  # others may have been taken before the battery was used up
                        out.append((("a vehicle" if vehicle else "a machine") + " takes a job although it has to charge first", f"{j}: {use} used of {hi}"))
                        break
                    c["jobs of battery-powered resources"] += 1
                    if n and j.first.i in first:
                        c["jobs after a charge"] += 1
                    if not j.zero:
                        use += j.exp[0] - j.start
                elif what == 1:
                    if use < lo - tol:
                        out.append(("charging without need", f"{j}: {use} used, permitted {lo}"))
                else:
                    use = 0.0
                    over = 0
                    n += 1
            # charging begins as soon as the job that used up the battery has ended
            if r["capacity"] == 1 and len(cs) == 1 and (vehicle or all(tr.Q[q]["capacity"] == 0 and "location" not in tr.Q[q] for q in r["output_queues"])) and not link:
                out += prompt(tr, rid, work, mine, hi, down[rid], c, vehicle)
    return out


def firsts(work, link):
    """Log positions at which a resource begins something new (not the loaded leg after the empty one)."""
    res, last = set(), {}
    for j in work:
        prev = last.get(j.prod) if j.stype == "Transport" else None
        if prev is None or not (link or (prev.empty and not j.empty)):
            res.add(j.first.i)
        last[j.prod] = j
    return res


def prompt(tr, rid, work, charges, hi, down, c, vehicle):
    use, k = 0.0, 0
    for i, j in enumerate(work):
        while k < len(charges) and charges[k].last.i < j.first.i:
            k += 1
            use = 0.0
        if not j.zero:
            use += j.exp[0] - j.start
        if j.end is None:
            break
        if vehicle and j.empty:
            continue  # the loaded leg follows
        if use < hi + 1e-6 * max(1.0, hi):
            continue
        if k < len(charges):
            at = charges[k].start
            # a breakdown in between has to end first
            want = j.end
            for a, b in sorted(down):
                if a <= want + 1e-9 and b > want:
                    want = b
            if at > want + 1e-6 * max(1.0, want) and at > j.end + 1e-6:
                return [("charging begins late", f"{charges[k]}: due at {want} after {j}")]
            c["charges begun at once"] += 1
        elif j.end < tr.horizon - 1e-6 and not any(a <= j.end + 1e-9 and b >= tr.horizon for a, b in chain(down)):
            return [("an empty battery is not charged", f"{rid}: {use} used of {hi} at {j.end} of {tr.horizon}")]
    return []


def chain(down):
    """Breakdown intervals joined where they overlap."""
    res = []
    for a, b in sorted(down):
        if res and a <= res[-1][1] + 1e-9:
            res[-1] = (res[-1][0], max(b, res[-1][1]))
        else:
            res.append((a, b))
    return res


def evaluate(spec):
    tr = trace.run(data_of(spec), [oracles.PlaceMonitor()])
    c = collections.Counter(runs=1, log_rows=len(tr.rows))
    out = simcheck.crash_violation(tr)
    if tr.crash and tr.crash[0] == "budget":
        c["budget exceeded"] += 1
    else:
        out += judge(tr, c)
    sig = core.digest([(r.t, r.res, r.act, r.prod) for r in tr.rows])
    return core.Outcome(out, c, c["charges"] > 0, sig, dict(spec=spec, observed=dict(c), **simcheck.sample(tr)))


def definition():
    def cases(seed, tier):
        n = 1000 if tier == "quick" else 30000
        return [dict(profile=MIX[i % len(MIX)], seed=f"P26/{seed}/{i}") for i in range(n)]
    return dict(cases=cases, evaluate=evaluate,
                required=["batteries of vehicles", "batteries of machines", "complete charges", "jobs after a charge", "charges begun at once"],
                rule="a generated production system whose vehicles and machines have batteries of various lives; distinct = different event log",
                assumptions=["the usage of a battery counts the planned duration of every job at its start", "setups use no battery"])
