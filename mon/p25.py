"""P25: sources release products exactly according to their arrival model."""
import collections
import random

from mon import core, gen, oracles, simcheck, trace

MIX = ["base", "busy", "tight", "fail", "link", "multi", "rework", "aux", "queues", "batch", "vehicles", "charge", "names"]
KINDS = dict(constant=2, exponential=2, normal=2, lognormal=1, sample=2, sequential=1, zeros=1, relative=3, absolute=3, cyclic=3, absolute_cyclic=2)


def data_of(spec):
    rng = random.Random(spec["seed"] + "/p25")
    prof = dict(simcheck.PROFILES[spec["profile"]])
    prof.update(products=(1, 3), p_extra_source=0.5, p_share_source_queue=0.25)
    d = gen.generate(spec["seed"], prof)
    n = [0]
    mean = d["_horizon"] * len(d["source_data"]) / rng.choice([8, 20, 40])

    def num(lo, hi):
        return float(rng.randint(max(1, int(lo)), max(1, int(hi)))) if rng.random() < 0.5 else round(rng.uniform(lo, hi), 3)

    def model(kind):
        n[0] += 1
        x = dict(ID=f"arrival{n[0]}", description="")
        if kind in ("constant", "exponential", "normal", "lognormal"):
            loc = num(0.5 * mean, 1.5 * mean)
            x.update(distribution_function=kind, location=loc, scale=0.0 if kind == "constant" else (num(0.2 * mean, 1.2 * mean) if kind == "normal" else 0.5))
            if kind == "lognormal":
                x.update(location=1.0)
            if kind == "exponential":
                x.update(scale=loc)
        elif kind in ("sample", "sequential", "zeros"):
            v = [num(0.2 * mean, 1.8 * mean) for _ in range(rng.randint(1, 5))]
            if kind == "zeros":
                v[rng.randrange(len(v)):0] = [0.0]
            x["sequence" if kind == "sequential" else "samples"] = v
        else:
            v = [num(0.2 * mean, 1.8 * mean) for _ in range(rng.randint(1, 12))]
            if rng.random() < 0.4:
                v[0] = 0.0
            if rng.random() < 0.5:
                for _ in range(rng.randint(1, 3)):
                    v.insert(rng.randrange(len(v) + 1), 0.0)
            if sum(v) == 0:
                v.append(num(0.2 * mean, 1.8 * mean))
            absolute = kind.startswith("absolute")
            if absolute:
                acc, w = 0.0, []
                for g in v:
                    acc = round(acc + g, 3)
                    w.append(acc)
                v = w
            x.update(schedule=v, absolute=absolute, cyclic=kind.endswith("cyclic"))
        d["time_model_data"].append(x)
        return x
    shared = None
    for s in d["source_data"]:
        if shared is not None and rng.random() < 0.5:
            s["time_model_id"] = shared
            continue
        kind = gen._pick(rng, KINDS)
        x = model(kind)
        s["time_model_id"] = x["ID"]
        if "schedule" in x or kind == "constant":
            shared = x["ID"]
            if "schedule" in x and x["cyclic"] and min(deltas(x)) > 0 and rng.random() < 0.25:
                rng.choice([p for p in d["process_data"] if p["type"] == "ProductionProcesses"] or [{}])["time_model_id"] = x["ID"]
        if rng.random() < 0.2:
            q = next(q for q in d["queue_data"] if q["ID"] == s["output_queues"][0])
            if q["capacity"] == 0:
                q["capacity"] = rng.choice([1, 1, 2, 3, 6])
    return d, rng


def deltas(x):
    s = x["schedule"]
    return [b - a for a, b in zip([0.0] + s, s)] if x["absolute"] else list(s)


def gaps(x, drawn):
    """Inter-arrival times of a source with a time model of its own (endless generators end with None)."""
    if "schedule" in x:
        ds = deltas(x)
        while True:
            yield from ds
            if not x["cyclic"]:
                return
    if x.get("distribution_function") == "constant":
        while True:
            yield x["location"] if x["location"] >= 0 else 0.1
    yield from drawn
    yield None  # the draws of this run end here


class Room(trace.LiveMonitor):
    """When the finite output queues of sources are full."""
    def start(self, tr, runner):
        ids = {s["output_queues"][0] for s in tr.data["source_data"]}
        self.qs = [q for q in runner.queue_factory.queues if q.data.ID in ids and q.data.capacity]
        tr.room = {q.data.ID: [(0.0, False)] for q in self.qs}

    def step(self, tr, runner, env):
        for q in self.qs:
            h = tr.room[q.data.ID]
            f = len(q.items) >= q.data.capacity
            if f != h[-1][1]:
                h.append((env.now, f))


def judge(tr, c):
    out = []
    made = collections.defaultdict(list)
    for r in tr.rows:
        if r.act == "created product":
            made[r.res].append(r)
    first = {}
    for j in tr.jobs:
        if j.stype == "Transport" and not j.empty and j.prod not in first:
            first[j.prod] = j
    users = collections.Counter(s["time_model_id"] for s in tr.data["source_data"])
    busy = collections.Counter(s["output_queues"][0] for s in tr.data["source_data"])
    for s in tr.data["source_data"]:
        x = tr.TM[s["time_model_id"]]
        got = made.pop(s["ID"], [])
        q = tr.Q[s["output_queues"][0]]
        finite = q["capacity"] > 0
        exact = "schedule" in x or x.get("distribution_function") == "constant"
        c["sources"] += 1
        c["arrivals"] += len(got)
        if users[x["ID"]] > 1:
            c["sources with a shared time model"] += 1
        if "schedule" in x:
            c["scheduled arrivals"] += len(got)
        room = tr.room.get(q["ID"]) if finite else None
        end = tr.horizon if not tr.crash else (tr.rows[-1].t if tr.rows else 0)
        t, k = 0.0, 0
        for g in gaps(x, tr.by_tm.get(x["ID"], [])):
            if g is None:
                if t < end - 1e-6:
                    out.append(("a source stops", f"{s['ID']} at {t} of {end}, {x}"))
                break
            if g < 0:
                out.append(("a source is given a negative time", f"{s['ID']} {x} {g}"))
                break
            if g == 0:
                c["arrivals without delay"] += 1
            t = t + g
            tol = 1e-9 * max(1.0, t)
            at = got[k].t if k < len(got) else None
            if t >= end - tol:
                if at is not None and at < t - tol:
                    out.append(("an arrival that the model does not provide", f"{s['ID']} {got[k].prod} at {at}, next one at {t}"))
                break
            if finite and blocked(room, t):  # the product has to wait for room, at most until the end of the run
                c["arrivals at a full queue"] += 1
                free = next((u for u, f in room if u > t + tol and not f), None)
                if at is None:
                    if free is not None and busy[q["ID"]] == 1 and free < end - 1e-6:
                        out.append(("a source stops", f"{s['ID']}: due at {t}, room at {free}"))
                    break
                if at < t - tol:
                    out.append(("a product arrives too early", f"{s['ID']} {got[k].prod} at {at}, due at {t}"))
                if busy[q["ID"]] == 1 and at > (end if free is None else free) + tol:
                    out.append(("a product arrives too late", f"{s['ID']} {got[k].prod} at {at}, due at {t}, room at {free}"))
                if at > t + tol:
                    c["arrivals after a wait for room"] += 1
                t = at
            else:
                if at is None:
                    out.append(("a product is missing", f"{s['ID']}: arrival {k} at {t} of {end}, {x}"))
                    break
                if abs(at - t) > tol:
                    out.append(("an arrival at another time than the model provides", f"{s['ID']} {got[k].prod}: {at} instead of {t} (arrival {k} of {x})"))
                    break
                c["arrivals at the given time"] += 1
                t = at
            k += 1
        else:
            c["schedules at their end"] += 1
            if len(got) > k:
                out.append(("an arrival after the end of the schedule", f"{s['ID']}: {len(got)} instead of {k} arrivals, {x}"))
        for r in got:
            if tr.ptype(r.prod) != s["product_type"]:
                out.append(("a source releases another product", f"{s['ID']} {r.prod} instead of {s['product_type']}"))
            j = first.get(r.prod)
            if j and tr.R[j.res]["capacity"] == 1:  # larger vehicles see P10
                c["first journeys"] += 1
                if j.orig not in (s["ID"], "Loading station"):
                    out.append(("a product starts elsewhere", f"{r.prod} of {s['ID']} is fetched from {j.orig}"))
                if j.start < r.t - 1e-9:
                    out.append(("a product is fetched before it exists", f"{r.prod} {r.t} {j.start}"))
    for s, rows in made.items():
        out.append(("an arrival at something that is no source", f"{s} {rows[0]}"))
    ids = [r.prod for r in tr.rows if r.act == "created product"]
    if len(ids) != len(set(ids)):
        out.append(("two products have one name", str([i for i, n in collections.Counter(ids).items() if n > 1][:3])))
    return out


def blocked(room, t):
    """Whether the queue is full at some moment of instant t (then the product of this instant may have to wait)."""
    state = False
    for u, f in room:
        if u > t + 1e-9:
            break
        if abs(u - t) <= 1e-9:
            if f or state:
                return True
        state = f
    return state


def evaluate(spec):
    d, rng = data_of(spec)
    h = d["_horizon"]
    splits = sorted(round(rng.uniform(0, h), 3) for _ in range(rng.choice([0, 0, 1, 4])))
    tr = trace.run(d, [oracles.PlaceMonitor(), Room()], splits=splits)
    c = collections.Counter(runs=1, log_rows=len(tr.rows))
    out = simcheck.crash_violation(tr)
    if tr.crash and tr.crash[0] == "budget":
        c["budget exceeded"] += 1
    elif tr.monitor_errors:
        c["monitor disabled"] += 1
    else:
        out += judge(tr, c)
    sig = core.digest([(r.t, r.res, r.prod) for r in tr.rows if r.act == "created product"])
    return core.Outcome(out, c, c["arrivals"] > 0, sig, dict(spec=spec, observed=dict(c), **simcheck.sample(tr)))


def definition():
    def cases(seed, tier):
        n = 1000 if tier == "quick" else 30000
        return [dict(profile=MIX[i % len(MIX)], seed=f"P25/{seed}/{i}") for i in range(n)]
    return dict(cases=cases, evaluate=evaluate,
                required=["sources", "arrivals at the given time", "scheduled arrivals", "sources with a shared time model", "arrivals without delay", "arrivals after a wait for room", "schedules at their end", "first journeys"],
                rule="a generated production system whose sources get arrival models of every kind; distinct = different sequence of arrivals",
                assumptions=["a source with a limited output queue holds a product back until there is room, and the next gap starts then",
                             "random arrival models are used by one source only, so that the recorded draws are those of the source"])
