"""P19: time models deliver exactly the specified times."""
import collections
import math
import random

import numpy as np

from mon import core
from prodsys import adapters
from prodsys.factories.time_model_factory import TimeModelFactory

KINDS = ["constant", "normal", "exponential", "lognormal", "sample", "sequential", "scheduled", "distance", "manhattan"]


def number(rng, lo, hi):
    return float(round(rng.uniform(lo, hi), rng.choice([0, 1, 3]))) if rng.random() < 0.9 else rng.randint(int(lo), int(hi) + 1)


def models(rng):
    out = []
    n = rng.randint(3, 12)
    for i in range(n):
        k = rng.choice(KINDS)
        ID = rng.choice(["tm", "t", "time_model_"]) + str(i)
        m = dict(ID=ID, description=k)
        if k in ("constant", "normal", "exponential", "lognormal"):
            loc = number(rng, 0.5, 60)
            m.update(distribution_function=k, location=loc or 1.0, scale=round((loc or 1.0) * rng.choice([0, 0.05, 0.1, 0.4, 1.0, 2.5]), 4))
            if k == "constant" and rng.random() < 0.3:
                m.update(location=0.0)
            if k in ("exponential", "constant"):
                m.update(scale=rng.choice([0.0, 1.0, 7.0]))
            if k == "lognormal" and m["scale"] == 0:
                m["scale"] = 0.3
        elif k in ("sample", "sequential"):
            s = [number(rng, 0, 30) for _ in range(rng.randint(1, 7))]
            if rng.random() < 0.3:
                s.append(s[0])
            m["samples" if k == "sample" else "sequence"] = s
        elif k == "scheduled":
            absolute = rng.random() < 0.5
            s = [number(rng, 0.1, 20) for _ in range(rng.randint(1, 8))]
            if absolute:
                s = sorted(s)
                if rng.random() < 0.2:
                    s.append(s[-1])
            m.update(schedule=s, absolute=absolute, cyclic=rng.random() < 0.5)
        elif k == "distance":
            m.update(speed=number(rng, 1, 200), reaction_time=number(rng, 0, 2), metric=rng.choice(["manhattan", "euclidian", "euclidean"]))
            if rng.random() < 0.2:
                del m["metric"]
        else:
            m.update(speed=number(rng, 1, 200), reaction_time=number(rng, 0, 2))
            m["speed"] = m["speed"] or 1.0
        out.append(m)
    rng.shuffle(out)
    return out


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def phi(x):
    return 0.5 * (1 + math.erf(x / math.sqrt(2)))


def ks(xs, cdf):
    """Two-sided Kolmogorov-Smirnov p-value (asymptotic)."""
    xs = sorted(xs)
    n = len(xs)
    d = 0.0
    for i, x in enumerate(xs):
        f = cdf(x)
        d = max(d, f - i / n, (i + 1) / n - f)
    lam = (math.sqrt(n) + 0.12 + 0.11 / math.sqrt(n)) * d
    return max(0.0, min(1.0, 2 * sum((-1) ** (k - 1) * math.exp(-2 * k * k * lam * lam) for k in range(1, 101)))) if lam > 0.2 else 1.0


P_MIN = 1e-10


def evaluate(spec):
    rng = random.Random(spec["seed"])
    out, c = [], collections.Counter(runs=1)
    data = models(rng)
    try:
        adapter = adapters.JsonProductionSystemAdapter(time_model_data=data)
        f = TimeModelFactory()
        f.create_time_models(adapter)
        tms = {m["ID"]: f.get_time_model(m["ID"]) for m in data}
        rng2 = random.Random(spec["seed"] + "x")
        for m in data:
            some = rng2.sample([x["ID"] for x in data], rng2.randint(1, len(data)))
            got = [x.time_model_data.ID for x in f.get_time_models(some)]
            if sorted(got) != sorted(some):
                out.append(("wrong models looked up", f"{some}: {got}"))
    except Exception as e:
        return core.Outcome([("time models cannot be created", f"{type(e).__name__}: {e}")], c)
    np.random.seed(rng.randrange(2**32))
    random.seed(rng.randrange(2**32))
    for m in data:
        if tms[m["ID"]].time_model_data.ID != m["ID"]:
            out.append(("wrong model looked up", m["ID"]))
    # interleaved draws
    draws = collections.defaultdict(list)
    total = spec["draws"]
    order = []
    for m in data:
        order += [m] * max(1, int(total * rng.choice([0.2, 1, 1]) / len(data) * 3))
    rng.shuffle(order)
    for m in order:
        tm = tms[m["ID"]]
        try:
            if "speed" in m:
                a = [number(rng, -50, 80), number(rng, -50, 80)]
                b = [number(rng, -50, 80), number(rng, -50, 80)] if rng.random() > 0.05 else list(a)
                a0, b0 = list(a), list(b)
                if rng.random() < 0.5:
                    e = tm.get_expected_time(a, b)
                    v = tm.get_next_time(a, b)
                else:
                    v = tm.get_next_time(origin=a, target=b)
                    e = tm.get_expected_time(origin=a, target=b)
                if m.get("metric", "manhattan") == "manhattan":
                    d = abs(a0[0] - b0[0]) + abs(a0[1] - b0[1])
                else:
                    d = math.hypot(a0[0] - b0[0], a0[1] - b0[1])
                w = d / m["speed"] + m["reaction_time"]
                c["distances " + m.get("metric", "default metric" if m["description"] == "distance" else "deprecated model")] += 1
                if not near(v, w) or not near(e, w):
                    out.append(("wrong distance time", f"{m}: {a0} -> {b0}: {v}, expected {e}, should be {w}"))
            else:
                if rng.random() < 0.02:
                    e = tm.get_expected_time()  # must not consume anything
                v = tm.get_next_time()
        except Exception as e:
            out.append(("drawing a time fails", f"{m}: {type(e).__name__}: {e}"))
            break
        draws[m["ID"]].append(float(v))
    for m in data:
        xs = draws[m["ID"]]
        judge(m, tms[m["ID"]], xs, out, c)
    return core.Outcome(out, c, True, core.digest(sorted((k, tuple(v[:5])) for k, v in draws.items())), dict(spec=spec, models=[m["description"] for m in data]))


def judge(m, tm, xs, out, c):
    k = m["description"]
    c["draws " + k] += len(xs)
    n = len(xs)
    neg = [x for x in xs if x < 0 or x != x]
    if neg and k != "scheduled":
        out.append(("negative time", f"{m}: {neg[:3]}"))
        return
    if k in ("constant", "normal", "exponential", "lognormal"):
        if not near(tm.get_expected_time(), m["location"]):
            out.append(("wrong expected time", f"{m}: {tm.get_expected_time()}"))
    loc, sc = m.get("location"), m.get("scale")
    if k == "constant":
        if any(x != loc for x in xs):
            out.append(("wrong constant time", f"{m}: {[x for x in xs if x != loc][:3]}"))
    elif k in ("sample", "sequential"):
        s = m["samples"] if k == "sample" else m["sequence"]
        if any(x not in s for x in xs):
            out.append(("time that is no sample", f"{m}: {[x for x in xs if x not in s][:3]}"))
        if not near(tm.get_expected_time(), sum(s) / len(s)):
            out.append(("wrong expected time", f"{m}: {tm.get_expected_time()}"))
        w = collections.Counter(float(x) for x in s)
        got = collections.Counter(xs)
        if n >= 30 * len(s):
            for v, a in w.items():
                p = a / len(s)
                if p < 1:
                    z = (got[v] - n * p) / math.sqrt(n * p * (1 - p))
                    c["sample frequencies"] += 1
                    if abs(z) > 8:
                        out.append(("samples not equally likely", f"{m}: {v} came {got[v]} of {n} times"))
    elif k == "scheduled":
        s = m["schedule"]
        rel = [s[0]] + [b - a for a, b in zip(s, s[1:])] if m["absolute"] else list(s)
        want = []
        i = 0
        while len(want) < n:
            if i < len(rel):
                want.append(rel[i])
                i += 1
            elif m["cyclic"]:
                i = 0
                c["schedules repeated"] += 1
            else:
                want.append(-1)
                c["schedules ended"] += 1
        bad = [j for j in range(n) if not near(xs[j], want[j])]
        if bad:
            out.append(("schedule not followed", f"{m}: draw {bad[0]} is {xs[bad[0]]} instead of {want[bad[0]]}"))
        if not near(tm.get_expected_time(), sum(rel) / len(rel)):
            out.append(("wrong expected time", f"{m}: {tm.get_expected_time()}"))
    elif k in ("normal", "exponential", "lognormal") and n >= 50:
        if (sc == 0 and k == "normal"):
            if any(x != loc for x in xs):
                out.append(("a distribution without spread varies", f"{m}: {xs[:3]}"))
            return
        if len(set(xs) - {0.1}) < 0.98 * len([x for x in xs if x != 0.1]):
            out.append(("stochastic values repeat", f"{m}: {n} draws, {len(set(xs))} different"))
        if k == "normal":
            p0 = phi(-loc / sc)
            cdf = lambda x: (phi((x - loc) / sc) - p0) / (1 - p0)
            pos = [x for x in xs if x != 0.1]
            nneg = n - len(pos)  # negative values are replaced
            sd = math.sqrt(n * p0 * (1 - p0)) + 1e-9
            if abs(nneg - n * p0) > 8 * sd + 3:
                out.append(("wrong share of replaced negative values", f"{m}: {nneg} of {n}, expected {n * p0:.1f}"))
            zs = [(x - loc) / sc for x in xs] if loc / sc > 8 else None
        elif k == "exponential":
            cdf, pos = (lambda x: 1 - math.exp(-x / loc)), xs
            zs = None
            c["n exponential"] += n
            c["sum exponential"] += sum(x / loc for x in xs)
            c["squares exponential"] += sum(min(x / loc, 20) ** 2 for x in xs)
        else:
            mu = math.log(loc ** 2 / math.sqrt(loc ** 2 + sc ** 2))
            sg = math.sqrt(math.log(1 + sc ** 2 / loc ** 2))
            cdf, pos = (lambda x: phi((math.log(x) - mu) / sg) if x > 0 else 0.0), xs
            zs = [(math.log(x) - mu) / sg for x in xs if x > 0]
        if zs:
            c["n " + k] += len(zs)
            c["sum " + k] += sum(zs)
            c["squares " + k] += sum(z * z for z in zs)
            c["neighbours " + k] += sum(a * b for a, b in zip(zs, zs[1:]))
        if len(pos) >= 50:
            p = ks(pos, cdf)
            c["distribution tests"] += 1
            if p < P_MIN:
                out.append(("values do not follow the distribution", f"{m}: p = {p:.3g} for {len(pos)} draws, mean {sum(pos) / len(pos):.4g}"))


def final(tot):
    """Moments of the standardised values of the whole sample."""
    for k, m2, v1, v2 in (("normal", 1.0, 1.0, 2.0), ("lognormal", 1.0, 1.0, 2.0), ("exponential", 2.0, 1.0, 20.0)):
        n = tot["n " + k]
        if n < 1000:
            continue
        m1 = 1.0 if k == "exponential" else 0.0
        z1 = (tot["sum " + k] / n - m1) / math.sqrt(v1 / n)
        z2 = (tot["squares " + k] / n - m2) / math.sqrt(v2 / n)
        if abs(z1) > 8:
            yield f"wrong mean of {k} times", f"standardised mean {tot['sum ' + k] / n:.4f} over {n} draws ({z1:.1f} standard errors off)"
        if abs(z2) > 8:
            yield f"wrong spread of {k} times", f"standardised second moment {tot['squares ' + k] / n:.4f} over {n} draws ({z2:.1f} standard errors off)"
        if k != "exponential":
            z3 = tot["neighbours " + k] / math.sqrt(n)
            if abs(z3) > 8:
                yield f"successive {k} times depend on each other", f"{z3:.1f} standard errors"


def cases(seed, tier):
    n, d = (1200, 2500) if tier == "quick" else (12000, 6000)
    return [dict(seed=f"P19/{seed}/{i}", draws=d) for i in range(n)]


def definition():
    return dict(cases=cases, evaluate=evaluate, final=final,
                required=["draws " + k for k in KINDS] + ["distances euclidian", "distances euclidean", "distances manhattan", "schedules repeated",
                                                          "schedules ended", "distribution tests", "sample frequencies", "n normal", "n lognormal", "n exponential"],
                rule="a random set of time models drawn from in interleaved order; distinct = the first drawn values differ",
                assumptions=["distributions are judged by tests with false alarm probabilities below 1e-9"])
