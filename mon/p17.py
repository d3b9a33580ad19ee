"""P17: reproducibility, isolation, absence of side effects."""
import collections
import json
import os
import random
import subprocess
import sys
import threading
import time

import numpy as np

from mon import core, gen, simcheck, trace
from mon.trace import build, rows_of
from prodsys.util import runner as runner_module

PROFILES = ["base", "busy", "fail", "setup", "link", "rework", "multi", "tight", "store", "aux", "zero", "batch", "charge", "vehicles", "choices", "names", "planned"]
NOISY = ("normal", "exponential", "lognormal")


def config(seed, profile):
    d = gen.generate(seed, simcheck.PROFILES[profile])
    return d


def log_of(runner):
    return [(r.t, r.res, r.state, r.stype, r.act, r.prod, r.exp, r.orig, r.targ, r.empty) for r in rows_of(runner)]


def kpis(runner):
    p = runner.get_performance_data()
    return sorted(repr((k.name, k.context, k.resource, k.product_type, k.value)) for k in p.kpis)


def simulate(d, horizon, splits=(), seed=None):
    a = build(d)
    if seed is not None:
        a.seed = seed
    r = runner_module.Runner(adapter=a)
    r.initialize_simulation()
    for s in list(splits) + [horizon]:
        r.run(s)
    return r


def rng_state():
    s = np.random.get_state()
    return random.getstate(), (s[0], s[1].tobytes(), s[2], s[3], s[4])


def scramble(k):
    random.seed(k)
    np.random.seed(k % 2**32)
    for _ in range(k % 17):
        random.random()
        np.random.random()


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"entry {i}: {x} / {y}"
    return f"lengths {len(a)} / {len(b)}"


def evaluate(spec):
    if spec.get("kind") == "process":
        return evaluate_process(spec)
    out, c = [], collections.Counter(runs=1)
    d = config(spec["seed"], spec["profile"])
    rng = random.Random(spec["seed"] + "/p17")
    T = d["_horizon"]
    try:
        scramble(rng.randrange(10**6))
        base = simulate(d, T)
    except Exception as e:
        return core.Outcome([("simulation of a valid configuration fails", f"{type(e).__name__}: {e}")], c)
    ref = log_of(base)
    c["log rows"] += len(ref)
    ref_k = None
    try:
        ref_k = kpis(base)
    except Exception:
        c["no kpis"] += 1  # judged by P18
    # another simulation in between, other global random state, side effects watched
    other = config(spec["seed"] + "/other", rng.choice(PROFILES))
    try:
        simulate(other, other["_horizon"] / 3)
    except Exception:
        pass
    scramble(rng.randrange(10**6))
    adapter = build(d)
    before = adapter.model_dump_json()
    st = rng_state()
    r = runner_module.Runner(adapter=adapter)
    r.initialize_simulation()
    if rng_state() != st:
        out.append(("initialisation changes the caller's random numbers", ""))
    mid = adapter.model_dump_json()
    if mid != before:
        out.append(("initialisation changes the configuration", first_diff(before.split(","), mid.split(","))))
    r.run(T)
    if rng_state() != st:
        out.append(("a run changes the caller's random numbers", ""))
    after = adapter.model_dump_json()
    if after != mid:
        out.append(("a run changes the configuration", first_diff(mid.split(","), after.split(","))))
    got = log_of(r)
    c["repeated"] += 1
    if got != ref:
        out.append(("a repeated run differs", first_diff(ref, got)))
    if ref_k is not None:
        c["kpis compared"] += len(ref_k)
        g = kpis(r)
        if g != ref_k:
            out.append(("results of a repeated run differ", first_diff(ref_k, g)))
        if rng_state() != st:
            out.append(("computing results changes the caller's random numbers", ""))
        if adapter.model_dump_json() != after:
            out.append(("computing results changes the configuration", ""))
    # the same adapter object again
    r = runner_module.Runner(adapter=adapter)
    r.initialize_simulation()
    scramble(rng.randrange(10**6))
    r.run(T)
    c["same adapter object"] += 1
    got = log_of(r)
    if got != ref:
        out.append(("a second run of the same adapter object differs", first_diff(ref, got)))
    # horizon split, another simulation runs alternately
    times = sorted({x[0] for x in ref if 0 < x[0] < T})
    cuts = set()
    for _ in range(rng.randint(1, 4)):
        cuts.add(rng.choice(times) if times and rng.random() < 0.5 else rng.uniform(0.01, 0.99) * T)
    cuts = sorted(cuts)
    a, b = None, None
    try:
        a = runner_module.Runner(adapter=build(d))
        a.initialize_simulation()
        b = runner_module.Runner(adapter=build(other))
        b.initialize_simulation()
    except Exception:
        b = None
    for i, s in enumerate(cuts + [T]):
        if i and ref_k is not None and rng.random() < 0.4:
            try:
                kpis(a)  # results of the part so far
                c["results in between"] += 1
            except Exception:
                pass  # judged by P18 and P29
        a.run(s)
        if b is not None:
            try:
                b.run((i + 1) * other["_horizon"] / 20)
            except Exception:
                b = None
        scramble(rng.randrange(10**6))
    c["split runs"] += 1
    c["cuts"] += len(cuts)
    got = log_of(a)
    if got != ref:
        out.append(("a run split into consecutive parts differs", f"cut at {cuts}: " + first_diff(ref, got)))
    elif ref_k is not None:
        g = kpis(a)
        if g != ref_k:
            out.append(("results of a run split into consecutive parts differ", f"cut at {cuts}: " + first_diff(ref_k, g)))
    # the same runner again
    if rng.random() < 0.5:
        a.initialize_simulation()
        a.run(T)
        c["same runner object"] += 1
        got = log_of(a)
        if got != ref:
            out.append(("the same runner initialised again differs", first_diff(ref, got)))
    # several threads
    if rng.random() < 0.4:
        threads(d, other, T, ref, rng, out, c)
    # seeds matter
    noisy = [t["ID"] for t in d["time_model_data"] if t.get("distribution_function") in NOISY and t.get("scale", 0) + t.get("location", 0) > 0]
    used = {r_["time_model_id"] for r_ in d["source_data"]}
    if any(t in used for t in noisy) and any(t["ID"] in used and (t["distribution_function"] == "exponential" or t.get("scale", 0) > 0) for t in d["time_model_data"] if t["ID"] in noisy):
        other_seed = simulate(d, T, seed=(d.get("seed") or 0) + rng.randint(1, 10**6))
        c["other seeds"] += 1
        if log_of(other_seed) == ref:
            out.append(("another seed leads to the same history", spec["seed"]))
    return core.Outcome(out, c, len(ref) > 3, core.digest(ref), dict(spec=spec, cuts=cuts, rows=len(ref)))


def threads(d, other, T, ref, rng, out, c):
    """Three simulations at the same time in threads that switch often: each goes as it does alone."""
    results, spans = {}, {}
    barrier = threading.Barrier(3)
    cut = rng.uniform(0.1, 0.9)

    def work(i, config_, horizon):
        barrier.wait()
        t0 = time.perf_counter()
        try:
            r = runner_module.Runner(adapter=build(config_))
            r.initialize_simulation()
            for x in ((cut * horizon, horizon) if i else (horizon,)):
                r.run(x)
            results[i] = r
        except Exception as e:
            results[i] = e
        spans[i] = (t0, time.perf_counter())
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    st = rng_state()
    try:
        ts = [threading.Thread(target=work, args=x) for x in ((0, d, T), (1, d, T), (2, other, other["_horizon"] / 4))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    c["runs in threads"] += 3
    c["overlapping runs in threads"] += sum(1 for a in spans for b in spans if a < b and spans[a][0] < spans[b][1] and spans[b][0] < spans[a][1])
    for i in (0, 1):
        if isinstance(results[i], Exception):
            out.append(("a run in a thread fails", f"{type(results[i]).__name__}: {results[i]}"))
        elif log_of(results[i]) != ref:
            out.append(("a run in a thread differs", first_diff(ref, log_of(results[i]))))
    if rng_state() != st:
        out.append(("runs in threads change the caller's random numbers", ""))


def digests(cases):
    res = []
    for seed, profile in cases:
        d = config(seed, profile)
        try:
            r = simulate(d, d["_horizon"])
            k = None
            try:
                k = kpis(r)
            except Exception:
                pass
            res.append([core.digest(log_of(r)), core.digest(k), len(r.event_logger.event_data)])
        except Exception as e:
            res.append(["error", type(e).__name__, str(e)[:200]])
    return res


def evaluate_process(spec):
    out, c = [], collections.Counter()
    cases = spec["cases"]
    here = digests(cases)
    order = list(range(len(cases)))
    random.Random(spec["hash"]).shuffle(order)
    env = dict(os.environ, PYTHONHASHSEED=str(spec["hash"]), PYTHONPATH="/repo:" + core.ROOT)
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "mon.p17"], input=json.dumps([cases[i] for i in order]), capture_output=True, text=True, env=env, timeout=400)
    lines = [x for x in p.stdout.splitlines() if x.startswith("RESULT ")]
    if not lines:
        return core.Outcome([("another process fails", (p.stdout + p.stderr)[-800:])], c)
    there = json.loads(lines[-1][7:])
    for k, i in enumerate(order):
        c["other process"] += 1
        if there[k] != here[i]:
            out.append(("another process gives another history", f"{cases[i]} with hash seed {spec['hash']}: {here[i]} / {there[k]}"))
    return core.Outcome(out, c, True, core.digest(here), None)


def cases(seed, tier):
    n, m, k = (160, 10, 8) if tier == "quick" else (8000, 200, 20)
    out = []
    for j in range(m):
        out.append(dict(kind="process", hash=j * 7919 + 1, cases=[[f"P17p/{seed}/{j}/{i}", PROFILES[(i + j) % len(PROFILES)]] for i in range(k)]))
    for i in range(n):
        out.append(dict(seed=f"P17/{seed}/{i}", profile=PROFILES[i % len(PROFILES)]))
    return out


def definition():
    return dict(cases=cases, evaluate=evaluate,
                required=["repeated", "same adapter object", "split runs", "results in between", "same runner object", "other seeds", "other process", "kpis compared", "overlapping runs in threads"],
                rule="a random configuration run several times under different circumstances; distinct = the event log differs")


if __name__ == "__main__":
    print("RESULT " + json.dumps(digests(json.loads(sys.stdin.read()))))
