"""Driver: runs the cases of one property in parallel, decides, writes evidence."""
import collections
import hashlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CaseTimeout(BaseException):
    pass


def V(kind, msg, mech=None):
    """A violation. `mech` names the mechanism of a known finding, if the report is an instance of one."""
    return (kind, str(msg)[:1500], mech)


class Outcome:
    def __init__(self, violations=(), counters=None, nontrivial=True, sig=None, sample=None):
        self.violations = [v if len(v) == 3 else (v[0], str(v[1])[:1500], None) for v in violations]
        self.counters = dict(counters or {})
        self.nontrivial = nontrivial
        self.sig = sig
        self.sample = sample


def digest(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


_EVAL = None
CPU_LIMIT = 100


def _alarm(*_):
    raise CaseTimeout("case used more than %d s of processor time" % CPU_LIMIT)


def _init(evaluate, scratch):
    global _EVAL
    _EVAL = evaluate
    os.chdir(scratch)
    signal.signal(signal.SIGVTALRM, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    if not os.environ.get("VERIF_SHOW"):
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)


def _work(spec):
    t0 = time.time()
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        random.seed(12345)
        try:
            import numpy as np
            np.random.seed(12345)
        except ImportError:
            pass
        o = _EVAL(spec)
        res = (o.violations, o.counters, o.nontrivial, o.sig, o.sample)
    except CaseTimeout as e:
        res = ([("does not terminate", f"{e}", None)], {"timeouts": 1}, True, None, None)
    except BaseException as e:  # noqa
        tb = traceback.format_exc().strip().splitlines()
        res = ([("observation cannot be interpreted", f"{type(e).__name__}: {e} | " + " / ".join(x.strip() for x in tb[-7:]), None)], {"uninterpretable": 1}, True, None, None)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return spec, res, time.time() - t0


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def run_check(prop, definition, tier, seed):
    """definition: cases(seed, tier)->iterable of JSON specs, evaluate(spec)->Outcome, required: counters, rule, caps."""
    t0 = time.time()
    import shutil
    import tempfile
    scratch = tempfile.mkdtemp(prefix=f"vp_{prop}_")
    cap = definition.get("cap", {}).get(tier, 200 if tier == "quick" else 780)
    known = [k for k in load_known() if k["property"] == prop]
    mechs = {k["mech"]: k for k in known}
    tot = collections.Counter()
    sigs, samples = set(), []
    n = nontrivial = skipped = 0
    viol, seen_known = [], collections.Counter()
    slow = 0.0
    specs = iter(definition["cases"](seed, tier))
    procs = int(os.environ.get("VERIF_PROCS", str(min(8, os.cpu_count() or 8))))
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(procs, initializer=_init, initargs=(definition["evaluate"], scratch), maxtasksperchild=definition.get("maxtasks"))
    truncated = False
    try:
        it = pool.imap_unordered(_work, specs, chunksize=1)
        while True:
            try:
                spec, (vs, c, nt, sig, sample), dt = it.next(timeout=max(1.0, cap + 150 - (time.time() - t0)))
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                truncated = True
                break
            n += 1
            slow = max(slow, dt)
            tot.update(c)
            if nt:
                nontrivial += 1
                if sig is not None:
                    sigs.add(sig)
            if sample is not None and nt and len(samples) < 4:
                samples.append(sample)
            for kind, msg, mech in vs:
                if mech in mechs:
                    seen_known[mech] += 1
                    continue
                viol.append((kind, msg, spec))
            if len(viol) >= 40 or (viol and len({v[0] for v in viol}) >= 4):
                truncated = True
                break
            if time.time() - t0 > cap:
                truncated = True
                break
    finally:
        pool.terminate()
        pool.join()
        shutil.rmtree(scratch, ignore_errors=True)
    if definition.get("final"):  # judgements about the whole sample
        for kind, msg in definition["final"](tot):
            viol.append((kind, msg, dict(aggregate=True, tier=tier, seed=seed)))
    missing = [r for r in definition.get("required", []) if tot[r] == 0]
    out = dict(property=prop, tier=tier, seed=seed, level="exploration",
               coverage=dict(evaluations=n, distinct_nontrivial=len(sigs) if sigs else 0,
                             rule=definition["rule"], samples=samples or [dict(note="no non-trivial case")],
                             observed={k: int(v) for k, v in sorted(tot.items())}, nontrivial=nontrivial,
                             stopped_early=truncated, required_observations=definition.get("required", []),
                             missing_observations=missing, known_findings_seen=dict(seen_known)),
               wall_s=round(time.time() - t0, 2), violations=len(viol),
               assumptions=definition.get("assumptions", []))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(out, f, indent=1)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']} (seen {seen_known[k['mech']]} times in this run)")
    print(f"{prop} [{tier}, seed {seed}]: {n} cases, {nontrivial} non-trivial, {len(sigs)} distinct, {out['wall_s']} s, slowest case {slow:.1f} s")
    print("  observed: " + ", ".join(f"{k}={v}" for k, v in sorted(tot.items())))
    if viol:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        kinds = {}
        for kind, msg, spec in viol:
            kinds.setdefault(kind, (msg, spec))
        for i, (kind, (msg, spec)) in enumerate(kinds.items()):
            path = os.path.join(ROOT, "replays", f"{prop}_{digest((kind, spec))[:10]}.json")
            with open(path, "w") as f:
                json.dump(dict(property=prop, kind=kind, message=msg, spec=spec), f, indent=1)
            print(f"  {kind}: {msg}")
            print(f"VIOLATION property={prop} replay={os.path.relpath(path, ROOT)}")
        return 1
    if missing or n == 0:
        print(f"  INCONCLUSIVE: nothing was observed for {missing}")
        return 2
    return 0


def replay(prop, definition, path):
    with open(path) as f:
        d = json.load(f)
    import tempfile, shutil
    scratch = tempfile.mkdtemp(prefix=f"vp_{prop}_")
    cwd = os.getcwd()
    os.chdir(scratch)
    if d["spec"].get("aggregate"):
        print("this verdict is about the whole sample: running it again")
        return run_check(prop, definition, d["spec"]["tier"], d["spec"]["seed"])
    try:
        o = definition["evaluate"](d["spec"])
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    known = {k["mech"] for k in load_known() if k["property"] == prop}
    bad = [v for v in o.violations if v[2] not in known]
    for kind, msg, mech in o.violations:
        print(f"  {kind}: {msg}" + (f"   [known: {mech}]" if mech in known else ""))
    print("  observed:", o.counters)
    if bad:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0
