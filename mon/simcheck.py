"""Trace-based checks: random configuration -> real simulation under monitors -> oracle."""
import collections

from mon import core, gen, oracles, trace

PROFILES = dict(
    base={},
    busy=dict(load=(1.2, 2.5), jobs=(30, 90)),
    tight=dict(p_finite=0.9, load=(1.0, 2.2), jobs=(30, 80)),
    fail=dict(p_breakdown=0.8, p_pbreakdown=0.6, p_tbreakdown=0.6, p_setup=0.4),
    setup=dict(p_setup=0.95, procs=(3, 5), resources=(1, 2), p_parallel=0.8, load=(0.7, 1.8)),
    link=dict(p_link=1.0),
    rework=dict(p_rework=1.0, p_capability=0.0, procs=(2, 4)),
    multi=dict(capacity=(2, 4), p_unequal_caps=0.6, load=(0.9, 2.2), resources=(1, 2)),
    store=dict(p_store=0.8, p_link=0.0, load=(0.8, 1.8), p_breakdown=0.2),
    aux=dict(p_aux=1.0, p_link=0.0),
    names=dict(names=True, products=(2, 4)),
    zero=dict(p_zero_time=0.4, load=(0.8, 1.8)),
    planned=dict(p_breakdown=0.8, p_pbreakdown=0.7, p_tbreakdown=0.5, p_planned=0.8),
    start=dict(t0=True, p_breakdown=0.9, p_pbreakdown=0.5, p_loading=0.1, p_link=0, jobs=(10, 25)),
    batch=dict(p_batch=0.7, batch_mixed=True, load=(0.6, 1.6)),
    charge=dict(p_charging=1.0, load=(0.5, 1.3)),
    drain=dict(drain=True, load=(0.5, 1.3), jobs=(12, 50)),
    vehicles=dict(tr_capacity=(1, 3), p_link=0.0, transporters=(1, 3)),
    queues=dict(p_multi_q=0.7, p_instore=0.5, p_store=0.5, p_finite=0.5, load=(0.8, 2.0), p_parallel=0.8, jobs=(30, 80)),
    qchoice=dict(p_multi_q=0.7, p_instore=0.7, p_store=0.6, p_finite=0.2, p_link=0, load=(0.8, 2.0), p_parallel=1.0, resources=(3, 5), procs=(2, 3),
                 routing=["shortest_queue", "shortest_queue", "random"], jobs=(40, 90)),
    drainqueues=dict(p_multi_q=0.8, p_finite=0, p_store=0, drain=True, load=(0.8, 1.5), jobs=(12, 50)),
    auxmulti=dict(p_aux=1.0, p_link=0.0, p_aux_several=0.8),
    auxstore=dict(p_aux=1.0, p_link=0.0, p_store=0.4, p_finite=0.5, load=(0.8, 1.6)),
    batchpure=dict(p_batch=0.9, load=(0.6, 1.6)),
    batchrework=dict(p_batch=0.7, batch_mixed=True, p_rework=0.6, p_setup=0.4, p_finite=0.5),
    reworkbusy=dict(p_rework=1.0, p_capability=0.2, procs=(2, 5), load=(1.0, 2.0), p_breakdown=0.5, resources=(1, 3)),
    clean=dict(p_link=0, p_setup=0, p_breakdown=0, p_pbreakdown=0, p_tbreakdown=0, p_finite=0, p_unequal_caps=0, load=(1, 2)),
    nearest=dict(p_link=0, p_setup=0, p_breakdown=0, p_pbreakdown=0, p_tbreakdown=0, p_finite=0, p_unequal_caps=0, load=(1, 2),
                 tpolicies=["Nearest_origin_and_longest_target_queues_transport", "Nearest_origin_and_shortest_target_input_queues_transport"]),
    choices=dict(resources=(3, 5), transporters=(2, 3), p_parallel=1.0, routing=["random", "random", "shortest_queue", "FIFO"], jobs=(60, 120),
                 products=(1, 2), procs=(2, 3), p_finite=0.4, load=(0.8, 1.6)),
    drain0=dict(drain=True, p_finite=0, p_batch=0, p_store=0, load=(0.5, 1.3), jobs=(12, 50)),
    drainaux=dict(drain=True, p_finite=0, p_batch=0, p_store=0, load=(0.8, 2), jobs=(12, 60), p_aux=0.5, p_link=0, p_setup=0.7),
    drainfail=dict(drain=True, p_finite=0, p_batch=0, p_store=0, load=(0.8, 2), jobs=(12, 50), p_breakdown=0.7, p_pbreakdown=0.6,
                   p_tbreakdown=0.6, p_setup=0.4, capacity=(1, 3), p_unequal_caps=0.6),
    drainline=dict(line=True, drain=True, p_finite=0.9, p_shared_inq=0, p_capability=0, p_compound=0, p_rework=0, p_batch=0, p_aux=0, p_store=0.2, procs=(2, 5),
                   plan_len=(2, 5), capacity=(1, 2), load=(1.0, 2.5), jobs=(20, 60), p_breakdown=0.3),
    draincharge=dict(drain=True, p_finite=0, p_batch=0, p_store=0, load=(0.8, 2), p_charging=1, p_rework=0.7, p_zero_time=0.3),
    drainveh=dict(drain=True, p_finite=0, p_batch=0, p_store=0, tr_capacity=(1, 3), p_link=0.0, transporters=(1, 3)),
)


def specs(prop, mix, n, seed):
    """Round robin over the profiles, n cases, reproducible from the seed."""
    names = []
    for name, w in mix:
        names += [name] * w
    out = []
    for i in range(n):
        name = names[i % len(names)]
        out.append(dict(profile=name, seed=f"{prop}/{name}/{seed}/{i}"))
    return out


def crash_violation(tr):
    if not tr.crash or tr.crash[0] == "budget":
        return []
    return [(f"simulation of a valid configuration fails in {tr.crash[0]}", f"{tr.crash[1:]}")]


def run_spec(spec, extra=None, monitors=None, **kw):
    prof = dict(PROFILES[spec["profile"]])
    prof.update(extra or {})
    data = gen.generate(spec["seed"], prof)
    if prof.get("drain") and kw.pop("drain", None):
        kw["drain"] = data["_horizon"] * 40 + 20000
    else:
        kw.pop("drain", None)
    tr = trace.run(data, monitors if monitors is not None else [oracles.PlaceMonitor()], **kw)
    return tr


def sample(tr, k=6):
    rows = tr.rows[len(tr.rows) // 2:][:k]
    return dict(horizon=tr.horizon, steps=tr.steps, rows=len(tr.rows), excerpt=[repr(r) for r in rows])


def make(prop, oracle, mix, quick, thorough, required, rule, extra=None, nontrivial=None, monitors=None, assumptions=(), run_kw=None, cap=None, final=None):
    def cases(seed, tier):
        n = quick if tier == "quick" else thorough
        return specs(prop, mix, n, seed)

    def evaluate(spec):
        ms = [m() for m in (monitors or [oracles.PlaceMonitor])]
        tr = run_spec(spec, extra, ms, **(run_kw or {}))
        viol = crash_violation(tr)
        c = collections.Counter(runs=1, events=tr.steps, log_rows=len(tr.rows))
        if tr.crash and tr.crash[0] == "budget":
            c["budget exceeded"] += 1
        v2, c2 = oracle(tr)
        viol += v2
        c.update(c2)
        for e in tr.monitor_errors[:1]:
            c["monitor disabled"] += 1
        nt = bool(c2) and (nontrivial(c2) if nontrivial else True)
        sig = core.digest([(r.t, r.res, r.state, r.act, r.prod, r.targ) for r in tr.rows])
        s = dict(spec=spec, observed={k: int(x) for k, x in c2.items()}, **sample(tr))
        return core.Outcome(viol, c, nt, sig, s)

    return dict(cases=cases, evaluate=evaluate, required=required, rule=rule,
                assumptions=list(assumptions), cap=cap or {}, final=final)
