"""P23: what the optimisers propose: transformed configurations keep to their scenario and stay consistent."""
import collections
import copy
import json
import random

from mon import core, gen, p20, simcheck, trace
from prodsys.optimization import adapter_manipulation as am
from prodsys.optimization import optimization as opt
from prodsys.optimization import util as ou
from prodsys import adapters

KINDS = ["production_capacity", "transport_capacity", "auxiliary_capacity", "layout", "sequencing_logic", "routing_logic"]
PROFILES = dict(
    plain={}, setup=dict(p_setup=0.9, procs=(3, 5)), fail=dict(p_breakdown=0.9, p_pbreakdown=0.7, p_tbreakdown=0.8), charge=dict(p_charging=1.0),
    aux=dict(p_aux=1.0), multi=dict(capacity=(2, 4), p_unequal_caps=0.5), batch=dict(p_batch=0.5), compound=dict(p_compound=0.9, p_capability=0.3, procs=(3, 5)),
    vehicles=dict(transporters=(1, 3), tr_capacity=(1, 2), p_two_tp=0.6), big=dict(resources=(3, 6), products=(2, 4), procs=(3, 6)))


def machines(d):
    return [r for r in d["resource_data"] if "input_queues" in r]


def vehicles(d):
    return [r for r in d["resource_data"] if "input_queues" not in r]


def scenario(rng, d, kinds=None):
    M = machines(d)
    pos = [list(m["location"]) for m in M]
    taken = {tuple(x["location"]) for k in ("source_data", "sink_data", "node_data", "queue_data") for x in d[k] if x.get("location")} | {tuple(p) for p in pos}
    taken |= {tuple(m["output_location"]) for m in M}
    for _ in range(rng.randint(0, 7)):
        p = (float(rng.randint(60, 90)), float(rng.randint(-9, 9)))
        if p not in taken:
            taken.add(p)
            pos.append(list(p))
    rng.shuffle(pos)
    kinds = kinds or rng.sample(KINDS, rng.choice([1, 2, 3, 6, 6]))
    if "auxiliary_capacity" in kinds and not any(p.get("auxiliaries") for p in d["product_data"]) and (len(kinds) > 1 and rng.random() < 0.9):
        kinds = [k for k in kinds if k != "auxiliary_capacity"]
    have = max([len(m["process_ids"]) for m in M] + [1])
    groups = {"machine": {m["control_policy"] for m in M}, "vehicle": {v["control_policy"] for v in vehicles(d)}, "route": {s["routing_heuristic"] for s in d["source_data"]}}
    base = dict(machine=["FIFO", "LIFO", "SPT"], vehicle=["FIFO", "SPT_transport", "Nearest_origin_and_longest_target_queues_transport"], route=["FIFO", "random", "shortest_queue"])
    o = {}
    for k, vals in base.items():
        n = rng.sample(vals, rng.randint(1, len(vals)))
        if rng.random() < 0.8:
            n += sorted(groups[k] - set(n))
        o[k] = n
    pc = rng.choice([1000.0, 250.5, None])
    if pc is None:
        pc = {p["ID"]: float(rng.randint(1, 20) * 100) for p in d["process_data"] if rng.random() < 0.8}
    return dict(
        constraints=dict(max_reconfiguration_cost=rng.choice([0.0, 5000.0, 30000.0, 100000.0, 1e7]), max_num_machines=max(1, len(M) + rng.choice([0, 0, 1, 3]) - (rng.random() < 0.05)),
                         max_num_processes_per_machine=max(1, have + rng.choice([0, 0, 1, -1])), max_num_transport_resources=max(1, len(vehicles(d)) + rng.choice([0, 1, 2])),
                         target_product_count={p["ID"]: 10 for p in d["product_data"]}),
        options=dict(transformations=kinds, machine_controllers=o["machine"], transport_controllers=o["vehicle"], routing_heuristics=o["route"], positions=pos),
        info=dict(machine_cost=rng.choice([30000.0, 10000.5]), transport_resource_cost=rng.choice([20000.0, 7000.25]), process_module_cost=pc, auxiliary_cost=rng.choice([1000.0, 40.5]),
                  breakdown_cost=1.0, time_range=500, maximum_breakdown_time=10),
        objectives=[dict(name="throughput", weight=1.0), dict(name="cost", weight=0.5), dict(name="WIP", weight=0.25)])


def baseline(seed, profile, kinds=None, extra=None):
    prof = dict(p_link=0, p_store=0, p_multi_q=0, p_instore=0, p_shared_inq=0, jobs=(6, 15), p_extra_source=0.2)
    prof.update(PROFILES[profile])
    prof.update(extra or {})
    d = gen.generate(seed, prof)
    rng = random.Random(seed + "/p23")
    for i, m in enumerate(machines(d)):
        m["input_location"] = list(m["location"])
        if not m.get("output_location") or rng.random() < 0.3:
            m["output_location"] = list(m["location"])
    if rng.random() < 0.6:  # the naming convention of the optimisation for breakdown states
        ren = {}
        for kind, rs in (("BSM", machines(d)), ("BST", vehicles(d))):
            s = [x for r in rs for x in r["state_ids"] if any(y["ID"] == x and y["type"] == "BreakDownState" for y in d["state_data"])]
            if s:
                ren[s[0]] = kind
        for y in d["state_data"]:
            if y["type"] == "ProcessBreakDownState" and f"BSP_{y['process_id']}" not in ren.values():
                ren[y["ID"]] = f"BSP_{y['process_id']}"
        for y in d["state_data"]:
            y["ID"] = ren.get(y["ID"], y["ID"])
        for r in d["resource_data"]:
            r["state_ids"] = [ren.get(x, x) for x in r["state_ids"]]
    d["scenario_data"] = scenario(rng, d, kinds)
    d["ID"] = "base"
    return d, rng


def prepare(d):
    """The baseline as the optimisers prepare it."""
    a = p20.build(d)
    adapters.ProductionSystemAdapter.model_config["validate_assignment"] = False
    if not ou.check_breakdown_states_available(a):
        ou.create_default_breakdown_states(a)
    return a


def dump(a):
    return json.loads(a.model_dump_json())


# ---------------------------------------------------------------- oracle: scenario limits
def groups(d):
    comp = [p for p in d["process_data"] if p["type"] == "CompoundProcesses"]
    inner = {x for c in comp for x in c["process_ids"]}
    single = [(p["ID"],) for p in d["process_data"] if p["type"] in ("ProductionProcesses", "CapabilityProcesses", "ReworkProcesses") and p["ID"] not in inner]
    return single + [tuple(c["process_ids"]) for c in comp]


def modules(d, m, G):
    return [g for g in G if any(p in g for p in m["process_ids"])]


def cost(d, b):
    info = d["scenario_data"]["info"]
    G = groups(d)
    total = max(0, len(machines(d)) - len(machines(b))) * info["machine_cost"] + max(0, len(vehicles(d)) - len(vehicles(b))) * info["transport_resource_cost"]
    for g in set(G):
        n, o = (sum(1 for m in machines(x) if any(p in g for p in m["process_ids"])) * G.count(g) for x in (d, b))
        pc = info["process_module_cost"]
        total += max(0, n - o) * (pc.get(g[0], 0) if isinstance(pc, dict) else pc)
    for x, y in zip(d["auxiliary_data"], b["auxiliary_data"]):
        total += sum(max(0, q - p) for q, p in zip(x["quantity_in_storages"], y["quantity_in_storages"])) * info["auxiliary_cost"]
    return total


def strings(v):
    if isinstance(v, str):
        yield v
    elif isinstance(v, dict):
        for k, x in v.items():
            yield k
            yield from strings(x)
    elif isinstance(v, list):
        for x in v:
            yield from strings(x)


def limits(d, b):
    """The violated limits of the scenario."""
    out = []
    c, o = d["scenario_data"]["constraints"], d["scenario_data"]["options"]
    M, T = machines(d), vehicles(d)
    if len(M) > c["max_num_machines"]:
        out.append("machines")
    if not 1 <= len(T) <= c["max_num_transport_resources"]:
        out.append("vehicles")
    G = groups(d)
    if any(len(modules(d, m, G)) > c["max_num_processes_per_machine"] for m in M):
        out.append("processes per machine")
    places = []
    for m in M:
        places += {tuple(m["location"]), tuple(m["input_location"]), tuple(m["output_location"])}
    fixed = {tuple(s["location"]) for s in d["source_data"]}, {tuple(s["location"]) for s in d["sink_data"]}, {tuple(q[k]) for q in d["queue_data"] for k in ("location", "input_location", "output_location") if q.get(k)}
    places += [p for f in fixed for p in f]
    if len(set(places)) < len(places):
        out.append("places used twice")
    if any(tuple(m["location"]) not in {tuple(p) for p in o["positions"]} for m in M):
        out.append("positions")
    if cost(d, b) > c["max_reconfiguration_cost"] + 1e-6:
        out.append("cost")
    P = {p["ID"]: p for p in d["process_data"]}
    offered = {p for r in d["resource_data"] for p in r["process_ids"]}
    offered |= {x for p in list(offered) if P[p]["type"] == "CompoundProcesses" for x in P[p]["process_ids"]}
    caps = {P[p]["capability"] for p in offered if P[p]["type"] == "CapabilityProcesses"}

    def met(p):
        p = P[p]
        if p["type"] == "CompoundProcesses":
            return any(met(x) for x in p["process_ids"])
        return p["capability"] in caps if p["type"] in ("RequiredCapabilityProcesses", "CapabilityProcesses") else p["ID"] in offered
    used = {x for pr in d["product_data"] for x in [*strings(pr["processes"]), pr["transport_process"]]}
    used |= {a["transport_process"] for a in d["auxiliary_data"] if any(a["ID"] in (pr.get("auxiliaries") or []) for pr in d["product_data"])}
    if any(P[p]["type"] == "RequiredCapabilityProcesses" for p in offered) or not all(met(x) for x in used):
        out.append("required processes")
    reworked = {x for p in offered if P[p]["type"] == "ReworkProcesses" for x in P[p]["reworked_process_ids"]}
    demand = used | {x for u in used if P[u]["type"] == "CompoundProcesses" for x in P[u]["process_ids"]}
    dcaps = {P[u].get("capability") for u in demand} - {None}
    for p in offered - reworked:
        if P[p].get("failure_rate") and (p in demand or P[p].get("capability") in dcaps):
            out.append("rework processes")
    A = {a["ID"]: a for a in d["auxiliary_data"]}
    for pr in d["product_data"]:
        for x in pr.get("auxiliaries") or []:
            if sum(A[x]["quantity_in_storages"]) <= 0:
                out.append("required auxiliaries")
    return sorted(set(out))


# ---------------------------------------------------------------- oracle: consistency
def consistent(d):
    out = []
    for k in p20.LISTS:
        ids = [x["ID"] for x in d[k]]
        if len(set(ids)) < len(ids):
            out.append(("an element occurs twice", f"{k}: {sorted(i for i in ids if ids.count(i) > 1)[:3]}"))
    P, S, Q = ({x["ID"]: x for x in d[k]} for k in ("process_data", "state_data", "queue_data"))
    seen = collections.Counter()
    for r in d["resource_data"]:
        if len(set(r["process_ids"])) < len(r["process_ids"]):
            out.append(("a resource offers a process twice", f"{r['ID']}: {r['process_ids']}"))
        if not set(r["process_ids"]) <= set(P) or not set(r["state_ids"]) <= set(S):
            out.append(("reference to a missing element", r["ID"]))
        if len(set(r["state_ids"])) < len(r["state_ids"]):
            out.append(("a resource has a state twice", f"{r['ID']}: {r['state_ids']}"))
        if len(r["process_capacities"]) != len(r["process_ids"]) or any(not 1 <= c <= r["capacity"] for c in r["process_capacities"]):
            out.append(("process capacities do not fit", f"{r['ID']}: {r['process_capacities']} for {len(r['process_ids'])} processes"))
        for s in r["state_ids"]:
            if s in S and S[s]["type"] == "ProcessBreakDownState" and S[s]["process_id"] not in r["process_ids"]:
                out.append(("breakdown of a process that the machine does not offer", f"{r['ID']}: {s}"))
    for m in machines(d):
        if not m["input_queues"] or not m["output_queues"]:
            out.append(("a machine has no buffers", m["ID"]))
        for q in m["input_queues"] + m["output_queues"]:
            seen[q] += 1
            if q not in Q:
                out.append(("reference to a missing buffer", f"{m['ID']}: {q}"))
    for x in d["source_data"] + d["sink_data"]:
        for q in x.get("output_queues") or x.get("input_queues"):
            if q not in Q:
                out.append(("reference to a missing buffer", f"{x['ID']}: {q}"))
            if q in seen:
                out.append(("a machine uses the buffer of a source or sink", q))
    if any(n > 1 for n in seen.values()):
        out.append(("machines share a buffer", str([q for q in seen if seen[q] > 1][:3])))
    for a in d["auxiliary_data"]:
        for s, n in zip(a["storages"], a["quantity_in_storages"]):
            if s not in Q:
                out.append(("reference to a missing buffer", f"{a['ID']}: {s}"))
            elif n < 0 or (Q[s]["capacity"] and n > Q[s]["capacity"]):
                out.append(("auxiliaries do not fit their storage", f"{a['ID']}: {n} in {s}"))
    return out


BREAK = ("BreakDownState", "ProcessBreakDownState")
SETUP_OPS = ("add_process_module", "remove_process_module", "move_process_module")  # these derive the setup states of a machine anew


def changed(p, d, kinds, op):
    """Changes that the permitted transformations do not cover."""
    out = []
    for k in ("time_model_data", "state_data", "process_data", "node_data", "product_data", "sink_data", "scenario_data"):
        if p[k] != d[k]:
            out.append(("a transformation changes something else", k))
    o = d["scenario_data"]["options"]
    for s, t in zip(p["source_data"], d["source_data"]):
        if {k: v for k, v in s.items() if k != "routing_heuristic"} != {k: v for k, v in t.items() if k != "routing_heuristic"}:
            out.append(("a transformation changes something else", "sources"))
        if s["routing_heuristic"] != t["routing_heuristic"]:
            if "routing_logic" not in kinds:
                out.append(("a transformation is used that the scenario does not permit", "routing"))
            if t["routing_heuristic"] not in o["routing_heuristics"]:
                out.append(("a policy is used that the scenario does not offer", t["routing_heuristic"]))
    for s, t in zip(p["auxiliary_data"], d["auxiliary_data"]):
        if s != t and "auxiliary_capacity" not in kinds:
            out.append(("a transformation is used that the scenario does not permit", "auxiliaries"))
        if {k: v for k, v in s.items() if k != "quantity_in_storages"} != {k: v for k, v in t.items() if k != "quantity_in_storages"}:
            out.append(("a transformation changes something else", "auxiliaries"))
    mq = {q for m in machines(p) for q in m["input_queues"] + m["output_queues"]}
    others = {q["ID"]: q for q in p["queue_data"] if q["ID"] not in mq}
    now = {q["ID"]: q for q in d["queue_data"]}
    if any(now.get(i) != q for i, q in others.items() if any(i in strings([p["source_data"], p["sink_data"], [a["storages"] for a in p["auxiliary_data"]]]) for _ in [0])):
        out.append(("a transformation changes something else", "buffers of sources, sinks or auxiliaries"))
    S = {x["ID"]: x["type"] for x in d["state_data"]}
    P, D = {r["ID"]: r for r in p["resource_data"]}, {r["ID"]: r for r in d["resource_data"]}
    for i in set(P) | set(D):
        r = P.get(i) or D.get(i)
        machine = "input_queues" in r
        k = "production_capacity" if machine else "transport_capacity"
        pol = o["machine_controllers" if machine else "transport_controllers"]
        if i not in P or i not in D:
            if k not in kinds:
                out.append(("a transformation is used that the scenario does not permit", f"{'added' if i not in P else 'removed'} {i}"))
            if i not in P:
                if r["control_policy"] not in pol:
                    out.append(("a policy is used that the scenario does not offer", r["control_policy"]))
                if machine and r["location"] not in o["positions"]:
                    out.append(("a machine is placed where the scenario offers no position", str(r["location"])))
                if not r["process_ids"]:
                    out.append(("a resource without processes is added", i))
            continue
        s, t = P[i], D[i]
        for f in s:
            if f in ("input_queues", "output_queues", "process_capacities") or s[f] == t[f]:
                continue
            if f == "state_ids":
                # breakdown states follow the naming convention of the optimisation; setup states follow the processes of a machine
                if s["process_ids"] == t["process_ids"] and (
                        {x for x in s[f] if S[x] not in BREAK} - set(t[f]) or op not in SETUP_OPS and {x for x in t[f] if S[x] not in BREAK} - set(s[f])):
                    out.append(("a resource whose processes stay loses or gains setup or charging states", f"{i}: {s[f]} -> {t[f]} by {op}"))
                elif sorted(x for x in s[f] if S[x] == "ChargingState") != sorted(x for x in t[f] if S[x] == "ChargingState"):
                    out.append(("a resource loses its charging state", f"{i}: {s[f]} -> {t[f]} by {op}"))
            elif f == "process_ids" and machine:
                if "production_capacity" not in kinds:
                    out.append(("a transformation is used that the scenario does not permit", f"processes of {i}"))
            elif f in ("location", "input_location", "output_location") and machine:
                if not {"production_capacity", "layout"} & set(kinds):
                    out.append(("a transformation is used that the scenario does not permit", f"place of {i}"))
                if t["location"] not in o["positions"]:
                    out.append(("a machine is placed where the scenario offers no position", str(t["location"])))
                for g in ("input_location", "output_location"):
                    if any(abs((t[g][x] - t["location"][x]) - (s[g][x] - s["location"][x])) > 1e-9 for x in (0, 1)):
                        out.append(("a moved machine does not keep its shape", f"{i}: {g}"))
            elif f == "control_policy":
                if not {"production_capacity", "sequencing_logic"} & set(kinds):
                    out.append(("a transformation is used that the scenario does not permit", f"policy of {i}"))
                if t[f] not in pol:
                    out.append(("a policy is used that the scenario does not offer", t[f]))
            else:
                out.append(("a transformation changes something else", f"{i}.{f}: {s[f]} -> {t[f]}"))
        if machine:  # setup states of a machine whose processes changed
            if s["process_ids"] != t["process_ids"]:
                for x in d["state_data"]:
                    if x["type"] == "SetupState":
                        n = (x["origin_setup"] in t["process_ids"]) + (x["target_setup"] in t["process_ids"])
                        if (n == 2) != (x["ID"] in t["state_ids"]) and n != 1:
                            out.append(("setup states do not follow the processes of a machine", f"{i}: {x['ID']} {'missing' if n else 'left'} after {op}"))
    return out


def free(r):
    return {k: v for k, v in r.items() if k not in ("input_queues", "output_queues", "process_capacities", "state_ids")}


def evaluate(spec):
    out, c = [], collections.Counter()
    d, rng = baseline(spec["seed"], spec["profile"], spec.get("kinds"))
    kinds = d["scenario_data"]["options"]["transformations"]
    random.seed(spec["seed"])
    try:
        a = prepare(d)
    except ValueError as e:
        if "heterogen" not in str(e):
            raise
        c["baselines with ambiguous breakdown states"] += 1
        for r in d["resource_data"]:  # another baseline: one breakdown state for all
            r["state_ids"] = [s for s in r["state_ids"] if any(x["ID"] == s and x["type"] not in BREAK for x in d["state_data"])]
        a = prepare(d)
    b = dump(a)
    c["baselines"] += 1
    c["kinds " + str(len(kinds))] += 1

    def judge(x, what):
        dx = dump(x)
        mine = limits(dx, b)
        theirs = opt.check_valid_configuration(x, a)
        for m in mine or ["none"]:
            c["limit violated: " + m] += 1
        if bool(mine) == theirs:
            out.append(("a configuration beyond the limits is accepted" if mine else "a configuration within all limits is rejected", f"after {what}: {mine or reason(x, a)}"))
        if not mine and theirs:
            c["accepted"] += 1
            if abs(x.reconfiguration_cost - cost(dx, b)) > 1e-6:
                out.append(("wrong reconfiguration cost", f"{x.reconfiguration_cost} instead of {cost(dx, b)} after {what}"))
        if abs(opt.get_reconfiguration_cost(x, a) - cost(dx, b)) > 1e-6:
            out.append(("wrong reconfiguration cost", f"{opt.get_reconfiguration_cost(x, a)} instead of {cost(dx, b)} after {what}"))
        return not mine and theirs

    def run(x, what):
        dx = json.loads(x.model_dump_json())
        dx["_horizon"] = d["_horizon"]
        try:
            y = x.model_copy(deep=True)
            y.scenario_data = None
            p20.simulate(y, min(d["_horizon"], 300))
            c["simulated"] += 1
        except Exception as e:
            out.append(("an accepted configuration cannot be simulated", f"after {what}: {type(e).__name__}: {e}"))

    judge(a, "baseline")
    walk = [a.model_copy(deep=True)]
    ops = am.get_mutation_operations(a)
    names = collections.Counter()
    for step in range(spec.get("steps", 14)):
        cur = walk[-1]
        x = cur.model_copy(deep=True)
        before, bid = dump(x), x.ID
        # as mutation does; the chosen operation is recorded
        chosen = []
        orig = am.get_mutation_operations

        def spy(y):
            def wrap(f):
                def g(z):
                    r = f(z)
                    chosen.append((f.__name__, r))
                    return r
                return g
            return [wrap(f) for f in orig(y)]
        am.get_mutation_operations = spy
        try:
            (ind,) = am.mutation([x])
        except Exception as e:
            out.append(("a transformation fails", f"{[n for n in names][-1:]} {type(e).__name__}: {e} | {where(e)}"))
            c["failed"] += 1
            continue
        finally:
            am.get_mutation_operations = orig
        y = ind[0]
        op = chosen[0][0] if chosen else "?"
        names[op] += 1
        c["mutation " + op + (" done" if chosen and chosen[0][1] else " refused")] += 1
        dy = dump(y)
        out += consistent(dy)
        out += changed(before, dy, kinds, op)
        core_change = {k: ([free(r) for r in before[k]] if k == "resource_data" else before[k]) for k in ("resource_data", "source_data", "auxiliary_data")} != \
            {k: ([free(r) for r in dy[k]] if k == "resource_data" else dy[k]) for k in ("resource_data", "source_data", "auxiliary_data")}
        if (core_change or {**dy, "reconfiguration_cost": 0} != {**before, "reconfiguration_cost": 0}) and y.ID == bid:
            out.append(("a changed configuration keeps its name", op))
        if chosen and chosen[0][1] is True and not core_change:
            c["mutations without effect"] += 1
        if judge(y, op) and step % 5 == 2:
            run(y, op)
        if consistent(dy) == [] and len(vehicles(dy)) and len(machines(dy)):
            walk.append(y)
    if dump(a) != b and {k: v for k, v in dump(a).items() if k != "reconfiguration_cost"} != {k: v for k, v in b.items() if k != "reconfiguration_cost"}:
        out.append(("the baseline is changed", ""))
    # configurations altered by hand: not what the operations propose, but what the limits are there for
    for _ in range(8):
        x = rng.choice(walk).model_copy(deep=True)
        how = perturb(rng, x)
        if how:
            c["altered: " + how] += 1
            judge(x, "alteration: " + how)
    # crossover of two configurations
    for _ in range(3):
        i, j = (copy.deepcopy(rng.choice(walk)) for _ in range(2))
        di, dj = dump(i), dump(j)
        try:
            x, y = (q[0] for q in am.crossover([i], [j]))
        except Exception as e:
            out.append(("a crossover fails", f"{type(e).__name__}: {e} | {where(e)}"))
            continue
        c["crossovers"] += 1
        dx, dy = dump(x), dump(y)
        if x.ID == y.ID or x.ID in (di["ID"], dj["ID"]):
            out.append(("a changed configuration keeps its name", "crossover"))
        key = lambda z: sorted(json.dumps({**free(r), "ID": ""}, sort_keys=True) for w in z for r in w["resource_data"])
        if key([di, dj]) != key([dx, dy]):
            out.append(("a crossover loses or duplicates resources", f"{len(key([di, dj]))} -> {len(key([dx, dy]))}"))
        for f in ("time_model_data", "state_data", "process_data", "node_data", "product_data", "sink_data", "scenario_data", "source_data", "auxiliary_data"):
            if (dx[f], dy[f]) not in ((di[f], dj[f]), (dj[f], di[f])):
                out.append(("a crossover changes something else", f))
        for z, dz in ((x, dx), (y, dy)):
            bad = [v for v in consistent(dz) if v[0] != "an element occurs twice"]
            dup = [v for v in consistent(dz) if v[0] == "an element occurs twice"]
            out += [("crossover: " + v[0], v[1]) for v in bad]
            ok = judge(z, "crossover")
            if ok and dup:
                out.append(("a configuration with two elements of one name is accepted", dup[0][1]))
            elif ok and rng.random() < 0.3:
                run(z, "crossover")
    # random configurations
    tries = [0]
    check = am.check_valid_configuration

    class Enough(Exception):
        pass

    def limited(x, y):
        tries[0] += 1
        if tries[0] > spec.get("tries", 60):
            raise Enough()
        r = check(x, y)
        judge(x, "random configuration")
        return r
    for _ in range(3):
        tries[0] = 0
        am.check_valid_configuration = limited
        try:
            x = am.random_configuration(a)
        except Enough:
            c["random configurations given up"] += 1
            continue
        except Exception as e:
            out.append(("a random configuration fails", f"{type(e).__name__}: {e} | {where(e)}"))
            continue
        finally:
            am.check_valid_configuration = check
        c["random configurations"] += 1
        dx = dump(x)
        out += consistent(dx)
        out += changed(b, dx, kinds + (["sequencing_logic"] if "transport_capacity" in kinds else []), "random configuration")
        if limits(dx, b):
            out.append(("a random configuration beyond the limits", str(limits(dx, b))))
        if x.ID == a.ID:
            out.append(("a changed configuration keeps its name", "random configuration"))
        run(x, "random configuration")
    return core.Outcome(dedupe(out), c, c["accepted"] > 0, core.digest(json.dumps([sorted(names.items()), len(walk)])), dict(profile=spec["profile"], kinds=kinds, operations=dict(names)))


def perturb(rng, x):
    """Alter a configuration in one or two places, within or beyond the limits."""
    M, T = [m for m in adapters.get_production_resources(x) if m.process_ids], adapters.get_transport_resources(x)
    if not M or not T:
        return None
    how = rng.choice(["off grid", "off grid", "same place", "on grid", "vehicles", "no vehicle", "machines", "modules", "no process", "auxiliaries", "policy"])
    m = rng.choice(M)

    def place(r, p):
        dx, dy = p[0] - r.location[0], p[1] - r.location[1]
        for f in ("location", "input_location", "output_location"):
            v = getattr(r, f)
            setattr(r, f, [v[0] + dx, v[1] + dy])
    if how == "off grid":
        place(m, [float(rng.randint(100, 200)), float(rng.randint(100, 200)) + rng.choice([0.0, 0.5])])
    elif how == "on grid":
        place(m, rng.choice(x.scenario_data.options.positions))
    elif how == "same place":
        if len(M) < 2:
            return None
        place(m, rng.choice([q for q in M if q is not m]).location)
    elif how == "vehicles":
        for i in range(rng.randint(1, 3)):
            t = rng.choice(T).model_copy(deep=True)
            t.ID = f"extra_vehicle_{i}"
            x.resource_data.append(t)
    elif how == "no vehicle":
        for t in T[(0 if rng.random() < 0.5 else 1):]:
            x.resource_data.remove(t)
    elif how == "machines":
        for i in range(rng.randint(1, 3)):
            t = m.model_copy(deep=True)
            t.ID = f"extra_machine_{i}"
            place(t, rng.choice(x.scenario_data.options.positions) if rng.random() < 0.7 else [300.0 + i, float(i)])
            x.resource_data.append(t)
    elif how == "modules":
        more = [p for q in M for p in q.process_ids if p not in m.process_ids]
        for p in rng.sample(more, min(len(more), rng.randint(1, 3))):
            if p not in m.process_ids:
                m.process_ids.append(p)
                m.process_capacities.append(m.capacity)
    elif how == "no process":
        p = rng.choice(m.process_ids)
        for q in M if rng.random() < 0.6 else [m]:
            if p in q.process_ids:
                k = q.process_ids.index(p)
                q.process_ids.pop(k)
                q.process_capacities.pop(k)
        if any(not q.process_ids for q in M):
            for q in [q for q in M if not q.process_ids]:
                x.resource_data.remove(q)
        if not adapters.get_production_resources(x):
            return None
    elif how == "auxiliaries":
        if not x.auxiliary_data:
            return None
        q = rng.choice(x.auxiliary_data)
        n = rng.choice([0, 0, 1, 5])
        q.quantity_in_storages = [n for _ in q.quantity_in_storages]
    elif how == "policy":
        rng.choice(x.source_data).routing_heuristic = rng.choice(["FIFO", "random", "shortest_queue"])
    return how


def reason(x, a):
    r = [f.__name__ for f in (opt.valid_num_machines, opt.valid_transport_capacity, opt.valid_num_process_modules, opt.valid_positions) if not f(x)]
    r += [] if opt.valid_reconfiguration_cost(x, a) else ["valid_reconfiguration_cost"]
    for f in (opt.assert_required_auxiliaries_available, opt.assert_required_processes_in_resources_available, adapters.adapter.assert_no_redudant_locations):
        try:
            f(x)
        except Exception as e:
            r.append(str(e))
    return f"{r} {[(m.location, m.input_location, m.output_location) for m in adapters.get_production_resources(x)]}"


def dedupe(out):
    seen, r = collections.Counter(), []
    for v in out:
        seen[v[0]] += 1
        if seen[v[0]] <= 2:
            r.append(v)
    return r


def where(e):
    import traceback
    f = [x for x in traceback.extract_tb(e.__traceback__) if "prodsys" in x.filename]
    return " < ".join(f"{x.name}:{x.line}" for x in f[::-1][:3])


OPS = ["add_machine", "remove_machine", "move_machine", "change_control_policy", "add_process_module", "remove_process_module", "move_process_module",
       "add_transport_resource", "remove_transport_resource", "add_auxiliary", "remove_auxiliary", "change_routing_policy"]


def definition():
    def cases(seed, tier):
        n = 500 if tier == "quick" else 20000
        P = sorted(PROFILES)
        out = []
        for i in range(n):
            s = dict(profile=P[i % len(P)], seed=f"P23/{seed}/{i}")
            if i % 3 == 0:
                s["kinds"] = [KINDS[(i // 3) % 6]] + [k for k in KINDS if (i * 7 + len(k)) % 4 == 0 and k != "auxiliary_capacity" and k != KINDS[(i // 3) % 6]]
                if s["kinds"][0] == "auxiliary_capacity":
                    s["profile"] = "aux"
            out.append(s)
        return out
    return dict(cases=cases, evaluate=evaluate,
                required=["baselines", "accepted", "crossovers", "random configurations", "simulated"] + [f"mutation {o} done" for o in OPS] +
                ["limit violated: " + x for x in ("none", "machines", "vehicles", "processes per machine", "places used twice", "positions", "cost", "required processes", "required auxiliaries")],
                rule="a random baseline with a random scenario, a walk of 14 mutations, 3 crossovers and 3 random configurations, each compared with its parent and judged against the limits; distinct = different sequence of operations",
                assumptions=["baselines without link transports and stores, machines whose input place is their location",
                             "the optimisation's normalisation (unlimited own buffers, process capacities equal to the capacity, breakdown states by naming convention) is taken as intended"])
