"""P20: configurations survive writing/reading; the express description means the same as the data it stands for."""
import collections
import enum
import json
import os
import random
import tempfile

from pydantic import BaseModel

from mon import core, gen, simcheck, trace
from mon.p17 import first_diff, log_of
from prodsys.adapters.json_adapter import JsonProductionSystemAdapter
from prodsys.models import queue_data as _qd
from prodsys.util import runner as runner_module

PROFILES = ["base", "busy", "tight", "fail", "setup", "link", "rework", "multi", "store", "aux", "zero", "batch", "charge", "vehicles",
            "queues", "auxstore", "nearest", "names"]
WORDS = ["", "plain", "Größe µm", "机器 一", "line\nbreak", "quote \" and \\ slash", "emoji \U0001F600", "a/b", "  blanks  ", "null", "ß" * 40]


# ---------------------------------------------------------------- deep comparison
def plain(x):
    return x.value if isinstance(x, enum.Enum) else x


def diff(a, b, path="", ignore=()):
    """First difference between two object trees: classes, fields, order and values."""
    a, b = plain(a), plain(b)
    if isinstance(a, BaseModel) or isinstance(b, BaseModel):
        if type(a) is not type(b):
            return f"{path}: {type(a).__name__} / {type(b).__name__}"
        for f in type(a).model_fields:
            if f in ignore:
                continue
            d = diff(getattr(a, f), getattr(b, f), f"{path}.{f}", ignore)
            if d:
                return d
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return f"{path}: keys {list(a)} / {list(b)}"
        for k in a:
            d = diff(a[k], b[k], f"{path}[{k!r}]", ignore)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} / {len(b)} elements: {a!r} / {b!r}"[:400]
        for i, (x, y) in enumerate(zip(a, b)):
            ident = getattr(x, "ID", i)
            d = diff(x, y, f"{path}[{ident}]", ignore)
            if d:
                return d
        return None
    if isinstance(a, bool) != isinstance(b, bool) or a != b:
        return f"{path}: {a!r} / {b!r}"
    return None


# ---------------------------------------------------------------- enriched configurations
def scenario(rng, d):
    prods = [p["ID"] for p in d["product_data"]]
    return dict(
        constraints=dict(max_reconfiguration_cost=rng.choice([0, 120000, 1e5 / 3]), max_num_machines=rng.randint(1, 9),
                         max_num_processes_per_machine=rng.randint(1, 5), max_num_transport_resources=rng.randint(1, 4),
                         target_product_count=rng.choice([None, {p: rng.randint(1, 99) for p in prods}])),
        options=dict(transformations=rng.sample(["production_capacity", "transport_capacity", "auxiliary_capacity", "layout", "sequencing_logic", "routing_logic"], rng.randint(0, 6)),
                     machine_controllers=rng.sample(["FIFO", "LIFO", "SPT"], rng.randint(0, 3)),
                     transport_controllers=rng.sample(["FIFO", "SPT_transport", "Nearest_origin_and_longest_target_queues_transport", "Nearest_origin_and_shortest_target_input_queues_transport"], rng.randint(0, 4)),
                     routing_heuristics=rng.sample(["random", "shortest_queue", "FIFO"], rng.randint(0, 3)),
                     positions=[[rng.uniform(-50, 50), float(rng.randint(0, 9))] for _ in range(rng.randint(0, 5))]),
        info=dict(machine_cost=rng.uniform(1, 1e5), transport_resource_cost=rng.randint(1, 90000),
                  process_module_cost=rng.choice([None, 2300.5, {p["ID"]: rng.uniform(1, 5000) for p in d["process_data"]}]),
                  auxiliary_cost=rng.choice([None, 12.25]), breakdown_cost=rng.choice([None, 1000.0]),
                  time_range=rng.choice([None, 2600]), maximum_breakdown_time=rng.choice([None, 10])),
        objectives=[dict(name=n, weight=rng.uniform(-2, 2)) for n in rng.sample(["cost", "throughput", "WIP", "throughput_time"], rng.randint(0, 4))])


def enrich(d, rng):
    d["ID"] = rng.choice(["", "cfg", "Konfiguration Ä", "x" * 60])
    for k, v in d.items():
        if isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and rng.random() < 0.4:
                    x["description"] = rng.choice(WORDS)
    if rng.random() < 0.4:
        d["valid_configuration"] = rng.random() < 0.3
    if rng.random() < 0.5:
        d["reconfiguration_cost"] = rng.choice([0.1 + 0.2, 120000, 1e-9, 1e17 / 3])
    if rng.random() < 0.6:
        d["scenario_data"] = scenario(rng, d)
    # options that are left out
    for r in d["resource_data"]:
        if "input_queues" in r and rng.random() < 0.1:
            r["input_queues"], r["output_queues"] = [], []
        if len(set(r["process_capacities"])) == 1 and r["process_capacities"][0] == r["capacity"] and rng.random() < 0.4:
            r["process_capacities"] = None
    for s in d["sink_data"]:
        if rng.random() < 0.1:
            s["input_queues"] = []
    for s in d["source_data"]:
        if rng.random() < 0.1:
            s["output_queues"] = []
    for p in d["process_data"]:
        if p["type"] in ("ProductionProcesses", "CapabilityProcesses") and not p.get("failure_rate") and rng.random() < 0.3:
            p["failure_rate"] = None
    for p in d["product_data"]:
        if not p["auxiliaries"] and rng.random() < 0.3:
            del p["auxiliaries"]
    # elements that nothing refers to stay elements of the configuration
    tm = d["time_model_data"]
    if rng.random() < 0.5:
        tm.append(dict(ID="unused_manhattan", description="", speed=rng.uniform(1, 9), reaction_time=rng.uniform(0, 1)))
        tm.append(dict(ID="unused_euclid", description="", speed=1 / 3, reaction_time=0.0, metric=rng.choice(["euclidian", "euclidean", "manhattan"])))
        tm.append(dict(ID="unused_schedule", description="", schedule=[1.5, 2.5, 2.5], absolute=rng.random() < .5, cyclic=rng.random() < .5))
        tm.append(dict(ID="unused_samples", description="", samples=[rng.uniform(0, 1e-6), rng.uniform(1, 1e12)]))
        tm.append(dict(ID="unused_sequence", description="", sequence=[1, 2.25, 1e-300]))
        tm.append(dict(ID="unused_function", description="", distribution_function="lognormal", location=0.1, scale=2.0, batch_size=rng.choice([1, 7, 100])))
        d["queue_data"].append(dict(ID="unused_q", description="", capacity=7))
        d["queue_data"].append(dict(ID="unused_store", description="", capacity=2.5, location=[500.25, -3.0], input_location=[501.0, 1.0], output_location=[502.0, 0.0]))
        d["node_data"].append(dict(ID="unused_node", description="", location=[-1.0, 1e6]))
    rng.shuffle(tm)
    return d


def build(d):
    d = json.loads(json.dumps({k: v for k, v in d.items() if not k.startswith("_")}))
    d["queue_data"] = [(_qd.StoreData if "location" in q else _qd.QueueData)(**q) for q in d["queue_data"]]
    return JsonProductionSystemAdapter(**d)


def simulate(adapter, horizon, parts=1):
    r = runner_module.Runner(adapter=adapter)
    r.initialize_simulation()
    r.run(horizon)
    return log_of(r)


def ev_file(spec):
    out, c = [], collections.Counter()
    prof = dict(simcheck.PROFILES[spec["profile"]])
    prof.update(jobs=(8, 25))
    d = gen.generate(spec["seed"], prof)
    rng = random.Random(spec["seed"] + "/p20")
    d = enrich(d, rng)
    a = build(d)
    ref = build(d)
    for k in ("time_model_data", "state_data", "process_data", "queue_data", "node_data", "resource_data", "product_data", "sink_data", "source_data", "auxiliary_data"):
        for x in getattr(a, k):
            c["element " + type(x).__name__] += 1
    with tempfile.TemporaryDirectory(prefix="p20_") as tmp:
        f = os.path.join(tmp, "cfg ä.json")
        a.write_data(f)
        x = diff(ref, a, "configuration")
        if x:
            out.append(("writing changes the configuration", x))
        b = JsonProductionSystemAdapter()
        kw = {}
        if a.scenario_data is not None and rng.random() < 0.4:
            g = os.path.join(tmp, "scenario.json")
            a.write_scenario_data(g)
            kw = dict(scenario_file_path=g)
            c["scenario files"] += 1
        if rng.random() < 0.3:  # an adapter that already holds another configuration
            other = gen.generate(spec["seed"] + "/other", dict(jobs=(3, 5)))
            b = build(other)
            c["read into a used adapter"] += 1
        try:
            b.read_data(f, **kw)
        except Exception as e:
            return core.Outcome([("a written configuration cannot be read", f"{type(e).__name__}: {e}")], c)
        c["files read"] += 1
        if a.scenario_data is not None:
            c["scenarios"] += 1
        x = diff(a, b, "configuration")
        if x:
            out.append(("a configuration read back differs", x))
        h = os.path.join(tmp, "again.json")
        b.write_data(h)
        if open(f, encoding="utf-8").read() != open(h, encoding="utf-8").read() and not x:
            out.append(("a second writing gives another file", ""))
        # scenario alone
        if kw:
            e = build(d)
            e.scenario_data = None
            e.read_scenario(kw["scenario_file_path"])
            x = diff(a.scenario_data, e.scenario_data, "scenario")
            if x:
                out.append(("a scenario read back differs", x))
        # the same simulation
        try:
            la = simulate(ref, d["_horizon"])
        except Exception as e:
            return core.Outcome(out + [("simulation of a valid configuration fails", f"{type(e).__name__}: {e}")], c)
        try:
            lb = simulate(b, d["_horizon"])
        except Exception as e:
            out.append(("the configuration read back cannot be simulated", f"{type(e).__name__}: {e}"))
            lb = la
        c["log rows compared"] += len(la)
        if la != lb:
            out.append(("the configuration read back simulates differently", first_diff(la, lb)))
        # the configuration is still what it was after it has been simulated
        i = os.path.join(tmp, "after.json")
        b.write_data(i)
        if open(f, encoding="utf-8").read() != open(i, encoding="utf-8").read() and not out:
            out.append(("simulating changes what is written", ""))
    return core.Outcome(out, c, bool(la), core.digest(json.dumps(d, sort_keys=True, default=str)),
                        dict(profile=spec["profile"], rows=len(la), elements=sum(v for k, v in c.items() if k.startswith("element"))))


# ---------------------------------------------------------------- express
EXPRESS = dict(plans=dict(list=1.0), p_compound=0.0, p_unequal_caps=0.0, p_shared_inq=0.0, p_multi_q=0.0, p_share_source_queue=0.0,
               p_share_sink_queue=0.0, jobs=(8, 25))


def expressible(d, rng):
    """Restrict to what express can say; returns the data that the express description must give."""
    d = json.loads(json.dumps(d))
    stores = {q["ID"]: q for q in d["queue_data"] if "location" in q}
    qcap = {q["ID"]: q["capacity"] for q in d["queue_data"]}
    new_q = []
    for r in d["resource_data"]:
        if "input_queues" not in r:
            continue
        cap = qcap[r["input_queues"][0]]
        if r["controller"] == "BatchController":
            cap = 0
        ins = [q for q in r["input_queues"] if q in stores]
        outs = [q for q in r["output_queues"] if q in stores]
        a, b = r["ID"] + "_default_input_queue", r["ID"] + "_default_output_queue"
        new_q += [dict(ID=a, capacity=cap), dict(ID=b, capacity=cap)]
        r["input_queues"] = [a] + ins
        r["output_queues"] = [b] + outs
        r["_cap"] = cap
    for s in d["source_data"]:
        q = s["ID"] + "_default_output_queue"
        new_q.append(dict(ID=q, capacity=0))
        s["output_queues"] = [q]
    for s in d["sink_data"]:
        q = s["ID"] + "_default_input_queue"
        new_q.append(dict(ID=q, capacity=0))
        s["input_queues"] = [q]
    d["queue_data"] = new_q + list(stores.values())
    for k, v in d.items():
        if isinstance(v, list):
            for x in v:
                x["description"] = ""
    # keep what is reachable
    used_p = {x for r in d["resource_data"] for x in r["process_ids"]} | {x for p in d["product_data"] for x in p["processes"]} | \
             {p["transport_process"] for p in d["product_data"]}
    d["process_data"] = [p for p in d["process_data"] if p["ID"] in used_p]
    used_t = set()
    for k in ("process_data", "state_data", "source_data"):
        for x in d[k]:
            used_t |= {v for f, v in x.items() if f.endswith("time_model_id") and v}
    d["time_model_data"] = [t for t in d["time_model_data"] if t["ID"] in used_t]
    used_a = {a for p in d["product_data"] for a in p["auxiliaries"]}
    d["auxiliary_data"] = [a for a in d["auxiliary_data"] if a["ID"] in used_a]
    used_q = {q for k in ("resource_data", "source_data", "sink_data", "auxiliary_data") for x in d[k] for f in ("input_queues", "output_queues", "storages") for q in x.get(f) or []}
    d["queue_data"] = [q for q in d["queue_data"] if q["ID"] in used_q]
    for t in d["time_model_data"]:
        if t.get("metric") == "euclidian":
            t["metric"] = "euclidean"
    used_n = {x for p in d["process_data"] for l in (p.get("links") or []) for x in l}
    d["node_data"] = [n for n in d["node_data"] if n["ID"] in used_n]
    return d


def express(d):
    """The express description of the data."""
    import warnings
    import prodsys.express as psx
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        T = {}
        for t in d["time_model_data"]:
            i = t["ID"]
            if "distribution_function" in t:
                T[i] = psx.FunctionTimeModel(t["distribution_function"], t["location"], t["scale"], ID=i)
            elif "samples" in t:
                T[i] = psx.SampleTimeModel(t["samples"], ID=i)
            elif "sequence" in t:
                from prodsys.express.time_model import SequentialTimeModel
                T[i] = SequentialTimeModel(t["sequence"], ID=i)
            elif "schedule" in t:
                T[i] = psx.ScheduledTimeModel(t["schedule"], absolute=t["absolute"], cyclic=t["cyclic"], ID=i)
            elif "metric" in t:
                T[i] = psx.DistanceTimeModel(t["speed"], t["reaction_time"], t["metric"], ID=i)
            else:
                from prodsys.express.time_model import ManhattanDistanceTimeModel
                T[i] = ManhattanDistanceTimeModel(t["speed"], t["reaction_time"], ID=i)
        P = {}
        for p in sorted(d["process_data"], key=lambda p: p["type"] == "ReworkProcesses"):
            i, ty = p["ID"], p["type"]
            lt = {k: T[p[k + "_id"]] for k in ("loading_time_model", "unloading_time_model") if p.get(k + "_id")}
            if ty == "ProductionProcesses":
                P[i] = psx.ProductionProcess(T[p["time_model_id"]], ID=i, failure_rate=p["failure_rate"])
            elif ty == "CapabilityProcesses":
                P[i] = psx.CapabilityProcess(T[p["time_model_id"]], p["capability"], failure_rate=p["failure_rate"], ID=i)
            elif ty == "RequiredCapabilityProcesses":
                P[i] = psx.RequiredCapabilityProcess(capability=p["capability"], ID=i)
            elif ty == "ReworkProcesses":
                from prodsys.express.process import ReworkProcess
                P[i] = ReworkProcess(T[p["time_model_id"]], [P[x] for x in p["reworked_process_ids"]], p["blocking"], ID=i)
            elif ty == "TransportProcesses":
                P[i] = psx.TransportProcess(T[p["time_model_id"]], i, **lt)
            elif ty == "LinkTransportProcesses":
                P[i] = psx.LinkTransportProcess(T[p["time_model_id"]], i, capability=p.get("capability", ""), **lt)
        ST = {}
        for s in d["state_data"]:
            i, ty = s["ID"], s["type"]
            if ty == "BreakDownState":
                ST[i] = psx.BreakDownState(T[s["time_model_id"]], T[s["repair_time_model_id"]], ID=i)
            elif ty == "ProcessBreakDownState":
                ST[i] = psx.ProcessBreakdownState(T[s["time_model_id"]], T[s["repair_time_model_id"]], P[s["process_id"]], ID=i)
            elif ty == "SetupState":
                ST[i] = psx.SetupState(T[s["time_model_id"]], P[s["origin_setup"]], P[s["target_setup"]], ID=i)
            else:
                from prodsys.express.state import ChargingState
                ST[i] = ChargingState(T[s["time_model_id"]], T[s["battery_time_model_id"]], ID=i)
        S = {q["ID"]: psx.Store(ID=q["ID"], capacity=q["capacity"], location=q["location"], input_location=q.get("input_location"),
                                output_location=q.get("output_location")) for q in d["queue_data"] if "location" in q}
        R = {}
        for r in d["resource_data"]:
            i = r["ID"]
            if r["controller"] == "TransportController":
                R[i] = psx.TransportResource([P[x] for x in r["process_ids"]], r["location"], r["capacity"], [ST[x] for x in r["state_ids"]],
                                             control_policy=r["control_policy"], ID=i)
            else:
                R[i] = psx.ProductionResource([P[x] for x in r["process_ids"]], r["location"], r["capacity"], [ST[x] for x in r["state_ids"]],
                                              controller=r["controller"], control_policy=r["control_policy"], ID=i, batch_size=r.get("batch_size"),
                                              input_location=r.get("input_location"), output_location=r.get("output_location"),
                                              input_stores=[S[q] for q in r["input_queues"] if q in S], output_stores=[S[q] for q in r["output_queues"] if q in S],
                                              internal_queue_size=r["_cap"])
        A = {}
        for x in d["auxiliary_data"]:
            A[x["ID"]] = psx.Auxiliary([P[p] for p in x["relevant_processes"]], [P[p] for p in x["relevant_transport_processes"]], P[x["transport_process"]],
                                       [S[q] for q in x["storages"]], x["quantity_in_storages"], ID=x["ID"])
        PR = {p["ID"]: psx.Product([P[x] for x in p["processes"]], P[p["transport_process"]], p["ID"], [A[x] for x in p["auxiliaries"]]) for p in d["product_data"]}
        SR = {s["ID"]: psx.Source(PR[s["product_type"]], T[s["time_model_id"]], s["location"], s["routing_heuristic"], ID=s["ID"]) for s in d["source_data"]}
        SK = {s["ID"]: psx.Sink(PR[s["product_type"]], s["location"], ID=s["ID"]) for s in d["sink_data"]}
        N = {n["ID"]: psx.Node(n["location"], ID=n["ID"]) for n in d["node_data"]}
        places = {**R, **SR, **SK, **N}
        for p in d["process_data"]:
            if p["type"] == "LinkTransportProcesses":
                links = [[places[a], places[b]] for a, b in p["links"]]
                if len(links) % 2:
                    P[p["ID"]].set_links(links)
                else:
                    for l in links:
                        P[p["ID"]].add_link(l)
        return psx.ProductionSystem([R[r["ID"]] for r in d["resource_data"]], [SR[s["ID"]] for s in d["source_data"]], [SK[s["ID"]] for s in d["sink_data"]])


LISTS = ("time_model_data", "state_data", "process_data", "queue_data", "node_data", "resource_data", "product_data", "sink_data", "source_data", "auxiliary_data")


def by_id(adapter, out, label):
    r = {}
    for k in LISTS:
        m = {}
        for x in getattr(adapter, k):
            if x.ID in m:
                out.append((f"{label}: an element is listed twice", f"{k} {x.ID}"))
            m[x.ID] = x
        r[k] = m
    return r


def ev_express(spec):
    out, c = [], collections.Counter()
    prof = dict(simcheck.PROFILES[spec["profile"]])
    prof.update(EXPRESS)
    d = gen.generate(spec["seed"], prof)
    rng = random.Random(spec["seed"] + "/p20x")
    d = expressible(d, rng)
    horizon = d["_horizon"]
    try:
        system = express(d)
        m = system.to_model()
    except Exception as e:
        import traceback
        return core.Outcome([("a system cannot be described in express", f"{type(e).__name__}: {e} {traceback.format_exc().splitlines()[-3]}")], c)
    c["express systems"] += 1
    for r in d["resource_data"]:
        r.pop("_cap", None)
    direct = build(d)
    A, B = by_id(direct, out, "direct"), by_id(m, out, "express")
    for k in LISTS:
        if set(A[k]) != set(B[k]):
            out.append(("express loses or adds elements", f"{k}: missing {sorted(set(A[k]) - set(B[k]))}, added {sorted(set(B[k]) - set(A[k]))}"))
            continue
        for i in A[k]:
            c["express elements"] += 1
            x = diff(A[k][i], B[k][i], f"{k}[{i}]", ignore=("description",))
            if x:
                out.append(("an express element stands for other data", x))
    m2 = system.to_model()
    x = diff(m, m2, "model")
    if x:
        out.append(("describing the same system twice gives different data", x))
    if out:
        return core.Outcome(out, c)
    # the same simulation: in the order of the express lists
    for k in LISTS:
        pos = {x.ID: i for i, x in enumerate(getattr(m, k))}
        d[k].sort(key=lambda x: pos[x["ID"]])
    seed = rng.randrange(10 ** 6)
    d["seed"] = seed
    try:
        la = simulate(build(d), horizon)
    except Exception as e:
        return core.Outcome([("simulation of a valid configuration fails", f"{type(e).__name__}: {e}")], c)
    try:
        system.run(horizon, seed=seed)
        lb = log_of(system.runner)
    except Exception as e:
        return core.Outcome([("an express system cannot be run", f"{type(e).__name__}: {e}")], c)
    c["log rows compared"] += len(la)
    if la != lb:
        out.append(("an express system simulates differently", first_diff(la, lb)))
    with tempfile.TemporaryDirectory(prefix="p20_") as tmp:
        f = os.path.join(tmp, "m.json")
        m2.seed = seed
        m2.write_data(f)
        b = JsonProductionSystemAdapter()
        b.read_data(f)
        x = diff(m2, b, "configuration")
        if x:
            out.append(("a written express model read back differs", x))
        elif rng.random() < 0.4:
            lc = simulate(b, horizon)
            if lc != la:
                out.append(("a written express model simulates differently", first_diff(la, lc)))
    return core.Outcome(out, c, bool(la), core.digest(json.dumps(d, sort_keys=True, default=str)), dict(express=spec["profile"], rows=len(la)))


def evaluate(spec):
    return ev_express(spec) if spec["kind"] == "express" else ev_file(spec)


def definition():
    def cases(seed, tier):
        n = 900 if tier == "quick" else 24000
        out = []
        for i in range(n):
            out.append(dict(kind="express" if i % 3 == 2 else "file", profile=PROFILES[(i // 3 + i) % len(PROFILES)], seed=f"P20/{seed}/{i}"))
        return out
    return dict(cases=cases, evaluate=evaluate,
                required=["files read", "express systems", "scenarios", "scenario files", "read into a used adapter", "log rows compared",
                          "element StoreData", "element LinkTransportProcessData", "element ChargingStateData", "element AuxiliaryData",
                          "element CompoundProcessData", "element ReworkProcessData", "element ProcessBreakDownStateData", "element SetupStateData"],
                rule="a random configuration with every kind of element and option written, read back, compared field by field and simulated; or described in express; distinct = different configuration data",
                assumptions=["buffer capacities are finite numbers (0 means unlimited)"])
