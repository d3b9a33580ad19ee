"""P21: inconsistent configurations are rejected before they are simulated, consistent ones are accepted and run."""
import collections
import copy
import json
import os
import random
import tempfile

from mon import core, gen, p20, simcheck
from prodsys.adapters.json_adapter import JsonProductionSystemAdapter
from prodsys.util import runner as runner_module

PROFILES = ["base", "busy", "tight", "fail", "setup", "link", "rework", "multi", "store", "aux", "zero", "batch", "charge", "vehicles", "queues", "auxstore", "nearest", "names"]
MISSING = "there_is_no_such_thing"


# ---------------------------------------------------------------- inconsistent variants
MUTATIONS = {}


def mutation(name):
    def deco(f):
        MUTATIONS[name] = f
        return f
    return deco


def ref(name, key, field, where=lambda x: True):
    """The reference `field` of one element of the list `key` names something that does not exist."""
    def f(d, rng):
        c = [x for x in d[key] if x.get(field) and where(x)]
        if not c:
            return None
        x = rng.choice(c)
        if isinstance(x[field], list):
            i = rng.randrange(len(x[field]))
            if isinstance(x[field][i], list):
                x[field][i][rng.randrange(len(x[field][i]))] = MISSING
            else:
                x[field][i] = MISSING
        elif isinstance(x[field], dict):
            k = rng.choice(sorted(x[field]))
            if rng.random() < 0.5:
                x[field] = {(MISSING if a == k else a): b for a, b in x[field].items()}
            else:
                x[field][k] = list(x[field][k]) + [MISSING]
        else:
            x[field] = MISSING
        return f"{key} {x.get('ID')}.{field}"
    MUTATIONS["missing " + name] = f


for st in ("BreakDownState", "ProcessBreakDownState", "SetupState", "ChargingState"):
    ref("time model of " + st, "state_data", "time_model_id", lambda x, st=st: x["type"] == st)
ref("repair time model", "state_data", "repair_time_model_id")
ref("battery time model", "state_data", "battery_time_model_id")
ref("process of a process breakdown", "state_data", "process_id")
ref("origin of a setup", "state_data", "origin_setup")
ref("target of a setup", "state_data", "target_setup")
ref("time model of a process", "process_data", "time_model_id")
ref("loading time model", "process_data", "loading_time_model_id")
ref("unloading time model", "process_data", "unloading_time_model_id")
ref("reworked process", "process_data", "reworked_process_ids")
ref("member of a compound process", "process_data", "process_ids")
ref("place of a link", "process_data", "links")
ref("process of a resource", "resource_data", "process_ids")
ref("state of a resource", "resource_data", "state_ids")
ref("input queue of a resource", "resource_data", "input_queues")
ref("output queue of a resource", "resource_data", "output_queues")
ref("process of a product", "product_data", "processes")
ref("transport process of a product", "product_data", "transport_process")
ref("auxiliary of a product", "product_data", "auxiliaries")
ref("product type of a sink", "sink_data", "product_type")
ref("queue of a sink", "sink_data", "input_queues")
ref("product type of a source", "source_data", "product_type")
ref("time model of a source", "source_data", "time_model_id")
ref("queue of a source", "source_data", "output_queues")
ref("storage of an auxiliary", "auxiliary_data", "storages")
ref("transport process of an auxiliary", "auxiliary_data", "transport_process")
ref("relevant transport process of an auxiliary", "auxiliary_data", "relevant_transport_processes")


@mutation("missing relevant process of an auxiliary")
def _(d, rng):
    if not d["auxiliary_data"]:
        return None
    a = rng.choice(d["auxiliary_data"])
    a["relevant_processes"] = list(a["relevant_processes"]) + [MISSING]
    return a["ID"]


def drop(name, key):
    """An element something else refers to is removed."""
    def f(d, rng):
        used = json.dumps({k: [{a: b for a, b in x.items() if a not in ("ID", "description", "product_type", "auxiliary_type") or k in ("sink_data", "source_data") and a == "product_type"}
                               for x in v] for k, v in d.items() if isinstance(v, list)})
        c = [x for x in d[key] if '"%s"' % x["ID"] in used]
        if not c:
            return None
        x = rng.choice(c)
        d[key].remove(x)
        return f"{key} {x['ID']} removed"
    MUTATIONS["removed " + name] = f


drop("time model", "time_model_data")
drop("state", "state_data")
drop("queue", "queue_data")
drop("process", "process_data")
drop("product", "product_data")
drop("node", "node_data")
drop("auxiliary", "auxiliary_data")


def plan_demands(p):
    x = p["processes"]
    if isinstance(x, dict):
        return sorted(set(x) | {b for v in x.values() for b in v})
    if x and isinstance(x[0], list):
        return sorted({b for v in x for b in v})
    return sorted(set(x))


def unoffer(d, pids):
    """No resource offers the processes any more: they are replaced by another one there."""
    t = [p for p in d["process_data"] if p["ID"] in pids][0]
    n = dict(t, ID="unwanted")
    if "capability" in n:
        n["capability"] = "unwanted"
    d["process_data"].append(n)
    for r in d["resource_data"]:
        r["process_ids"] = ["unwanted" if x in pids else x for x in r["process_ids"]]
    d["state_data"] = [s for s in d["state_data"] if not ({s.get("process_id"), s.get("origin_setup"), s.get("target_setup")} & set(pids))]
    have = {s["ID"] for s in d["state_data"]}
    for r in d["resource_data"]:
        r["state_ids"] = [s for s in r.get("state_ids") or [] if s in have]


@mutation("production process not offered")
def _(d, rng):
    comp = {m for p in d["process_data"] if p["type"] == "CompoundProcesses" for m in p["process_ids"]}
    ty = {p["ID"]: p["type"] for p in d["process_data"]}
    c = sorted({x for p in d["product_data"] for x in plan_demands(p) if ty[x] == "ProductionProcesses" and x not in comp})
    if not c:
        return None
    x = rng.choice(c)
    unoffer(d, [x])
    return x


@mutation("capability not offered")
def _(d, rng):
    pr = {p["ID"]: p for p in d["process_data"]}
    comp = {m for p in d["process_data"] if p["type"] == "CompoundProcesses" for m in p["process_ids"]}
    c = sorted({x for p in d["product_data"] for x in plan_demands(p) if pr[x]["type"] == "RequiredCapabilityProcesses"})
    c = [x for x in c if not any(p.get("capability") == pr[x]["capability"] and p["ID"] in comp for p in d["process_data"])]
    if not c:
        return None
    x = rng.choice(c)
    unoffer(d, [p["ID"] for p in d["process_data"] if p["type"] == "CapabilityProcesses" and p["capability"] == pr[x]["capability"]])
    return x


@mutation("transport process not offered")
def _(d, rng):
    pr = {p["ID"]: p for p in d["process_data"]}
    c = sorted({p["transport_process"] for p in d["product_data"] if pr[p["transport_process"]]["type"] in ("TransportProcesses", "LinkTransportProcesses")})
    if not c:
        return None
    x = rng.choice(c)
    cap = pr[x].get("capability")
    unoffer(d, [x] + [p["ID"] for p in d["process_data"] if cap and p.get("capability") == cap])
    return x


@mutation("compound demand not offered")
def _(d, rng):
    pr = {p["ID"]: p for p in d["process_data"]}
    c = sorted({x for p in d["product_data"] for x in plan_demands(p) if pr[x]["type"] == "CompoundProcesses"})
    if not c:
        return None
    x = rng.choice(c)
    members = pr[x]["process_ids"]
    if any(pr[m]["type"] != "ProductionProcesses" for m in members):
        return None
    unoffer(d, list(members))
    for r in d["resource_data"]:
        r["process_ids"] = ["unwanted" if pr.get(y, {}).get("type") == "CompoundProcesses" else y for y in r["process_ids"]]
    return x


@mutation("rework of a failing process not offered")
def _(d, rng):
    pr = {p["ID"]: p for p in d["process_data"]}
    offered = {x for r in d["resource_data"] for x in r["process_ids"]}
    c = sorted({x for p in d["product_data"] for x in plan_demands(p) if pr[x].get("failure_rate") and x in offered and pr[x]["type"] == "ProductionProcesses"})
    rw = [p["ID"] for p in d["process_data"] if p["type"] == "ReworkProcesses"]
    if not c or not rw:
        return None
    x = rng.choice(c)
    if rng.random() < 0.5:
        for r in rw:
            pr[r]["reworked_process_ids"] = [y for y in pr[r]["reworked_process_ids"] if y != x] or [sorted(y for y in offered if y != x and pr[y]["type"] == "ProductionProcesses" and y != x)[0]] \
                if any(y != x and pr[y]["type"] == "ProductionProcesses" for y in offered) else []
        if any(x in pr[r]["reworked_process_ids"] or not pr[r]["reworked_process_ids"] for r in rw):
            return None
    else:
        unoffer(d, [r for r in rw if x in pr[r]["reworked_process_ids"]])
        d["process_data"][-1]["reworked_process_ids"] = [y for y in d["process_data"][-1]["reworked_process_ids"] if y != x] or sorted(offered - {x})[:1]
        if d["process_data"][-1]["reworked_process_ids"] == []:
            return None
    return x


@mutation("transport process of a required auxiliary not offered")
def _(d, rng):
    need = {a for p in d["product_data"] for a in p.get("auxiliaries") or []}
    c = [a for a in d["auxiliary_data"] if a["ID"] in need]
    if not c:
        return None
    t = [p for p in d["process_data"] if p["type"] == "TransportProcesses"][0]
    d["process_data"].append(dict(t, ID="TP_other"))
    a = rng.choice(c)
    a["transport_process"] = "TP_other"
    return a["ID"]


@mutation("resource offers a mere demand")
def _(d, rng):
    c = [p["ID"] for p in d["process_data"] if p["type"] == "RequiredCapabilityProcesses"]
    r = [r for r in d["resource_data"] if "input_queues" in r]
    if not c or not r:
        return None
    r = rng.choice(r)
    r["process_ids"].append(rng.choice(c))
    r["process_capacities"].append(r["capacity"])
    return r["ID"]


def spots(x):
    return [f for f in ("location", "input_location", "output_location") if x.get(f)]


def collide(name, a, b):
    def f(d, rng):
        A, B = a(d), b(d)
        pairs = [(x, y) for x in A for y in B if x["ID"] != y["ID"]]
        if not pairs:
            return None
        x, y = rng.choice(pairs)
        fx, fy = rng.choice(spots(x)), rng.choice(spots(y))
        x[fx] = list(y[fy])
        return f"{x['ID']}.{fx} = {y['ID']}.{fy}"
    MUTATIONS["same spot: " + name] = f


MACH = lambda d: [r for r in d["resource_data"] if r["controller"] != "TransportController"]
SRC = lambda d: d["source_data"]
SNK = lambda d: d["sink_data"]
STO = lambda d: [q for q in d["queue_data"] if "location" in q]
collide("two machines", MACH, MACH)
collide("machine and source", MACH, SRC)
collide("machine and sink", MACH, SNK)
collide("source and sink", SRC, SNK)
collide("two stores", STO, STO)
collide("store and machine", STO, MACH)
collide("store and source", STO, SRC)
collide("store and sink", STO, SNK)


@mutation("capacity: process over the resource")
def _(d, rng):
    r = rng.choice(d["resource_data"])
    r["process_capacities"][rng.randrange(len(r["process_capacities"]))] = r["capacity"] + rng.choice([1, 5])
    return r["ID"]


@mutation("capacity: wrong number of process capacities")
def _(d, rng):
    r = rng.choice(d["resource_data"])
    if rng.random() < 0.5 and len(r["process_capacities"]) > 1:
        r["process_capacities"].pop()
    else:
        r["process_capacities"].append(r["capacity"])
    return r["ID"]


@mutation("capacity: batch larger than the machine")
def _(d, rng):
    c = [r for r in d["resource_data"] if r["controller"] == "BatchController"]
    if not c:
        return None
    r = rng.choice(c)
    r["batch_size"] = r["capacity"] + 1
    return r["ID"]


@mutation("capacity: batch machine without batch size")
def _(d, rng):
    c = [r for r in d["resource_data"] if r["controller"] == "BatchController"]
    if not c:
        return None
    r = rng.choice(c)
    if rng.random() < 0.5:
        r["batch_size"] = None
    else:
        del r["batch_size"]
    return r["ID"]


@mutation("capacity: batch size of another machine")
def _(d, rng):
    c = [r for r in d["resource_data"] if r["controller"] == "PipelineController"]
    if not c:
        return None
    r = rng.choice(c)
    r["batch_size"] = 1
    return r["ID"]


@mutation("capacity: more auxiliaries than the store holds")
def _(d, rng):
    cap = {q["ID"]: q for q in d["queue_data"]}
    if not d["auxiliary_data"]:
        return None
    a = rng.choice(d["auxiliary_data"])
    i = rng.randrange(len(a["storages"]))
    cap[a["storages"][i]]["capacity"] = 2
    a["quantity_in_storages"][i] = 3
    return a["ID"]


# ---------------------------------------------------------------- consistent variants
def consistent(d, rng):
    """Changes that keep a configuration consistent."""
    done = []
    if rng.random() < 0.3 and len(d["source_data"]) > 1:
        a, b = rng.sample(d["source_data"], 2)
        a["location"] = list(b["location"])
        done.append("sources share a spot")
    if rng.random() < 0.3 and len(d["sink_data"]) > 1:
        a, b = rng.sample(d["sink_data"], 2)
        a["location"] = list(b["location"])
        done.append("sinks share a spot")
    if rng.random() < 0.3:
        m = rng.choice(MACH(d))
        for t in d["resource_data"]:
            if t["controller"] == "TransportController":
                t["location"] = list(m["location"])
        done.append("vehicles at a machine")
    if rng.random() < 0.3:
        m = rng.choice(MACH(d))
        m["input_location"] = list(m["location"])
        m["output_location"] = list(m["location"])
        done.append("own spots coincide")
    if rng.random() < 0.3:
        tmid = d["time_model_data"][0]["ID"]
        d["process_data"].append(dict(ID="P_unused", description="", type="ProductionProcesses", time_model_id=tmid, failure_rate=0.0))
        m = rng.choice(MACH(d))
        m["process_ids"].append("P_unused")
        m["process_capacities"].append(m["capacity"])
        done.append("unused process")
    if rng.random() < 0.2:
        d["queue_data"].append(dict(ID="Q_unused", description="", capacity=1))
        d["node_data"].append(dict(ID="N_unused", description="", location=[900.0, 900.0]))
        done.append("unused elements")
    if rng.random() < 0.3:
        t = [p for p in d["process_data"] if p["type"] == "TransportProcesses"]
        if t and d["auxiliary_data"] and not any(p.get("auxiliaries") for p in d["product_data"]):
            d["process_data"].append(dict(t[0], ID="TP_unused"))
            d["auxiliary_data"][0]["transport_process"] = "TP_unused"
            done.append("unused auxiliary with an unoffered transport process")
    rw = [p for p in d["process_data"] if p["type"] == "ReworkProcesses"]
    if rw and rng.random() < 0.5:
        d["process_data"].append(dict(rw[0], ID="RW_unused"))
        done.append("one of two rework processes is not offered")
    if rng.random() < 0.3:
        d["process_data"].append(dict(ID="P_fails", description="", type="ProductionProcesses", time_model_id=d["time_model_data"][0]["ID"], failure_rate=0.5))
        m = rng.choice(MACH(d))
        m["process_ids"].append("P_fails")
        m["process_capacities"].append(m["capacity"])
        done.append("a failing process that no product needs")
    if rng.random() < 0.3:
        ren = {}
        for r in d["resource_data"]:
            ren[r["ID"]] = rng.choice(["Maschine %d Ä", "m_%d_x", "%d", "r é/%d"]) % len(ren)
        for r in d["resource_data"]:
            r["ID"] = ren[r["ID"]]
        for p in d["process_data"]:
            if p.get("links"):
                p["links"] = [[ren.get(x, x) for x in l] for l in p["links"]]
        done.append("names")
    return done


def build(d):
    return p20.build(d)


def accept(d, channel, tmp):
    """Goes all the way to the start of the simulation; returns the runner or raises."""
    if channel == "file":
        f = os.path.join(tmp, "c.json")
        with open(f, "w") as h:
            json.dump({k: v for k, v in d.items() if not k.startswith("_")}, h)
        a = JsonProductionSystemAdapter()
        a.read_data(f)
    else:
        a = build(d)
    a.validate_configuration()
    r = runner_module.Runner(adapter=a)
    r.initialize_simulation()
    return r


def evaluate(spec):
    out, c = [], collections.Counter()
    prof = dict(simcheck.PROFILES[spec["profile"]])
    prof.update(jobs=(6, 15))
    base = gen.generate(spec["seed"], prof)
    rng = random.Random(spec["seed"] + "/p21")
    with tempfile.TemporaryDirectory(prefix="p21_") as tmp:
        good = copy.deepcopy(base)
        done = consistent(good, rng) if spec.get("vary", True) else []
        for x in done:
            c["consistent: " + x] += 1
        try:
            r = accept(good, rng.choice(["file", "data"]), tmp)
            c["accepted"] += 1
        except Exception as e:
            out.append(("a consistent configuration is rejected", f"{done}: {type(e).__name__}: {str(e)[:300]}"))
            r = None
        if r is not None:
            try:
                r.run(good["_horizon"] * 0.5)
                a = r.adapter
                a.validate_configuration()
                c["simulated"] += 1
            except Exception as e:
                out.append(("simulation of an accepted configuration fails", f"{done}: {type(e).__name__}: {str(e)[:300]}"))
        names = sorted(MUTATIONS)
        rng.shuffle(names)
        tried = 0
        for n in names:
            d = copy.deepcopy(base)
            what = MUTATIONS[n](d, rng)
            if what is None:
                continue
            tried += 1
            channel = rng.choice(["file", "data"])
            try:
                accept(d, channel, tmp)
            except Exception as e:
                c["rejected: " + n] += 1
            else:
                out.append(("an inconsistent configuration is accepted: " + n, f"{what} ({channel})"))
            if tried >= spec.get("muts", 14):
                break
        c["inconsistent configurations"] += tried
    return core.Outcome(out, c, c["accepted"] > 0 and tried > 0, core.digest(json.dumps(base, sort_keys=True, default=str)),
                        dict(profile=spec["profile"], rejected=tried, consistent=done))


def definition():
    def cases(seed, tier):
        n = 1600 if tier == "quick" else 40000
        return [dict(profile=PROFILES[(i + i // 17) % len(PROFILES)], seed=f"P21/{seed}/{i}") for i in range(n)]
    return dict(cases=cases, evaluate=evaluate, required=["accepted", "simulated"] + ["rejected: " + m for m in MUTATIONS],
                rule="a random consistent configuration accepted and simulated, and about 14 variants of it, each inconsistent in one way, offered to the code until the simulation would start; distinct = different configuration",
                assumptions=["an error anywhere between building the configuration and the start of the simulation counts as a rejection",
                             "several sources (or several sinks) may share one spot, vehicles may start anywhere"])
