"""P22: hashes identify configurations by function, not by naming."""
import collections
import copy
import json
import os
import random
import subprocess
import sys
import tempfile

from mon import core, gen, p20, simcheck
from prodsys.adapters.json_adapter import JsonProductionSystemAdapter

PROFILES = ["base", "busy", "tight", "fail", "setup", "link", "rework", "multi", "store", "aux", "zero", "batch", "charge", "vehicles", "queues", "auxstore", "nearest", "names"]
LISTS = p20.LISTS
FLOAT = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool)


def build(d):
    return p20.build(d)


# ---------------------------------------------------------------- changes that keep the function
def rename_auxiliaries(d, rng):
    return rename(d, rng, ["auxiliary_data"])


def rename(d, rng, lists=tuple(k for k in LISTS if k != "auxiliary_data")):
    style = rng.randrange(4)
    names = {}
    for k in lists:
        for i, x in enumerate(d[k]):
            names[x["ID"]] = {0: f"{k}{i}", 1: f"ä {i} {k[:2]}", 2: f"{rng.randrange(10 ** 9)}_{k[0]}{i}", 3: f"{x['ID']}x"}[style]
    if len(set(names.values())) < len(names):
        return d

    def walk(v, key):
        if isinstance(v, str):
            return names.get(v, v) if key not in ("description", "type", "controller", "control_policy", "capability", "routing_heuristic", "metric", "distribution_function") else v
        if isinstance(v, list):
            return [walk(y, key) for y in v]
        if isinstance(v, dict):
            return {(names.get(a, a) if key in ("processes", "links") else a): walk(b, a) for a, b in v.items()}
        return v
    return {k: (walk(v, k) if k in LISTS else v) for k, v in d.items()}


def shuffle(d, rng):
    for k in LISTS:
        if k != "process_data":
            rng.shuffle(d[k])
    return d


def shuffle_processes(d, rng):
    rng.shuffle(d["process_data"])
    return d


def describe(d, rng):
    for k in LISTS:
        for x in d[k]:
            x["description"] = rng.choice(p20.WORDS)
    return d


def identity(d, rng):
    d["seed"] = rng.randrange(10 ** 6)
    d["ID"] = rng.choice(p20.WORDS)
    return d


def minor(d, rng):
    for r in d["resource_data"]:
        rng.shuffle(r["state_ids"])
    for s in d["process_data"]:
        if s.get("links"):
            rng.shuffle(s["links"])
    return d


KEEP = {"other IDs": rename, "other names of auxiliaries": rename_auxiliaries, "other order of the elements": shuffle, "other order of the processes": shuffle_processes, "other descriptions": describe, "other seed and name": identity,
        "other order of states and links": minor}

# ---------------------------------------------------------------- changes of the function
CHANGE = {}


def change(name):
    def deco(f):
        CHANGE[name] = f
        return f
    return deco


def other(rng, v):
    if isinstance(v, int):
        return v + rng.choice([1, 2, 5])
    return v + rng.choice([1.0, 0.5, 2.0 ** -20, 100.0])


def used(d):
    """IDs of the time models, states, processes and queues that matter (all elements count as configured, these are certainly used)."""
    u = set()
    for k in LISTS:
        for x in d[k]:
            for f, v in x.items():
                if f in ("ID", "description", "product_type", "auxiliary_type"):
                    continue
                u |= set(_strings(v))
    return u


def _strings(v):
    if isinstance(v, str):
        yield v
    elif isinstance(v, dict):
        for a, b in v.items():
            yield a
            yield from _strings(b)
    elif isinstance(v, list):
        for x in v:
            yield from _strings(x)


def number(name, key, fields, where=lambda x: True):
    def f(d, rng):
        u = used(d)
        c = [(x, g) for x in d[key] for g in fields if where(x) and x.get(g) is not None and (key != "time_model_data" or x["ID"] in u)]
        if not c:
            return None
        x, g = rng.choice(c)
        old = copy.deepcopy(x[g])
        if isinstance(x[g], list):
            x[g] = list(x[g])
            i = rng.randrange(len(x[g]))
            x[g][i] = other(rng, x[g][i])
        else:
            x[g] = other(rng, x[g])
        return f"{x['ID']}.{g}: {old} -> {x[g]}"
    CHANGE[name] = f


def choice(name, key, field, values, where=lambda x: True):
    def f(d, rng):
        c = [x for x in d[key] if where(x) and x.get(field) in values]
        if not c:
            return None
        x = rng.choice(c)
        old = x[field]
        x[field] = rng.choice([v for v in values if v != old])
        return f"{x['ID']}.{field}: {old} -> {x[field]}"
    CHANGE[name] = f


FN = lambda x: "distribution_function" in x
number("time: mean", "time_model_data", ["location"], FN)
number("time: spread", "time_model_data", ["scale"], lambda x: FN(x) and x["distribution_function"] in ("normal", "lognormal"))
number("time: sample", "time_model_data", ["samples"])
number("time: sequence", "time_model_data", ["sequence"])
number("time: schedule", "time_model_data", ["schedule"])
number("time: speed", "time_model_data", ["speed"])
number("time: reaction time", "time_model_data", ["reaction_time"])
choice("time: metric", "time_model_data", "metric", ["manhattan", "euclidian"])
choice("time: distribution", "time_model_data", "distribution_function", ["normal", "lognormal", "exponential", "constant"])
choice("time: absolute schedule", "time_model_data", "absolute", [True, False])
choice("time: cyclic schedule", "time_model_data", "cyclic", [True, False])
number("process: failure rate", "process_data", ["failure_rate"], lambda x: x.get("failure_rate") is not None)
choice("process: blocking rework", "process_data", "blocking", [True, False])
number("place of a machine", "resource_data", ["location"], lambda x: "input_queues" in x)
number("start of a vehicle", "resource_data", ["location"], lambda x: "input_queues" not in x)
number("input place of a machine", "resource_data", ["input_location"])
number("output place of a machine", "resource_data", ["output_location"])
number("place of a source", "source_data", ["location"])
number("place of a sink", "sink_data", ["location"])
number("place of a node", "node_data", ["location"])
number("place of a store", "queue_data", ["location", "input_location", "output_location"])
number("capacity of a queue", "queue_data", ["capacity"], lambda x: "_SK_" not in x["ID"] and not x["ID"].startswith(("q_SK", "SinkQ")))
number("auxiliaries in a store", "auxiliary_data", ["quantity_in_storages"])
choice("control policy of a machine", "resource_data", "control_policy", ["FIFO", "LIFO", "SPT"], lambda x: "input_queues" in x)
choice("control policy of a vehicle", "resource_data", "control_policy",
       ["FIFO", "SPT_transport", "Nearest_origin_and_longest_target_queues_transport", "Nearest_origin_and_shortest_target_input_queues_transport"],
       lambda x: "input_queues" not in x)
choice("routing", "source_data", "routing_heuristic", ["FIFO", "random", "shortest_queue"])


@change("capacity of a resource")
def _(d, rng):
    r = rng.choice(d["resource_data"])
    r["capacity"] += 1
    return r["ID"]


@change("capacity of a process at a resource")
def _(d, rng):
    c = [(r, i) for r in d["resource_data"] for i, x in enumerate(r["process_capacities"]) if x > 1]
    if not c:
        return None
    r, i = rng.choice(c)
    r["process_capacities"] = list(r["process_capacities"])
    r["process_capacities"][i] -= 1
    return r["ID"]


@change("capacities of two processes swapped")
def _(d, rng):
    P = {p["ID"]: json.dumps(p.get("time_model_id")) + p["type"] for p in d["process_data"]}
    tm = {t["ID"]: json.dumps({k: v for k, v in t.items() if k not in ("ID", "description")}, sort_keys=True) for t in d["time_model_data"]}
    c = []
    for r in d["resource_data"]:
        for i in range(len(r["process_ids"])):
            for j in range(i):
                a, b = ([p for p in d["process_data"] if p["ID"] == r["process_ids"][k]][0] for k in (i, j))
                if r["process_capacities"][i] != r["process_capacities"][j] and tm.get(a.get("time_model_id")) != tm.get(b.get("time_model_id")):
                    c.append((r, i, j))
    if not c:
        return None
    r, i, j = rng.choice(c)
    x = list(r["process_capacities"])
    x[i], x[j] = x[j], x[i]
    r["process_capacities"] = x
    return r["ID"]


@change("batch size")
def _(d, rng):
    c = [r for r in d["resource_data"] if r.get("batch_size")]
    if not c:
        return None
    r = rng.choice(c)
    old = r["batch_size"]
    r["batch_size"] = old - 1 if old > 1 else old + 1
    if r["batch_size"] > r["capacity"]:
        return None
    return r["ID"]


def retarget(name, key, field, pool, where=lambda x: True):
    """The reference `field` points to another element with another function."""
    def f(d, rng):
        c = []
        for x in d[key]:
            if not where(x) or not x.get(field):
                continue
            for y in d[pool]:
                c.append((x, y))
        rng.shuffle(c)
        for x, y in c:
            if isinstance(x[field], list):
                if y["ID"] in x[field]:
                    continue
                i = rng.randrange(len(x[field]))
                z = [w for w in d[pool] if w["ID"] == x[field][i]]
                if not z or not differ(d, y, z[0]):
                    continue
                old = x[field]
                x[field] = [y["ID"] if k == i else v for k, v in enumerate(x[field])]
            else:
                z = [w for w in d[pool] if w["ID"] == x[field]]
                if not z or not differ(d, y, z[0]):
                    continue
                old = x[field]
                x[field] = y["ID"]
            return f"{x['ID']}.{field}: {old} -> {x[field]}"
        return None
    CHANGE[name] = f


def norm(d, x):
    """The function of a simple element as a text (without what recorded findings say is not hashed; changes of these fields are made directly)."""
    x = {k: v for k, v in x.items() if k not in ("ID", "description", "blocking", "reworked_process_ids", "origin_setup", "target_setup")}
    for k, v in x.items():
        if k.endswith("time_model_id") and v:
            x[k] = norm(d, [t for t in d["time_model_data"] if t["ID"] == v][0])
        elif k == "process_id":
            x[k] = norm(d, [p for p in d["process_data"] if p["ID"] == v][0])
        elif k == "process_ids":
            x[k] = sorted(norm(d, [p for p in d["process_data"] if p["ID"] == y][0]) for y in v)
    return json.dumps(x, sort_keys=True)


def differ(d, x, y):
    return norm(d, x) != norm(d, y) and x.get("type") == y.get("type")


retarget("time model of a process", "process_data", "time_model_id", "time_model_data")
retarget("loading time", "process_data", "loading_time_model_id", "time_model_data")
retarget("unloading time", "process_data", "unloading_time_model_id", "time_model_data")
retarget("time between failures", "state_data", "time_model_id", "time_model_data", lambda x: x["type"] in ("BreakDownState", "ProcessBreakDownState"))
retarget("setup time", "state_data", "time_model_id", "time_model_data", lambda x: x["type"] == "SetupState")
retarget("charging time", "state_data", "time_model_id", "time_model_data", lambda x: x["type"] == "ChargingState")
retarget("repair time", "state_data", "repair_time_model_id", "time_model_data")
retarget("battery time", "state_data", "battery_time_model_id", "time_model_data")
retarget("arrival", "source_data", "time_model_id", "time_model_data")
retarget("process of a process breakdown", "state_data", "process_id", "process_data")
retarget("origin of a setup", "state_data", "origin_setup", "process_data")
retarget("target of a setup", "state_data", "target_setup", "process_data")
retarget("reworked process", "process_data", "reworked_process_ids", "process_data")
retarget("member of a compound process", "process_data", "process_ids", "process_data")
retarget("process of a resource", "resource_data", "process_ids", "process_data")
retarget("step of a plan", "product_data", "processes", "process_data", lambda x: isinstance(x["processes"], list) and isinstance(x["processes"][0], str))
retarget("state of a resource", "resource_data", "state_ids", "state_data")


@change("order of a plan")
def _(d, rng):
    P = {p["ID"]: p for p in d["process_data"]}
    c = []
    for p in d["product_data"]:
        if isinstance(p["processes"], list) and isinstance(p["processes"][0], str):
            for i in range(len(p["processes"]) - 1):
                a, b = P[p["processes"][i]], P[p["processes"][i + 1]]
                if differ(d, a, b) or a["type"] != b["type"]:
                    c.append((p, i))
    if not c:
        return None
    p, i = rng.choice(c)
    x = list(p["processes"])
    x[i], x[i + 1] = x[i + 1], x[i]
    p["processes"] = x
    return p["ID"]


@change("one step more")
def _(d, rng):
    c = [p for p in d["product_data"] if isinstance(p["processes"], list) and isinstance(p["processes"][0], str)]
    if not c:
        return None
    p = rng.choice(c)
    p["processes"] = p["processes"] + [rng.choice(p["processes"])]
    return p["ID"]


def removal(name, key, field):
    def f(d, rng):
        c = [x for x in d[key] if x.get(field)]
        if not c:
            return None
        x = rng.choice(c)
        if isinstance(x[field], list):
            x[field] = list(x[field])
            x[field].pop(rng.randrange(len(x[field])))
        else:
            x[field] = None
        return x["ID"]
    CHANGE[name] = f


removal("state taken from a resource", "resource_data", "state_ids")
removal("link removed", "process_data", "links")
removal("no loading time", "process_data", "loading_time_model_id")
removal("no unloading time", "process_data", "unloading_time_model_id")
removal("auxiliary no longer needed", "product_data", "auxiliaries")


@change("loading time becomes unloading time")
def _(d, rng):
    c = [p for p in d["process_data"] if bool(p.get("loading_time_model_id")) != bool(p.get("unloading_time_model_id"))]
    if not c:
        return None
    p = rng.choice(c)
    a, b = p.get("loading_time_model_id"), p.get("unloading_time_model_id")
    p["loading_time_model_id"], p["unloading_time_model_id"] = b, a
    return p["ID"]


@change("input and output queues swapped")
def _(d, rng):
    cap = {q["ID"]: q["capacity"] for q in d["queue_data"]}
    c = [r for r in d["resource_data"] if r.get("input_queues") and sorted(cap[q] for q in r["input_queues"]) != sorted(cap[q] for q in r["output_queues"])]
    if not c:
        return None
    r = rng.choice(c)
    r["input_queues"], r["output_queues"] = r["output_queues"], r["input_queues"]
    return r["ID"]


@change("other end of a link")
def _(d, rng):
    loc = {x["ID"]: x["location"] for k in ("resource_data", "node_data", "source_data", "sink_data") for x in d[k]}
    c = [(p, l) for p in d["process_data"] for l in p.get("links") or []]
    if not c:
        return None
    p, l = rng.choice(c)
    o = [x for x in loc if x not in l and [l[0], x] not in p["links"] and [x, l[0]] not in p["links"]]
    if not o:
        return None
    l[1] = rng.choice(o)
    return p["ID"]


@change("element added")
def _(d, rng):
    k = rng.choice(["resource_data", "source_data", "sink_data"])
    x = copy.deepcopy(rng.choice(d[k]))
    x["ID"] = "one_more"
    d[k].append(x)
    return k


@change("element removed")
def _(d, rng):
    k = rng.choice([k for k in ("resource_data", "source_data", "sink_data") if len(d[k]) > 1] or ["none"])
    if k == "none":
        return None
    d[k].pop(rng.randrange(len(d[k])))
    return k


@change("capability")
def _(d, rng):
    c = [p for p in d["process_data"] if p.get("capability")]
    if not c:
        return None
    p = rng.choice(c)
    p["capability"] += "'"
    return p["ID"]


@change("digits moved between two numbers")
def _(d, rng):
    """1.0 and 10.15 become 1.01 and 0.15: other numbers with the same sequence of digits."""
    c = [t for t in d["time_model_data"] if "speed" in t]
    if not c:
        return None
    t = rng.choice(c)
    t["speed"], t["reaction_time"] = 1.0, 10.15
    base = dict(speed=1.01, reaction_time=0.15)
    return ("pair", t["ID"], base)


# ---------------------------------------------------------------- judgement
def graphs(d):
    return any(isinstance(p["processes"], dict) or isinstance(p["processes"][0], list) for p in d["product_data"])


# kind of change -> mechanism of a known finding (the hashes asserted by the test suite forbid the repair)
MECH = {"digits moved between two numbers": "digits", "input and output queues swapped": "in-out-queues", "target of a setup": "setup-processes",
        "origin of a setup": "setup-processes", "process: blocking rework": "rework", "reworked process": "rework",
        "auxiliary no longer needed": "product-auxiliaries", "batch size": "batch-size"}


def evaluate(spec):
    if spec["kind"] == "process":
        return ev_process(spec)
    out, c = [], collections.Counter()
    prof = dict(simcheck.PROFILES[spec["profile"]])
    prof.update(plans=dict(list=1.0), jobs=(6, 15))
    base = gen.generate(spec["seed"], prof)
    rng = random.Random(spec["seed"] + "/p22")
    if rng.random() < 0.5:
        prof["p_loading"] = 1.0
    a = build(base)
    h = a.hash()
    c["configurations"] += 1
    if a.hash() != h or build(base).hash() != h:
        out.append(("the same configuration has two hashes", ""))
    before = a.model_dump_json()
    a.hash()
    if a.model_dump_json() != before:
        out.append(("computing a hash changes the configuration", ""))
    with tempfile.TemporaryDirectory(prefix="p22_") as tmp:
        f = os.path.join(tmp, "a.json")
        a.write_data(f)
        b = JsonProductionSystemAdapter()
        b.read_data(f)
        if b.hash() != h:
            out.append(("a configuration read back has another hash", ""))
        c["hashed after reading back"] += 1
    for n, f in KEEP.items():
        d = f(copy.deepcopy(base), rng)
        c["kept: " + n] += 1
        if build(d).hash() != h:
            out.append(("the hash depends on naming: " + n, where(base, d), kept_mech(n, base)))
    names = sorted(CHANGE)
    rng.shuffle(names)
    done = 0
    for n in names:
        d = copy.deepcopy(base)
        what = CHANGE[n](d, rng)
        if what is None:
            continue
        if isinstance(what, tuple):
            h0 = build(d).hash()
            [t for t in d["time_model_data"] if t["ID"] == what[1]][0].update(what[2])
        else:
            h0 = h
        done += 1
        c["changed: " + n] += 1
        try:
            h1 = build(d).hash()
        except Exception as e:
            out.append(("hashing fails", f"{n} {what}: {type(e).__name__}: {e}"))
            continue
        if h1 == h0:
            out.append(("the hash misses a change: " + n, what, MECH.get(n)))
        if done >= spec.get("changes", 30):
            break
    return core.Outcome(out, c, done > 0, core.digest(h), dict(profile=spec["profile"], hash=h, changes=done))


def kept_mech(n, d):
    if n == "other order of the processes" and any(s["type"] == "SetupState" for s in d["state_data"]):
        return "setup-processes"
    if n == "other names of auxiliaries" and d["auxiliary_data"]:
        return "auxiliary-names"
    return None


def where(a, b):
    """Which parts of the configuration hash differently."""
    A, B = build(a), build(b)
    r = []
    for k in LISTS:
        ha = sorted(x.hash(A) if k not in ("time_model_data", "queue_data", "node_data") else x.hash() for x in getattr(A, k))
        hb = sorted(x.hash(B) if k not in ("time_model_data", "queue_data", "node_data") else x.hash() for x in getattr(B, k))
        if ha != hb:
            r.append(k)
    return "parts that differ: " + ", ".join(r)


def ev_process(spec):
    """The same hashes in a process with another hash seed."""
    out, c = [], collections.Counter()
    ds = []
    for i in range(6):
        prof = dict(simcheck.PROFILES[PROFILES[(spec["i"] + 5 * i) % len(PROFILES)]])
        prof.update(plans=dict(list=1.0))
        ds.append({k: v for k, v in gen.generate(f"{spec['seed']}/{i}", prof).items() if not k.startswith("_")})
    mine = [build(d).hash() for d in ds]
    code = "import sys, json, logging\nlogging.disable(50)\nfrom mon import p20\nprint(json.dumps([p20.build(d).hash() for d in json.load(sys.stdin)]))"
    env = dict(os.environ, PYTHONHASHSEED=str(spec["hash"]))
    env["PYTHONPATH"] = os.pathsep.join(p for p in sys.path if p)
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", code], input=json.dumps(ds), capture_output=True, text=True, env=env, timeout=120)
    if r.returncode:
        return core.Outcome([("hashing in another process fails", r.stderr[-600:])], c)
    theirs = json.loads(r.stdout.strip().splitlines()[-1])
    c["hashed in another process"] += len(ds)
    for i, (x, y) in enumerate(zip(mine, theirs)):
        if x != y:
            out.append(("another process computes another hash", f"{PROFILES[(spec['i'] + 5 * i) % len(PROFILES)]}"))
    return core.Outcome(out, c, True, core.digest(mine), dict(hashes=mine[:2]))


def definition():
    def cases(seed, tier):
        n = 900 if tier == "quick" else 20000
        out = [dict(kind="hash", profile=PROFILES[(i + i // 17) % len(PROFILES)], seed=f"P22/{seed}/{i}") for i in range(n)]
        out += [dict(kind="process", i=i, seed=f"P22p/{seed}/{i}", hash=[1, 77, 4242][i % 3]) for i in range(n // 14)]
        return out
    return dict(cases=cases, evaluate=evaluate,
                required=["configurations", "hashed after reading back", "hashed in another process"] + ["kept: " + n for n in KEEP] + ["changed: " + n for n in CHANGE],
                rule="a random configuration, five changes of its naming that must keep the hash and about 30 single changes of its function that must change it; distinct = different hash",
                assumptions=["process plans are lists (hashing graph plans is refused by the code)",
                             "single changes of values and references; no search for two structurally different configurations with one hash"])
