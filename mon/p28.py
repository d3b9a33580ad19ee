"""P28: the data service against a sequential key-value model, at its HTTP boundary."""
import asyncio
import collections
import contextlib
import copy
import io
import json
import math
import os
import random
import re
import tempfile

import httpx
from fastapi.testclient import TestClient

import prodsys
import prodsys_api
from mon import core, gen, simcheck
from prodsys.util import kpi_visualization as vis
from prodsys.util import runner as runner_module

client = TestClient(prodsys_api.app, raise_server_exceptions=False)
MIX = ["base", "fail", "setup", "multi", "link", "rework", "aux", "store", "batch", "charge"]
# path -> attribute of the configuration
KINDS = dict(resources="resource_data", processes="process_data", queues="queue_data", sinks="sink_data", sources="source_data", states="state_data",
             time_models="time_model_data", products="product_data")
PLOTS = dict(throughput_time_over_time=vis.plot_throughput_time_over_time, oee=vis.plot_oee, time_per_state_of_resources=vis.plot_time_per_state_of_resources)
_configs = {}


def config(i, seed):
    """A consistent configuration as the service shows it, and a horizon."""
    k = (i, seed)
    if k not in _configs:
        if len(_configs) > 40:
            _configs.clear()
        d = gen.generate(f"P28c/{seed}/{i}", simcheck.PROFILES[MIX[i % len(MIX)]])
        h = d["_horizon"] / 5
        a = prodsys.adapters.JsonProductionSystemAdapter(**{x: y for x, y in d.items() if not x.startswith("_")})
        _configs[k] = (json.loads(a.model_dump_json()), h)
    return copy.deepcopy(_configs[k])


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [x for x in b if x not in a]:
            if k not in a or k not in b:
                return f"{path}/{k}: " + ("missing" if k not in b else "unexpected")
            if not same(a[k], b[k]):
                return diff(a[k], b[k], f"{path}/{k}")
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: {len(a)} entries expected, {len(b)} got"
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return diff(x, y, f"{path}/{i}")
    return f"{path}: expected {str(a)[:150]}, got {str(b)[:150]}"


def keyed(xs):
    return {x["ID"]: x for x in xs}


def results(cfg, seed, horizon):
    """What a simulation of this configuration gives."""
    a = prodsys.adapters.JsonProductionSystemAdapter(**copy.deepcopy(cfg))
    if seed is not None:
        a.seed = seed
    r = runner_module.Runner(adapter=a)
    r.initialize_simulation()
    r.run(horizon)
    return json.loads(r.get_performance_data().model_dump_json()), r.get_post_processor()


def figure(html):
    """The drawn data without the random identifiers."""
    t = html[html.rfind("Plotly.newPlot("):]
    return re.sub(r"[0-9a-f]{8}-[0-9a-f-]{20,}", "", t)


class World:
    def __init__(self, spec, out, c):
        self.rng = random.Random(spec["seed"])
        self.spec, self.out, self.c = spec, out, c
        self.tag = core.digest(spec["seed"])[:10]
        self.P = {}  # project -> dict(adapters={aid: config}, perf={aid: results}, post={aid: post processor})
        self.history = []

    def pid(self):
        return f"{self.tag}-" + self.rng.choice(["a", "b", "A b"])

    def aid(self):
        return self.rng.choice(["x", "y", "x1", "ä z"])

    def bad(self, kind, msg):
        self.out.append((kind, f"{msg}; after {self.history[-8:]}"[:1500]))

    def call(self, method, path, expect, body=None, what=None):
        """expect: 'ok', 'unknown', 'refused' (any client error) or 'invalid'. Returns the reply of an ok call, else None."""
        what = what or method + " " + re.sub(r"/" + re.escape(self.tag) + r"-[^/]+", "/P", path).split("?")[0]
        self.history.append(f"{method} {path.replace(self.tag, '')} [{expect}]"[:90])
        err = io.StringIO()
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
            r = client.request(method, path, json=body) if body is not None else client.request(method, path)
        self.c["calls"] += 1
        self.c["calls expected " + expect] += 1
        kind = re.sub(r"/[^/]*$", "", path)
        if expect == "ok" and r.status_code != 200:
            self.bad("a proper call fails", f"{method} {path}: {r.status_code} {r.text[:300]}")
            return None
        if expect == "unknown" and r.status_code != 404:
            self.bad("an unknown item is not answered with not-found", f"{method} {path}: {r.status_code} {r.text[:200]}")
        if expect == "refused" and not 400 <= r.status_code < 500:
            self.bad("a colliding call is not refused", f"{method} {path}: {r.status_code} {r.text[:200]}")
        if expect == "invalid" and not 400 <= r.status_code < 500:
            self.bad("an invalid item is not refused", f"{method} {path}: {r.status_code} {r.text[:200]}")
        return r if expect == "ok" else None

    def expect(self, what, want, r):
        if r is None:
            return
        got = r.json()
        self.c["replies compared"] += 1
        if not same(want, got):
            self.bad(f"{what} returns something else", diff(want, got))

    # operations
    def projects(self):
        p, op = self.pid(), self.rng.choice(["create", "create", "get", "list", "put", "delete", "put other"])
        known = p in self.P
        if op in ("create", "put"):
            body = dict(ID=p, adapters=[])
            for a in self.rng.sample(["x", "y", "x1"], self.rng.randint(0, 2)):
                body["adapters"].append(dict(config(self.rng.randrange(20), "shared")[0], ID=a))
        if op == "create":
            r = self.call("POST", "/projects/", "refused" if known else "ok", body)
            if not known:
                self.P[p] = dict(adapters=keyed(body["adapters"]), perf={}, post={})
                self.expect("creating a project", dict(body, performances={}), r)
        elif op == "put":
            r = self.call("PUT", f"/projects/{p}", "ok" if known else "unknown", body)
            if known:
                self.P[p] = dict(adapters=keyed(body["adapters"]), perf={}, post={})
                self.expect("updating a project", dict(body, performances={}), r)
        elif op == "put other":
            q = self.pid()
            if known and q != p and q in self.P:
                self.call("PUT", f"/projects/{p}", "refused", dict(ID=q, adapters=[]))
        elif op == "get":
            r = self.call("GET", f"/projects/{p}", "ok" if known else "unknown")
            if known:
                self.check_project(p, r)
        elif op == "list":
            r = self.call("GET", "/projects/", "ok")
            if r is not None:
                got = [x["ID"] for x in r.json() if x["ID"].startswith(self.tag)]
                if sorted(got) != sorted(self.P):
                    self.bad("listing projects returns something else", f"expected {sorted(self.P)}, got {sorted(got)}")
        else:
            self.call("DELETE", f"/projects/{p}", "ok" if known else "unknown")
            self.P.pop(p, None)

    def check_project(self, p, r):
        if r is None:
            return
        got = r.json()
        want = list(self.P[p]["adapters"].values())
        self.c["projects compared"] += 1
        if sorted(x["ID"] for x in got["adapters"]) != sorted(x["ID"] for x in want):
            self.bad("a project has other configurations", f"expected {sorted(x['ID'] for x in want)}, got {sorted(x['ID'] for x in got['adapters'])}")
            return
        g = keyed(got["adapters"])
        for x in want:
            self.c["configurations compared"] += 1
            if not same(canonical(x), canonical(g[x["ID"]])):
                self.bad("a stored configuration differs", f"{x['ID']}: " + diff(canonical(x), canonical(g[x["ID"]])))
        perf = got["performances"] or {}
        if sorted(perf) != sorted(self.P[p]["perf"]):
            self.bad("a project has results of other configurations", f"expected {sorted(self.P[p]['perf'])}, got {sorted(perf)}")
            return
        for a in perf:
            self.c["stored results compared"] += 1
            if not same(self.P[p]["perf"][a], perf[a]):
                self.bad("stored results differ", f"{a}: " + diff(self.P[p]["perf"][a], perf[a]))

    def adapters(self):
        p, a = self.pid(), self.aid()
        op = self.rng.choice(["create", "create", "get", "list", "put", "put other", "delete"])
        base = f"/projects/{p}/adapters"
        known = p in self.P and a in self.P[p]["adapters"]
        if op in ("create", "put"):
            body = dict(config(self.rng.randrange(20), "shared")[0], ID=a)
        if op == "create":
            r = self.call("POST", base + "/", "unknown" if p not in self.P else "refused" if known else "ok", body)
            if p in self.P and not known:
                self.P[p]["adapters"][a] = body
                self.expect("creating a configuration", body, r)
        elif op == "put":
            r = self.call("PUT", f"{base}/{a}", "ok" if known else "unknown", body)
            if known:
                self.P[p]["adapters"][a] = body
                self.expect("updating a configuration", body, r)
        elif op == "put other":
            b = self.aid()
            if known and b != a and b in self.P[p]["adapters"]:
                self.call("PUT", f"{base}/{a}", "refused", dict(config(self.rng.randrange(20), "shared")[0], ID=b))
        elif op == "get":
            r = self.call("GET", f"{base}/{a}", "ok" if known else "unknown")
            if known and r is not None:
                self.expect("reading a configuration", canonical(self.P[p]["adapters"][a]), Canon(r))
        elif op == "list":
            r = self.call("GET", base + "/", "ok" if p in self.P else "unknown")
            if p in self.P and r is not None:
                got = sorted(x["ID"] for x in r.json())
                if got != sorted(self.P[p]["adapters"]):
                    self.bad("listing configurations returns something else", f"expected {sorted(self.P[p]['adapters'])}, got {got}")
        else:
            self.call("DELETE", f"{base}/{a}", "ok" if known else "unknown")
            if known:
                for x in ("adapters", "perf", "post"):
                    self.P[p][x].pop(a, None)

    def some(self, chance=0.9):
        """Mostly an existing configuration."""
        have = [(p, a) for p in self.P for a in self.P[p]["adapters"]]
        if have and self.rng.random() < chance:
            p, a = self.rng.choice(have)
            return p, a, True
        p, a = self.pid(), self.aid()
        return p, a, p in self.P and a in self.P[p]["adapters"]

    def named(self, kind, body, i):
        body["ID"] = i
        if kind == "products":  # the type of a product is its ID
            body["product_type"] = i
        return body

    def elements(self):
        p, a, known = self.some()
        kind = self.rng.choice(list(KINDS))
        attr = KINDS[kind]
        base = f"/projects/{p}/adapters/{a}/{kind}"
        mine = self.P[p]["adapters"][a][attr] if known else []
        donors = [x for i in range(3) for x in config(self.rng.randrange(20), "shared")[0][attr]]
        ids = [x["ID"] for x in mine]
        op = self.rng.choice(["list", "get", "post", "post", "put", "put", "rename", "delete", "invalid"])
        i = self.rng.choice(ids) if ids and self.rng.random() < 0.6 else self.rng.choice(["new", "P0", "n 1"])
        at = ids.index(i) if i in ids else None
        self.c["element calls " + kind] += 1
        if op == "list":
            r = self.call("GET", base + "/", "ok" if known else "unknown")
            if known and r is not None:
                self.c["element lists compared"] += 1
                if not same(keyed(mine), keyed(r.json())) or len(mine) != len(r.json()):
                    self.bad("listing elements returns something else", f"{kind}: " + diff(keyed(mine), keyed(r.json())))
        elif op == "get":
            r = self.call("GET", f"{base}/{i}", "ok" if at is not None else "unknown")
            if at is not None:
                self.expect(f"reading from {kind}", mine[at], r)
        elif op == "delete":
            self.call("DELETE", f"{base}/{i}", "ok" if at is not None else "unknown")
            if at is not None:
                del mine[at]
        elif op == "invalid":
            body = self.rng.choice([{}, dict(ID=i), dict(ID=None, description=3)])
            self.call(*(("POST", base + "/") if self.rng.random() < 0.5 else ("PUT", f"{base}/{i}")), "invalid", body)
        elif donors:
            body = self.named(kind, dict(self.rng.choice(donors)), i)
            if op == "post":
                r = self.call("POST", base + "/", "unknown" if not known else "refused" if at is not None else "ok", body)
                if known and at is None:
                    mine.append(body)
                    self.expect(f"creating in {kind}", body, r)
            elif op == "put":
                r = self.call("PUT", f"{base}/{i}", "ok" if at is not None else "unknown", body)
                if at is not None:
                    mine[at] = body
                    self.expect(f"updating in {kind}", body, r)
            else:
                other = [x for x in ids if x != i]
                if at is not None and self.rng.random() < 0.5:
                    j = self.rng.choice(["renamed", "re named", i + "_1"])
                    if j not in ids:
                        self.named(kind, body, j)
                        r = self.call("PUT", f"{base}/{i}", "ok", body)
                        mine[at] = body
                        self.c["elements renamed"] += 1
                        self.expect(f"renaming in {kind}", body, r)
                elif at is not None and other:
                    self.named(kind, body, self.rng.choice(other))
                    self.call("PUT", f"{base}/{i}", "refused", body)
        if kind == "resources" and known and self.rng.random() < 0.15:
            for k, want in (("production_resources", [x for x in mine if x["controller"] != "TransportController"]), ("transport_resources", [x for x in mine if x["controller"] == "TransportController"])):
                r = self.call("GET", f"{base}/{k}", "ok")
                if r is not None and not same(keyed(want), keyed(r.json())):
                    self.bad("listing resources of a type returns something else", f"{k}: " + diff(keyed(want), keyed(r.json())))

    def make_scenario(self):
        s = dict(constraints=dict(max_reconfiguration_cost=self.rng.randint(1, 10**5), max_num_machines=self.rng.randint(1, 9), max_num_processes_per_machine=self.rng.randint(1, 5),
                                  max_num_transport_resources=self.rng.randint(1, 4), target_product_count={}),
                 options=dict(transformations=self.rng.sample(["production_capacity", "transport_capacity", "layout", "sequencing_logic", "routing_logic"], 2), machine_controllers=["FIFO", "SPT"],
                              transport_controllers=["FIFO"], routing_heuristics=["random"], positions=[[1.0 * self.rng.randint(0, 9), 2.0]]),
                 info=dict(machine_cost=self.rng.randint(1, 99), transport_resource_cost=self.rng.randint(1, 99), process_module_cost=self.rng.randint(1, 99), breakdown_cost=None,
                           time_range=self.rng.randint(20, 80), maximum_breakdown_time=None),
                 objectives=[dict(name="throughput", weight=1.0 * self.rng.randint(1, 5))])
        return json.loads(prodsys.models.scenario_data.ScenarioData(**s).model_dump_json())

    def scenario(self):
        p, a, known = self.some()
        base = f"/projects/{p}/adapters/{a}/scenario"
        cfg = self.P[p]["adapters"][a] if known else None
        has = known and cfg.get("scenario_data") is not None
        op = self.rng.choice(["put", "get", "part", "part", "read part", "add", "add", "change", "remove", "objectives"])
        new = self.make_scenario()
        names = [o["name"] for o in cfg["scenario_data"]["objectives"]] if has else []
        n = self.rng.choice(["throughput", "WIP", "cost", "throughput_time"])
        obj = dict(name=n, weight=1.0 * self.rng.randint(1, 9))
        self.c["scenario calls"] += 1
        if op == "put":
            r = self.call("PUT", base + "/", "ok" if known else "unknown", new)
            if known:
                cfg["scenario_data"] = new
                self.expect("updating a scenario", new, r)
        elif op == "get":
            r = self.call("GET", base + "/", "ok" if has else "unknown")
            if has:
                self.expect("reading a scenario", cfg["scenario_data"], r)
        elif op in ("part", "read part", "objectives"):
            k = "objectives" if op == "objectives" else self.rng.choice(["constraints", "info", "options"])
            if op == "read part":
                r = self.call("GET", f"{base}/{k}", "ok" if has else "unknown")
                if has:
                    self.expect("reading a part of a scenario", cfg["scenario_data"][k], r)
            else:
                r = self.call("PUT", f"{base}/{k}", "ok" if has else "unknown", new[k])
                if has:
                    cfg["scenario_data"][k] = new[k]
                    self.expect("updating a part of a scenario", cfg["scenario_data"], r)
        elif op == "add":
            r = self.call("POST", f"{base}/objectives/objective", "unknown" if not has else "refused" if n in names else "ok", obj)
            if has and n not in names:
                cfg["scenario_data"]["objectives"].append(obj)
                self.expect("adding an objective", cfg["scenario_data"], r)
        elif op == "change":
            r = self.call("PUT", f"{base}/objectives/objective", "ok" if has and n in names else "unknown", obj)
            if has and n in names:
                cfg["scenario_data"]["objectives"][names.index(n)] = obj
                self.expect("updating an objective", cfg["scenario_data"], r)
        else:
            r = self.call("DELETE", f"{base}/objectives/objective/{n}", "ok" if has and n in names else "unknown")
            if has and n in names:
                del cfg["scenario_data"]["objectives"][names.index(n)]
                self.expect("deleting an objective", cfg["scenario_data"], r)

    def simulate(self):
        p, a, known = self.some(0.95)
        base = f"/projects/{p}/adapters/{a}"
        seed = self.rng.randrange(10**4)
        h = self.rng.randint(20, 200)
        if not known:
            self.call("GET", f"{base}/simulate/?run_length={h}&seed={seed}", "unknown")
            return
        cfg = self.P[p]["adapters"][a]
        want = None
        try:
            err = io.StringIO()
            with contextlib.redirect_stderr(err):
                want, post = results(cfg, seed, h)
        except Exception:
            self.c["configurations that cannot be simulated"] += 1
            return
        if self.call("GET", f"{base}/simulate/?run_length={h}&seed={seed}", "ok") is not None:
            self.P[p]["perf"][a], self.P[p]["post"][a] = want, post
            self.c["simulations"] += 1
            self.read_results(p, a)
            r = self.call("GET", f"{base}/simulate/progress", "ok")
            if r is not None and abs(r.json()["ratio_done"] - 1) > 1e-6:
                self.bad("progress of a finished simulation is not complete", str(r.json()))

    def read_results(self, p=None, a=None):
        if p is None:
            p, a, _ = self.some(0.8)
        base = f"/projects/{p}/adapters/{a}"
        want = self.P.get(p, {}).get("perf", {}).get(a)
        r = self.call("GET", f"{base}/performance/kpis", "ok" if want else "unknown")
        if want:
            self.expect("reading the figures", want["kpis"], r)
            k = self.rng.choice(["throughput", "WIP", "output", "throughput_time", "productive_time", "cost"])
            sel = [x for x in want["kpis"] if x["name"] == k]
            r = self.call("GET", f"{base}/performance/kpis/{k}", "ok" if sel else "unknown")
            if sel:
                self.expect("reading a figure", sel, r)
            n = len(want["event_log"])
            o, m = self.rng.randint(0, n), self.rng.randint(0, n + 3)
            r = self.call("GET", f"{base}/performance/events?num_events={m}&offset={o}", "ok" if o + m <= n else "refused")
            if o + m <= n:
                self.c["event reads"] += 1
                self.expect("reading events", want["event_log"][o:o + m], r)
        post = self.P.get(p, {}).get("post", {}).get(a)
        if post is None:
            self.call("GET", f"{base}/plots/{self.rng.choice(list(PLOTS))}", "unknown")
        elif self.rng.random() < 0.5 and any(x["activity"] == "finished product" for x in want["event_log"]):
            k = self.rng.choice(list(PLOTS))
            try:
                html = PLOTS[k](post, return_html=True)
            except Exception:
                return
            r = self.call("GET", f"{base}/plots/{k}", "ok")
            if r is not None:
                self.c["plots compared"] += 1
                if figure(r.text) != figure(html):
                    self.bad("a plot shows something else", f"{k} of {a}")

    def register(self):
        """A solution of an optimisation becomes a configuration of its own."""
        p, a, known = self.some(1)
        if not known or self.P[p]["adapters"][a].get("scenario_data") is None:
            return
        base = f"/projects/{p}/adapters/{a}/optimize"
        folder = f"data/{p}/{a}"
        os.makedirs(folder, exist_ok=True)
        names = ["s1", "s10", "s", "1"]
        sols = {}
        for s in self.rng.sample(names, 3):
            cfg, _ = config(self.rng.randrange(20), "shared")
            sols[s] = cfg
        for f in os.listdir(folder):
            os.remove(f"{folder}/{f}")
        for s, cfg in sols.items():
            with open(f"{folder}/generation_{self.rng.randint(0, 11)}_{s}.json", "w") as f:
                json.dump({k: v for k, v in cfg.items()}, f)
        s = self.rng.choice(names)
        r = self.call("GET", f"{base}/{s}", "ok" if s in sols else "unknown")
        if s in sols and r is not None:
            self.c["solutions read"] += 1
            g, w = r.json(), sols[s]
            if not all(same(keyed(g[x]), keyed(w[x])) for x in KINDS.values()):
                self.bad("another solution is returned", f"{s} of {sorted(sols)}")
        scenario = copy.deepcopy(self.P[p]["adapters"][a]["scenario_data"])
        want = None
        if s in sols and s not in self.P[p]["adapters"]:
            cfg = dict(copy.deepcopy(sols[s]), ID=s, scenario_data=scenario)
            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    want, post = results(cfg, None, scenario["info"]["time_range"])
            except Exception:
                return
        if s not in sols:
            self.call("GET", f"{base}/register/{s}", "unknown")
        elif want is None:
            self.call("GET", f"{base}/register/{s}", "refused")
        else:
            if self.call("GET", f"{base}/register/{s}", "ok") is not None:
                self.c["solutions registered"] += 1
                self.P[p]["adapters"][s] = cfg
                self.P[p]["perf"][s], self.P[p]["post"][s] = want, post
                self.verify(p)

    def verify(self, p=None):
        for q in ([p] if p else sorted(self.P)):
            self.check_project(q, self.call("GET", f"/projects/{q}", "ok"))

    def clean(self):
        for p in list(self.P):
            client.request("DELETE", f"/projects/{p}")


class Canon:
    def __init__(self, r):
        self.r = r

    def json(self):
        return canonical(self.r.json())


def canonical(cfg):
    """Elements by ID: their order is of no importance."""
    out = dict(cfg)
    for k, v in cfg.items():
        if isinstance(v, list) and v and all(isinstance(x, dict) and "ID" in x for x in v):
            out[k] = keyed(v) if len(keyed(v)) == len(v) else v
        elif v == [] :
            out[k] = {}
    return out


def history(spec, out, c):
    w = World(spec, out, c)
    try:
        w.call("POST", "/projects/", "ok", dict(ID=f"{w.tag}-a"))
        w.P[f"{w.tag}-a"] = dict(adapters={}, perf={}, post={})
        for a in ("x", "y"):
            body = dict(config(w.rng.randrange(20), "shared")[0], ID=a)
            w.call("POST", f"/projects/{w.tag}-a/adapters/", "ok", body)
            w.P[f"{w.tag}-a"]["adapters"][a] = body
        ops = [w.projects, w.adapters, w.elements, w.scenario, w.simulate, w.read_results, w.register]
        for k in range(spec["length"]):
            w.rng.choices(ops, [2, 3, 8, 4, 1.5, 2, 1.2])[0]()
            if k % 7 == 6 or out:
                w.verify()
            if out:
                break
        w.verify()
    finally:
        w.clean()
    return w


def concurrent(spec, out, c):
    """Simulations of several configurations requested at the same time, with reads and edits of others in between."""
    w = World(spec, out, c)
    p = f"{w.tag}-a"
    jobs, want = [], {}
    try:
        cfgs = {}
        for i in range(4):
            cfg, _ = config(w.rng.randrange(20), "shared")
            a = f"c{i}"
            cfg["ID"] = a
            h, seed = w.rng.randint(100, 400), w.rng.randrange(1000)
            try:
                want[a] = results(cfg, seed, h)[0]
            except Exception:
                continue
            cfgs[a] = cfg
            jobs.append((a, h, seed))
        w.call("POST", "/projects/", "ok", dict(ID=p, adapters=list(cfgs.values())))
        w.P[p] = dict(adapters=cfgs, perf={}, post={})

        async def go():
            transport = httpx.ASGITransport(app=prodsys_api.app, raise_app_exceptions=False)
            async with httpx.AsyncClient(transport=transport, base_url="http://service") as ac:
                async def sim(a, h, seed):
                    r = await ac.get(f"/projects/{p}/adapters/{a}/simulate/?run_length={h}&seed={seed}")
                    c["simultaneous simulations"] += 1
                    return r.status_code

                async def read():
                    bad = []
                    for k in range(12):
                        a = w.rng.choice(sorted(cfgs))
                        r = await ac.get(f"/projects/{p}/adapters/{a}")
                        c["reads during simulations"] += 1
                        if r.status_code != 200 or not same(canonical(cfgs[a]), canonical(r.json())):
                            bad.append((a, r.status_code, diff(canonical(cfgs[a]), canonical(r.json())) if r.status_code == 200 else ""))
                        await asyncio.sleep(0.002 * w.rng.randint(0, 10))
                    return bad
                return await asyncio.gather(*[sim(*j) for j in jobs], read())
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            rs = asyncio.run(go())
        if any(x != 200 for x in rs[:-1]):
            w.bad("a simultaneous simulation is refused", str(rs[:-1]))
        if rs[-1]:
            w.bad("a configuration read during a simulation differs", str(rs[-1][:2]))
        w.P[p]["perf"] = want
        w.verify()
    finally:
        w.clean()


def evaluate(spec):
    out, c = [], collections.Counter(runs=1)
    here = os.getcwd()
    prodsys.simulation.sim.VERBOSE = 1  # as the service runs: the progress comes from the progress bar
    with tempfile.TemporaryDirectory(prefix="p28_") as tmp:
        os.chdir(tmp)
        try:
            if spec["kind"] == "history":
                w = history(spec, out, c)
                sig = core.digest(w.history)
            else:
                concurrent(spec, out, c)
                sig = spec["seed"]
        finally:
            os.chdir(here)
            prodsys.simulation.sim.VERBOSE = 0
    return core.Outcome(out, c, c["calls"] > 5 or c["simultaneous simulations"] > 0, sig, dict(spec=spec, observed=dict(c)))


def definition():
    def cases(seed, tier):
        n, m, k = (90, 30, 60) if tier == "quick" else (3000, 400, 120)
        return [dict(kind="history", length=k, seed=f"P28/{seed}/{i}") for i in range(n)] + [dict(kind="concurrent", seed=f"P28c/{seed}/{i}") for i in range(m)]
    return dict(cases=cases, evaluate=evaluate,
                required=["calls expected ok", "calls expected unknown", "calls expected refused", "calls expected invalid", "projects compared", "configurations compared", "stored results compared",
                          "simulations", "plots compared", "event reads", "solutions read", "solutions registered", "simultaneous simulations", "scenario calls", "elements renamed"] + ["element calls " + k for k in KINDS],
                rule="one random history of calls over few colliding IDs, or one bundle of simultaneous requests; distinct = another sequence of calls",
                assumptions=["the in-memory backend is the only one implemented", "an element's update addresses it by the ID of the path and may give it another, unused ID"])
