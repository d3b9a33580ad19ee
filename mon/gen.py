"""Random hostile configurations.

`generate(seed, profile)` returns a plain JSON-able dictionary in the shape of the
configuration data of prodsys.  Everything is drawn from `random.Random(seed)`, so a
configuration is identified by (profile name, seed).
"""
import copy
import random

DEFAULT = dict(
    products=(1, 3), procs=(2, 5), resources=(1, 4), transporters=(1, 2),
    plan_len=(1, 4),
    plans=dict(list=0.6, edges=0.2, adj=0.2),
    p_capability=0.15, p_compound=0.1, p_rework=0.2, p_breakdown=0.35,
    p_pbreakdown=0.2, p_tbreakdown=0.2, p_setup=0.25, p_charging=0.0, p_batch=0.0,
    line=False, p_finite=0.25, p_store=0.0, p_link=0.15, p_aux=0.0, p_loading=0.3,
    p_extra_source=0.2, p_extra_sink=0.2, p_share_source_queue=0.15, p_share_sink_queue=0.4,
    p_inout=0.5, p_two_tp=0.2, p_shared_inq=0.1, p_multi_q=0.0, p_instore=0.0,
    capacity=(1, 3), p_unequal_caps=0.3, p_parallel=0.6,
    policies=["FIFO", "LIFO", "SPT"], tpolicies=["FIFO", "SPT_transport"],
    routing=["FIFO", "random", "shortest_queue"],
    proc_time=dict(constant=0.35, sample=0.25, normal=0.15, lognormal=0.1, exponential=0.1, sequential=0.05),
    arrival=dict(constant=0.35, exponential=0.35, sample=0.15, scheduled=0.15),
    grid=None,           # 'int', 'real' or None (random)
    load=(0.4, 1.4),
    jobs=(15, 60),       # expected number of products until the horizon
    drain=False,         # arrivals stop (scheduled, acyclic) and the horizon allows to drain
    tmetric=dict(dist=0.6, manhattan=0.15, constant=0.15, sample=0.1),
    p_zero_time=0.0, p_aux_several=0.0, p_planned=0.0,
    t0=False,            # the first products at the very start, moved in no time, early breakdowns
    tr_capacity=(1, 1),
    batch_mixed=False,   # batch machines with several processes / product types / capacity > batch size
)

EXACT = ("constant", "sample", "sequential", "scheduled")


def _pick(rng, weights):
    ks = sorted(weights)
    return rng.choices(ks, [weights[k] for k in ks])[0]


class _Gen:
    def __init__(self, seed, profile):
        self.rng = random.Random(seed)
        self.p = copy.deepcopy(DEFAULT)
        self.p.update(profile)
        self.tm, self.states, self.procs, self.queues = [], [], [], []
        self.nodes, self.res, self.prods, self.sinks, self.sources, self.aux = [], [], [], [], [], []
        self.grid = self.p["grid"] or self.rng.choice(["int", "real"])
        self.used_loc = set()
        self.mean = {}  # time model ID -> mean

    # ------------------------------------------------------------------ helpers
    def ri(self, key):
        lo, hi = self.p[key]
        return self.rng.randint(lo, hi)

    def chance(self, key):
        return self.rng.random() < self.p[key]

    def num(self, lo, hi):
        if self.grid == "int":
            return float(self.rng.randint(max(1, round(lo)), max(1, round(hi))))
        return round(self.rng.uniform(lo, hi), 3)

    def loc(self):
        while True:
            if self.grid == "int":
                l = (float(self.rng.randint(0, 40)), float(self.rng.randint(0, 40)))
            else:
                l = (round(self.rng.uniform(0, 40), 2), round(self.rng.uniform(0, 40), 2))
            if l not in self.used_loc:
                self.used_loc.add(l)
                return list(l)

    def time_model(self, kind, lo, hi, ID=None):
        ID = ID or f"tm{len(self.tm)}"
        d = dict(ID=ID, description=kind)
        if kind == "constant":
            v = self.num(lo, hi)
            d.update(distribution_function="constant", location=v, scale=0.0)
            self.mean[ID] = v
        elif kind in ("normal", "lognormal"):
            v = self.num(lo, hi)
            d.update(distribution_function=kind, location=v, scale=round(v * self.rng.choice([0.1, 0.3, 0.6]), 3))
            self.mean[ID] = v
        elif kind == "exponential":
            v = self.num(lo, hi)
            d.update(distribution_function="exponential", location=v, scale=0.0)
            self.mean[ID] = v
        elif kind in ("sample", "sequential"):
            vals = [self.num(lo, hi) for _ in range(self.rng.randint(2, 4))]
            d["samples" if kind == "sample" else "sequence"] = vals
            self.mean[ID] = sum(vals) / len(vals)
        elif kind == "zero":
            d.update(distribution_function="constant", location=0.0, scale=0.0)
            self.mean[ID] = 0.0
        elif kind == "dist":
            d.update(speed=self.num(2, 30), reaction_time=self.rng.choice([0.0, 0.0, round(self.rng.uniform(0.05, 1.5), 2)]),
                     metric=self.rng.choice(["manhattan", "euclidian"]))
            self.mean[ID] = 25 / d["speed"]
        elif kind == "manhattan":
            d.update(speed=self.num(2, 30), reaction_time=round(self.rng.uniform(0.05, 1.0), 2))
            self.mean[ID] = 25 / d["speed"]
        else:
            raise ValueError(kind)
        self.tm.append(d)
        return ID

    def ptime(self):
        if self.chance("p_zero_time"):
            return self.time_model("zero", 0, 0)
        return self.time_model(_pick(self.rng, self.p["proc_time"]), 1, 12)

    # ------------------------------------------------------------------ build
    def build(self):
        rng, p = self.rng, self.p
        self.link_mode = self.chance("p_link")
        n_proc = self.ri("procs")
        # base production processes; some are capability processes
        base = []
        for i in range(n_proc):
            pid = f"P{i}"
            if self.chance("p_capability"):
                self.procs.append(dict(ID=pid, description="", type="CapabilityProcesses", time_model_id=self.ptime(),
                                       capability=["C", "C1"][i % 2], failure_rate=0.0))
            else:
                self.procs.append(dict(ID=pid, description="", type="ProductionProcesses", time_model_id=self.ptime(), failure_rate=0.0))
            base.append(pid)
        pdata = {q["ID"]: q for q in self.procs}
        # demands that products may state
        demands = list(base)
        for pid in list(base):
            q = pdata[pid]
            if q["type"] == "CapabilityProcesses":
                rid = f"RC_{q['capability']}"
                if rid not in [x["ID"] for x in self.procs]:
                    self.procs.append(dict(ID=rid, description="", type="RequiredCapabilityProcesses", capability=q["capability"]))
                    demands.append(rid)
        plain = [b for b in base if pdata[b]["type"] == "ProductionProcesses"]
        for k in range(2):
            if len(base) >= 2 and self.chance("p_compound"):
                pool = plain if len(plain) >= 2 and rng.random() < 0.6 else [x for x in demands if not x.startswith("CP")]
                members = rng.sample(pool, rng.randint(2, min(3, len(pool))))
                self.procs.append(dict(ID=f"CP{k}", description="", type="CompoundProcesses", process_ids=members))
                demands.append(f"CP{k}")
        # rework
        reworks = []
        if plain and self.chance("p_rework"):
            for i in range(rng.randint(1, 2)):
                failing = rng.sample(plain, rng.randint(1, min(2, len(plain))))
                reworks.append(dict(ID=f"RW{i}", description="", type="ReworkProcesses", time_model_id=self.ptime(),
                                    reworked_process_ids=failing, blocking=rng.random() < 0.5))
                for f in failing:
                    pdata[f]["failure_rate"] = rng.choice([0.2, 0.5, 1.0, 0.35])
            self.procs += reworks
        offered = base + [r["ID"] for r in reworks]

        # transport processes
        self.tps = []
        n_tp = 2 if self.chance("p_two_tp") else 1
        for i in range(n_tp):
            tid = f"TP{i}"
            kind = _pick(rng, {"dist": 0.8, "manhattan": 0.2}) if self.link_mode else _pick(rng, p["tmetric"])
            tm = self.time_model("zero" if p["t0"] and not self.link_mode and self.chance("t0") and rng.random() < 0.7 else kind, 0.5, 4)
            d = dict(ID=tid, description="", type="LinkTransportProcesses" if self.link_mode else "TransportProcesses",
                     time_model_id=tm)
            if self.chance("p_loading"):
                d["loading_time_model_id"] = self.time_model(rng.choice(["constant", "sample"]), 0.5, 2)
            if self.chance("p_loading"):
                d["unloading_time_model_id"] = self.time_model(rng.choice(["constant", "sample"]), 0.5, 2)
            if self.link_mode:
                d["links"] = []
                d["capability"] = rng.choice(["", "", f"TC{i}"])
            self.tps.append(d)
        self.procs += self.tps
        tdem = []
        for d in self.tps:
            opts = [d["ID"]]
            if d.get("capability"):
                rid = "RT_" + d["capability"]
                self.procs.append(dict(ID=rid, description="", type="RequiredCapabilityProcesses", capability=d["capability"]))
                # a link process that states a capability is only requested through it or by an equal capability
                opts = [rid]
            tdem.append(opts)

        # production resources: every offered process at least once
        n_res = self.ri("resources")
        offers = [[] for _ in range(n_res)]
        for pid in offered:
            offers[rng.randrange(n_res)].append(pid)
            if self.chance("p_parallel"):
                j = rng.randrange(n_res)
                if pid not in offers[j]:
                    offers[j].append(pid)
        offers = [o for o in offers if o] or [list(offered)]
        if p["line"]:  # a flow line: every process has its own stage
            offers = [[pid] for pid in base for _ in range(rng.choice([1, 1, 2]))]
        for i, off in enumerate(offers):
            self.production_resource(f"R{i}", off)
        # transport resources
        n_tr = self.ri("transporters")
        toffers = [[] for _ in range(n_tr)]
        for d in self.tps:
            toffers[rng.randrange(n_tr)].append(d["ID"])
        for o in toffers:
            for d in self.tps:
                if d["ID"] not in o and (not o or rng.random() < 0.5):
                    o.append(d["ID"])
        for i, off in enumerate(toffers):
            self.transport_resource(f"T{i}", off)

        # products
        tot = {}
        for i in range(self.ri("products")):
            self.product(f"Prod{i}", demands, rng.choice(rng.choice(tdem)))
        # sinks
        for pr in self.prods:
            for j in range(2 if self.chance("p_extra_sink") else 1):
                sid = f"SK_{pr['ID']}_{j}"
                if self.chance("p_share_sink_queue"):
                    qid = "SinkQ"
                    if qid not in [q["ID"] for q in self.queues]:
                        self.queues.append(dict(ID=qid, description="", capacity=0))
                else:
                    qid = self.queue(f"q_{sid}", 0)
                d = dict(ID=sid, description="", location=self.loc(), product_type=pr["ID"], input_queues=[qid])
                self.sinks.append(d)
        # auxiliaries
        if not self.link_mode and self.chance("p_aux"):
            self.auxiliary()
        # sources
        self.make_sources()
        if self.link_mode:
            self.make_links()
        data = dict(ID="cfg", seed=rng.randint(0, 10 ** 6), time_model_data=self.tm, state_data=self.states,
                    process_data=self.procs, queue_data=self.queues, node_data=self.nodes, resource_data=self.res,
                    product_data=self.prods, sink_data=self.sinks, source_data=self.sources, auxiliary_data=self.aux)
        data["_horizon"] = self.horizon
        return data

    def queue(self, qid, cap):
        self.queues.append(dict(ID=qid, description="", capacity=cap))
        return qid

    def production_resource(self, rid, off):
        rng = self.rng
        cap = self.ri("capacity")
        batch = self.chance("p_batch")
        if batch:
            cap = rng.randint(2, 4)
            off = off[:]
            if not self.p["batch_mixed"] and len(off) > 1:
                self.production_resource(rid + "x", off[1:])
                off = off[:1]
        d = dict(ID=rid, description="", capacity=cap, location=self.loc(), process_ids=off,
                 controller="BatchController" if batch else "PipelineController",
                 control_policy=rng.choice(self.p["policies"]))
        if batch:
            d["batch_size"] = rng.randint(2, cap) if self.p["batch_mixed"] else cap
        if self.chance("p_inout"):
            d["input_location"] = self.loc()
            d["output_location"] = self.loc()
        if not batch and cap > 1 and self.chance("p_unequal_caps"):
            caps = [rng.randint(1, cap) for _ in off]
            d["process_capacities"] = caps
        else:
            d["process_capacities"] = [cap] * len(off)
        fin = self.chance("p_finite")
        shareable = [r for r in self.res if r["controller"] == "PipelineController"]
        if shareable and not batch and self.chance("p_shared_inq"):
            o = rng.choice(shareable)
            d["input_queues"] = list(o["input_queues"])
        else:
            d["input_queues"] = [self.queue(f"iq_{rid}", rng.randint(1, 3) if fin and not batch else
                                            (rng.randint(d.get("batch_size", 1), 6) if fin else 0))]
        d["output_queues"] = [self.queue(f"oq_{rid}", rng.randint(1, 3) if fin and not batch else 0)]
        if not batch and not self.link_mode and self.chance("p_store"):
            sid = f"store_{rid}"
            s = dict(ID=sid, description="", capacity=rng.choice([0, 1, 2, 5] if not self.p["p_instore"] else [0, 0, 2, 5]), location=self.loc())
            if self.chance("p_inout"):
                s["input_location"] = self.loc()
                s["output_location"] = self.loc()
            self.queues.append(s)
            d["output_queues"].append(sid)
        if self.p["p_multi_q"] and not batch:
            if self.chance("p_multi_q"):
                others = [r["input_queues"][0] for r in self.res if r["controller"] == "PipelineController" and r["input_queues"][0] not in d["input_queues"]]
                d["input_queues"].append(rng.choice(others) if others and rng.random() < 0.6 else self.queue(f"iq2_{rid}", rng.randint(1, 3) if fin else 0))
            if self.chance("p_multi_q"):
                d["output_queues"].append(self.queue(f"oq2_{rid}", rng.randint(1, 3) if fin else 0))
        if self.p["p_instore"] and not batch and not self.link_mode and self.chance("p_instore"):
            stores = [q["ID"] for q in self.queues if "location" in q and not q["capacity"]]
            if stores:
                d["input_queues"].append(rng.choice(stores))
        sids = []
        if self.chance("p_breakdown"):
            for k in range(rng.choice([1, 1, 2])):
                sids.append(self.breakdown(f"BD_{rid}_{k}"))
        if self.chance("p_pbreakdown"):
            for k, pid in enumerate(rng.sample(off, min(len(off), rng.choice([1, 1, 2])))):
                sids.append(self.breakdown(f"PBD_{rid}_{k}", pid))
        if len(off) > 1 and self.chance("p_setup"):
            for a in off:
                for b in off:
                    if a != b:
                        sid = f"SU_{rid}_{a}_{b}"
                        self.states.append(dict(ID=sid, description="", type="SetupState", origin_setup=a, target_setup=b,
                                                time_model_id=self.time_model(_pick(rng, {"constant": .5, "sample": .3, "normal": .2}), 1, 6)))
                        sids.append(sid)
        d["state_ids"] = sids
        self.res.append(d)

    def planned_breakdown(self, sid, pid):
        """Failures and repairs that follow schedules."""
        rng = self.rng
        ids = []
        for lo, hi, repair in ((5, 50, False), (1, 12, True)):
            tid = f"tm{len(self.tm)}"
            vals = [max(0.5, self.num(lo, hi)) for _ in range(rng.randint(1, 4))]
            absolute = not repair and rng.random() < 0.5
            if absolute:
                vals = [round(sum(vals[:i + 1]), 3) for i in range(len(vals))]
            self.tm.append(dict(ID=tid, description="scheduled", schedule=vals, absolute=absolute, cyclic=repair or rng.random() < 0.5))
            self.mean[tid] = (lo + hi) / 2
            ids.append(tid)
        s = dict(ID=sid, description="", time_model_id=ids[0], repair_time_model_id=ids[1], type="ProcessBreakDownState" if pid else "BreakDownState")
        if pid:
            s["process_id"] = pid
        self.states.append(s)
        return sid

    def breakdown(self, sid, pid=None, mtbf=(12, 60), mttr=(2, 15)):
        rng = self.rng
        if self.p["t0"]:
            mtbf = (1, 12)
        w = {"constant": .35, "exponential": .35, "sample": .3}
        tm = self.time_model(_pick(rng, w), *mtbf)
        if self.p["p_planned"] and self.chance("p_planned"):
            return self.planned_breakdown(sid, pid)
        rp = self.time_model(_pick(rng, {"constant": .4, "exponential": .2, "sample": .3, "normal": .1}), *mttr)
        s = dict(ID=sid, description="", time_model_id=tm, repair_time_model_id=rp,
                 type="ProcessBreakDownState" if pid else "BreakDownState")
        if pid:
            s["process_id"] = pid
        self.states.append(s)
        return sid

    def transport_resource(self, rid, off):
        rng = self.rng
        cap = self.ri("tr_capacity")
        d = dict(ID=rid, description="", capacity=cap, location=self.loc(), process_ids=off, process_capacities=[cap] * len(off),
                 controller="TransportController", control_policy=rng.choice(self.p["tpolicies"]), state_ids=[])
        if self.chance("p_tbreakdown"):
            d["state_ids"].append(self.breakdown(f"BD_{rid}"))
        if self.chance("p_charging"):
            sid = f"CH_{rid}"
            self.states.append(dict(ID=sid, description="", type="ChargingState",
                                    time_model_id=self.time_model(rng.choice(["constant", "sample"]), 3, 15),
                                    battery_time_model_id=self.time_model("constant", 8, 40)))
            d["state_ids"].append(sid)
        self.res.append(d)

    def product(self, pid, demands, tdem):
        rng = self.rng
        n = self.ri("plan_len")
        kind = _pick(rng, self.p["plans"])
        if self.p["line"]:
            kind = "line"
        if kind not in ("list", "line") and (len(demands) < 2 or n < 2):
            kind = "list"
        if kind == "line":
            plan = sorted(rng.sample(demands, min(n, len(demands))))
        elif kind == "list":
            plan = [rng.choice(demands) for _ in range(n)]
        else:
            nodes = rng.sample(demands, min(n, len(demands)))
            edges = []
            for i in range(len(nodes)):
                for j in range(i + 1, len(nodes)):
                    if rng.random() < 0.4:
                        edges.append([nodes[i], nodes[j]])
            if kind == "edges":
                covered = {x for e in edges for x in e}
                for i, x in enumerate(nodes):
                    if x not in covered:
                        if i == 0:
                            edges.append([x, nodes[1]])
                            covered |= {x, nodes[1]}
                        else:
                            edges.append([nodes[0], x])
                            covered |= {nodes[0], x}
                rng.shuffle(edges)
                plan = edges
            else:
                order = nodes[:]
                rng.shuffle(order)
                plan = {x: [b for a, b in edges if a == x] for x in order}
                if rng.random() < 0.5:  # last steps may be named as successors only
                    targets = {b for a, b in edges}
                    plan = {x: v for x, v in plan.items() if v or x not in targets or rng.random() < 0.3}
        self.prods.append(dict(ID=pid, description="", product_type=pid, processes=plan, transport_process=tdem, auxiliaries=[]))

    def auxiliary(self):
        rng = self.rng
        for k in range(rng.choice([1, 1, 2]) if not self.p["p_aux_several"] else rng.choice([2, 3])):
            stores, qty = [], []
            for j in range(rng.choice([1, 1, 2])):
                sid = f"auxstore{k}_{j}"
                n = rng.randint(1, 4)
                s = dict(ID=sid, description="", capacity=rng.choice([0, n, n + 3]), location=self.loc())
                if self.chance("p_inout"):
                    s["input_location"] = self.loc()
                    s["output_location"] = self.loc()
                self.queues.append(s)
                stores.append(sid)
                qty.append(n)
            # one auxiliary type serves some of the products
            users = [pr for pr in self.prods if (not pr["auxiliaries"] or self.p["p_aux_several"]) and (rng.random() < 0.8 or len(self.prods) == 1)]
            tp = rng.choice([d["ID"] for d in self.tps])
            tdemands = sorted({pr["transport_process"] for pr in users})
            self.aux.append(dict(ID=f"Aux{k}", description="", auxiliary_type=f"Aux{k}", transport_process=tp, storages=stores,
                                 quantity_in_storages=qty, relevant_processes=[], relevant_transport_processes=tdemands))
            for pr in users:
                pr["auxiliaries"] = [f"Aux{k}"]
        for pr in self.prods if self.p["p_aux_several"] else []:
            more = [a["ID"] for a in self.aux if pr["transport_process"] in a["relevant_transport_processes"]]
            if self.chance("p_aux_several") and len(more) > 1:
                pr["auxiliaries"] = rng.sample(more, len(more))

    def work_per_product(self, pr):
        plan = pr["processes"]
        if isinstance(plan, dict):
            ops = sorted(set(plan) | {x for v in plan.values() for x in v})
        elif plan and isinstance(plan[0], list):
            ops = sorted({x for e in plan for x in e})
        else:
            ops = list(plan)
        pd = {q["ID"]: q for q in self.procs}
        w = 0
        for o in ops:
            q = pd[o]
            if q["type"] == "CompoundProcesses":
                q = pd[q["process_ids"][0]]
            if q["type"] == "RequiredCapabilityProcesses":
                w += [self.mean[x["time_model_id"]] for x in self.procs if x["type"] == "CapabilityProcesses" and x["capability"] == q["capability"]][0]
            else:
                w += self.mean[q["time_model_id"]]
        return w, len(ops)

    def make_sources(self):
        rng = self.rng
        cap = sum(r["capacity"] for r in self.res if r["controller"] != "TransportController")
        n_t = sum(1 for r in self.res if r["controller"] == "TransportController")
        ttime = max(self.mean[d["time_model_id"]] for d in self.tps) * (2 if not self.link_mode else 6)
        load = rng.uniform(*self.p["load"])
        base = 0
        n = 0
        for pr in self.prods:
            w, k = self.work_per_product(pr)
            base += max(w / cap, (k + 1 + 2 * len(pr["auxiliaries"])) * ttime / n_t)
            n += 1
        base = max(base, 0.5)
        srcs = []
        for pr in self.prods:
            for j in range(2 if self.chance("p_extra_source") else 1):
                srcs.append((pr, j))
        ia = base / load * len(srcs) / n
        jobs = self.ri("jobs")
        self.horizon = round(jobs * ia / len(srcs) + 30, 2)
        for pr, j in srcs:
            sid = f"S_{pr['ID']}_{j}"
            kind = "scheduled" if self.p["drain"] or self.p["t0"] else _pick(rng, self.p["arrival"])
            if kind == "scheduled":
                m = max(2, jobs // len(srcs)) if self.p["drain"] else rng.randint(4, 12)
                absolute = rng.random() < 0.5 or self.p["t0"]
                gaps = [max(0.1, self.num(0.2 * ia, 1.8 * ia)) for _ in range(m)]
                if rng.random() < 0.3:
                    gaps = [max(0.1, round(g * rng.choice([0.1, 1.9]), 3)) for g in gaps]
                tid = f"tm{len(self.tm)}"
                if absolute:
                    acc, sched = 0, []
                    for g in gaps:
                        acc = round(acc + g, 3)
                        sched.append(acc)
                    if self.p["t0"]:
                        sched = rng.choice([[0.0], [0.0, 0.0], [0.0, 0.0, 0.0]]) + sched
                else:
                    sched = gaps
                cyc = (not self.p["drain"]) and rng.random() < 0.5
                self.tm.append(dict(ID=tid, description="scheduled", schedule=sched, absolute=absolute, cyclic=cyc))
                self.mean[tid] = ia
            else:
                tid = self.time_model(kind, 0.6 * ia, 1.4 * ia)
            if self.chance("p_share_source_queue"):
                qid = "SourceQ"
                if qid not in [q["ID"] for q in self.queues]:
                    self.queue(qid, 0)
            else:
                qid = self.queue(f"q_{sid}", rng.choice([0, 1, 2]) if self.p["line"] else 0)
            more = [self.queue(f"q2_{sid}", 0)] if self.p["p_multi_q"] and self.chance("p_multi_q") else []
            d = dict(ID=sid, description="", location=self.loc(), product_type=pr["ID"], time_model_id=tid,
                     routing_heuristic=rng.choice(self.p["routing"]), output_queues=[qid] + more)
            self.sources.append(d)

    def make_links(self):
        rng = self.rng
        places = [r["ID"] for r in self.res if r["controller"] != "TransportController"] + \
                 [s["ID"] for s in self.sources] + [s["ID"] for s in self.sinks]
        for d in self.tps:
            nn = rng.randint(1, 4)
            nodes = []
            for i in range(nn):
                nid = f"N_{d['ID']}_{i}"
                self.nodes.append(dict(ID=nid, description="", location=self.loc()))
                nodes.append(nid)
            ids = nodes + places
            rng.shuffle(ids)
            links = []
            for i in range(1, len(ids)):
                a, b = ids[i], ids[rng.randrange(i)]
                links.append([a, b] if rng.random() < 0.5 else [b, a])
            for _ in range(rng.randint(0, len(ids))):
                a, b = rng.sample(ids, 2)
                if [a, b] not in links and [b, a] not in links:
                    links.append([a, b])
            rng.shuffle(links)
            d["links"] = links


PRODUCT_NAMES = ["Gear_A", "Gear_B", "Gear", "Gear_A_1", "Gear_10", "Wheel", "Wheel 2", "Getriebe-Ä", "1", "10", "_x", "rod_"]
PLACE_NAMES = ["M", "M_1", "M_10", "M 1", "m", "Mill/2", "Press-Ä", "R_0_R", "None", "2", "20", "nan_"]


def rename(data, seed):
    """The same configuration under names that contain each other, separators, digits or other letters."""
    rng = random.Random(f"{seed}/names")
    new = {}
    pools = dict(product_data=PRODUCT_NAMES, resource_data=PLACE_NAMES)
    digits = rng.random() < 0.25
    for key, pool in pools.items():
        names = [str(i + 1 if key == "product_data" else 100 + i) for i in range(len(data[key]))] if digits else rng.sample(pool, len(pool))
        for d, x in zip(data[key], names):
            if digits or rng.random() < 0.8:
                new[d["ID"]] = x
    for key, fmt in (("process_data", ["P_{}", "p {}", "{}_P_1", "P_1{}"]), ("queue_data", ["q_{}_q", "Q {}"]), ("state_data", ["{}_1", "s {}"]),
                     ("time_model_data", ["t_{}", "{} t"]), ("source_data", ["in_{}", "in {}"]), ("sink_data", ["out_{}", "out {}"]), ("node_data", ["n_{}", "n {}"])):
        f = rng.choice(fmt)
        if rng.random() < 0.6:
            for i, d in enumerate(data.get(key) or []):
                if d["ID"] not in new:
                    new[d["ID"]] = f.format(i)

    def walk(x):
        if isinstance(x, dict):
            return {new.get(k, k) if k in new else k: (y if k in ("description", "type", "controller") else walk(y)) for k, y in x.items()}
        if isinstance(x, (list, tuple)):
            return [walk(y) for y in x]
        return new.get(x, x) if isinstance(x, str) else x
    return walk(data)


def generate(seed, profile=None):
    data = _Gen(seed, profile or {}).build()
    return rename(data, seed) if (profile or {}).get("names") else data
