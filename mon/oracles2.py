"""Oracles P10 to P16, P25, P26 over recorded traces."""
import collections
import heapq
import itertools
import math

from mon.oracles import (EPS, close, views, is_transport_res, spec_values, admissible, transport_ok, down_intervals,
                         is_rework, match_multiset)


# ------------------------------------------------------------------------------- P10
def place_data(tr, pid):
    for d in (tr.R, tr.SRC, tr.SNK, tr.N):
        if pid in d:
            return d[pid]
    if pid in tr.Q and "location" in tr.Q[pid]:
        return tr.Q[pid]
    return None


def coords(tr, pid, side=None):
    d = place_data(tr, pid)
    if d is None:
        return None
    if side and pid not in tr.SRC and pid not in tr.SNK and pid not in tr.N and not is_transport_res(tr, pid):
        return d.get(side + "_location") or d["location"]
    return d["location"]


def travel_times(tr, tm_id, a, b):
    d = tr.TM[tm_id]
    if "speed" in d:
        dx, dy = a[0] - b[0], a[1] - b[1]
        dist = math.hypot(dx, dy) if d.get("metric", "manhattan") in ("euclidian", "euclidean") else abs(dx) + abs(dy)
        return [dist / d["speed"] + d["reaction_time"]]
    return spec_values(tr, tm_id)


def journeys(tr, v, rid):
    """Transport jobs of a vehicle (capacity one) grouped into journeys."""
    js = [j for j in sorted(v.by_res[rid], key=lambda j: j.first.i) if j.stype == "Transport"]
    out = []
    for j in js:
        if out:
            p = out[-1][-1]
            if (p.prod, p.empty, p.state) == (j.prod, j.empty, j.state) and tr.P[j.state]["type"] == "LinkTransportProcesses":
                between = any(x.stype == "Production" and p.last.i < x.first.i < j.first.i for x in v.by_prod.get(j.prod, []))
                fetched = not j.empty and any(x is not p and x.stype == "Transport" and p.last.i < x.first.i < j.first.i
                                              for x in v.by_prod.get(j.prod, []))
                if not between and not fetched:
                    out[-1].append(j)
                    continue
        out.append([j])
    return out


def _dijkstra(adj, s, t):
    best = {s: 0.0}
    h = [(0.0, s)]
    while h:
        d, x = heapq.heappop(h)
        if x == t:
            return d
        if d > best.get(x, math.inf):
            continue
        for y, w in adj.get(x, ()):
            if d + w < best.get(y, math.inf):
                best[y] = d + w
                heapq.heappush(h, (d + w, y))
    return math.inf


def _link_costs(tr, links, orig, targ, empty):
    """Length of each link for a journey: the ends of the journey count with their input or output position."""
    def loc(x):
        if x == orig:
            return coords(tr, x, "input" if empty else "output")
        if x == targ:
            return coords(tr, x, "output" if empty else "input")
        return coords(tr, x)
    return {(a, b): math.dist(loc(a), loc(b)) for a, b in links}


def _minimal(tr, proc, path, empty):
    links = tr.P[proc]["links"]
    if isinstance(links, dict):
        links = [[a, b] for a, bs in links.items() for b in bs]
    cost = _link_costs(tr, links, path[0], path[-1], empty)
    adj = collections.defaultdict(list)
    w = {}
    for (a, b), c in cost.items():
        adj[a].append((b, c))
        adj[b].append((a, c))
        for k in ((a, b), (b, a)):
            w[k] = min(w.get(k, math.inf), c)
    mine = 0.0
    for a, b in zip(path, path[1:]):
        mine += w.get((a, b), math.inf)
    return mine, _dijkstra(adj, path[0], path[-1])


def p10(tr):
    v = views(tr)
    out, c = [], collections.Counter()
    for rid in tr.R:
        if not is_transport_res(tr, rid) or tr.R[rid]["capacity"] > 1:
            continue
        pos = tr.R[rid]["location"]
        js = journeys(tr, v, rid)
        for k, J in enumerate(js):
            closed = J[-1].end is not None and (k + 1 < len(js) or J[-1].end < tr.horizon - EPS)
            proc = tr.P[J[0].state]
            if J[0].empty is False and proc["type"] != "LinkTransportProcesses":
                need = coords(tr, J[0].orig, "output")
                if need is not None:
                    c["loaded departures"] += 1
                    if not all(close(x, y, 1e-9) for x, y in zip(need, pos)):
                        # a vehicle that has delivered to the place stands at its input position
                        known = k > 0 and js[k - 1][-1].empty is False and js[k - 1][-1].targ == J[0].orig and all(close(x, y, 1e-9) for x, y in zip(coords(tr, J[0].orig, "input"), pos))
                        out.append(("drives loaded away from another position than the pickup position", f"{J[0]} leaves {J[0].orig} (output {need}) from {pos}",
                                    "input-to-output" if known else None))
            for i, j in enumerate(J):
                is_last = i == len(J) - 1
                # an unfinished journey: the last step seen may be an inner one
                options = [is_last] if (closed or not is_last) else [True, False]
                if proc["type"] != "LinkTransportProcesses":
                    options = [True]
                poss = []
                for lastq in options:
                    if lastq:
                        tgt = coords(tr, j.targ, "output" if j.empty else "input")
                    else:
                        tgt = coords(tr, j.targ)
                    if tgt is None:
                        continue
                    base = travel_times(tr, proc["time_model_id"], pos, tgt)
                    if base is None:
                        continue
                    lo = hi = [0.0]
                    if j.empty is False and i == 0 and proc.get("loading_time_model_id"):
                        lo = spec_values(tr, proc["loading_time_model_id"])
                    if j.empty is False and lastq and proc.get("unloading_time_model_id"):
                        hi = spec_values(tr, proc["unloading_time_model_id"])
                    if lo is None or hi is None:
                        continue
                    poss += [a + b + d for a in base for b in lo for d in hi]
                    if len(options) == 1 or lastq:
                        newpos = tgt
                if not poss:
                    newpos = coords(tr, j.targ, ("output" if j.empty else "input") if is_last else None) or pos
                else:
                    w = None
                    if j.end is not None:
                        w = j.worked()
                        c["loaded steps" if j.empty is False else "empty steps"] += 1
                        if j.ints:
                            c["interrupted steps"] += 1
                    elif j.open_seg is not None and j.exp[-1] is not None:
                        w = j.worked() + j.exp[-1] - j.open_seg
                        c["open steps"] += 1
                    if w is not None and not any(close(w, x, 1e-5) for x in poss):
                        out.append(("transport time does not fit the layout", f"{j} takes {w}, expected one of {poss[:6]} from {pos} ({proc['ID']}, step {i + 1}/{len(J)})"))
                pos = newpos
            if proc["type"] == "LinkTransportProcesses":
                path = [J[0].orig] + [j.targ for j in J]
                links = proc["links"] if not isinstance(proc["links"], dict) else [[a, b] for a, bs in proc["links"].items() for b in bs]
                pairs = {tuple(l) for l in links} | {tuple(l[::-1]) for l in links}
                for a, b in zip(path, path[1:]):
                    if a in ("Loading station", None):
                        continue
                    c["link steps"] += 1
                    if (a, b) not in pairs:
                        out.append(("uses a link that does not exist", f"{a}->{b} in {path} by {rid}/{proc['ID']}"))
                if path[0] not in ("Loading station", None) and closed:
                    mine, best = _minimal(tr, proc["ID"], path, J[0].empty)
                    c["paths"] += 1
                    if len(path) > 2:
                        c["paths over several links"] += 1
                    if mine > best + 1e-6:
                        out.append(("path is not minimal", f"{path} has length {mine}, minimal {best} ({rid}/{proc['ID']}, empty={J[0].empty})"))
    return out, c


# ------------------------------------------------------------------------------- P11
class AuxMonitor:
    """Live: number, whereabouts and owners of auxiliaries."""

    def start(self, tr, runner):
        self.aux = list(runner.auxiliary_factory.auxiliaries)
        self.ids = [a.data.ID for a in self.aux]
        self.queues = list(runner.queue_factory.queues)
        self.stores = {q.data.ID: q for q in self.queues if q.data.ID in tr.Q and "location" in tr.Q[q.data.ID]}
        want = collections.Counter()
        for d in tr.AUX.values():
            want[d["auxiliary_type"]] += sum(d["quantity_in_storages"])
        got = collections.Counter(a.data.auxiliary_type for a in self.aux)
        if want != got:
            tr.violations.append(("P11", "wrong number of auxiliaries", f"configured {dict(want)}, created {dict(got)}"))
        if len(set(self.ids)) != len(self.ids):
            tr.violations.append(("P11", "auxiliaries share an identity", str(self.ids)))
        self.owner = {i: None for i in self.ids}
        tr.aux_use = []          # (aux, product, time)
        tr.aux_checks = 0
        tr.aux_at_rest = 0
        self.types = {a.data.ID: a.data.auxiliary_type for a in self.aux}
        tr.aux_types = self.types
        self.n = 0

    def step(self, tr, runner, env):
        own = {}
        for a in self.aux:
            p = a.current_product
            o = None if p is None else p.product_data.ID
            i = a.data.ID
            if o != self.owner[i]:
                if o is not None and self.owner[i] is not None:
                    tr.violations.append(("P11", "auxiliary changes its product without release", f"t={env.now} {i}: {self.owner[i]} -> {o}"))
                if o is not None:
                    tr.aux_use.append((i, o, env.now))
                self.owner[i] = o
            if o is not None:
                if (o, self.types[i]) in own:
                    tr.violations.append(("P11", "product holds two auxiliaries", f"t={env.now} {o}: {own[o, self.types[i]]} and {i}"))
                own[o, self.types[i]] = i
        self.n += 1
        if self.n % 3 or env.peek() <= env.now:
            return
        tr.aux_checks += 1
        if len(runner.auxiliary_factory.auxiliaries) != len(self.ids):
            tr.violations.append(("P11", "number of auxiliaries changes", f"t={env.now} {len(runner.auxiliary_factory.auxiliaries)} instead of {len(self.ids)}"))
        where = collections.defaultdict(list)
        for q in self.queues:
            for it in q.items:
                if it.ID in self.owner:
                    where[it.ID].append(q.data.ID)
        for i in self.ids:
            if len(where[i]) > 1:
                tr.violations.append(("P11", "auxiliary in several places", f"t={env.now} {i} in {where[i]}"))
            if self.owner[i] is None:
                tr.aux_at_rest += 1
                if len(where[i]) != 1 or where[i][0] not in self.stores:
                    tr.violations.append(("P11", "free auxiliary is not in a store", f"t={env.now} {i} in {where[i]}"))

    def finish(self, tr, runner):
        pass


def p11(tr):
    v = views(tr)
    out = [(k, m) for p, k, m in tr.violations if p == "P11"]
    c = collections.Counter()
    use = getattr(tr, "aux_use", None)
    if use is None:
        return out, c
    c["live"] = tr.aux_checks
    c["at rest"] = tr.aux_at_rest
    c["assignments"] = len(use)
    slots = collections.Counter((o, tr.aux_types.get(i)) for i, o, _ in use)
    if len(slots) != len(use):
        out.append(("auxiliary assigned twice to a product", str([x for x in slots.items() if x[1] > 1][:4])))
    by_aux, of_prod = collections.defaultdict(list), {}
    for i, o, t in use:
        by_aux[i].append((o, t))
        of_prod[o] = (i, t)
        need = tr.PR.get(tr.ptype(o), {}).get("auxiliaries") or []
        if tr.aux_types.get(i) not in need:
            out.append(("auxiliary of a wrong type", f"{i} for {o} needing {need}"))
    usage = collections.defaultdict(list)
    for r in tr.rows:
        if r.act in ("started auxiliary usage", "finished auxiliary usage"):
            usage[r.prod].append(r)
    started = collections.Counter()
    for i, rs in usage.items():
        for k, r in enumerate(rs):
            want = "started auxiliary usage" if k % 2 == 0 else "finished auxiliary usage"
            if r.act != want:
                out.append(("usage entries do not alternate", f"{i}: {[(x.t, x.act) for x in rs[:k + 1]][-3:]}"))
                break
    for i in set(list(by_aux) + list(usage)):
        n = sum(1 for r in usage.get(i, []) if r.act == "started auxiliary usage")
        if n != len(by_aux.get(i, [])):
            out.append(("usage entries differ from assignments", f"{i}: {n} entries, {len(by_aux.get(i, []))} assignments"))
    # per auxiliary: fetch - use - return
    for i, seq in by_aux.items():
        loaded = [j for j in sorted(v.by_prod.get(i, []), key=lambda j: j.first.i) if j.stype == "Transport" and j.empty is False]
        ends = [r for r in usage.get(i, []) if r.act == "finished auxiliary usage"]
        home = None
        k = 0
        for n, (o, t) in enumerate(seq):
            src = v.created[o].res if o in v.created else None
            mine = [j for j in sorted(v.by_prod.get(o, []), key=lambda j: j.first.i) if j.stype == "Production" or j.empty is False]
            fetch = loaded[k] if k < len(loaded) else None
            if fetch is not None:
                k += 1
                c["fetched"] += 1
                if fetch.orig not in tr.AUX[_auxid(tr, i)]["storages"]:
                    out.append(("auxiliary is not fetched from its store", f"{fetch}"))
                if fetch.targ != src:
                    out.append(("auxiliary brought to a wrong place", f"{fetch} for {o} released at {src}"))
                if fetch.start < t - EPS:
                    out.append(("auxiliary moved before its assignment", f"{fetch} assigned {t}"))
            if mine:
                c["guarded products"] += 1
                if fetch is None or fetch.end is None or mine[0].first.i < fetch.last.i:
                    out.append(("product used before its auxiliary arrived", f"{o} {mine[0]} but auxiliary {i}: {fetch}"))
            back = None
            if fetch is not None and k < len(loaded):
                back = loaded[k]
                k += 1
                c["returned"] += 1
                f = v.finished.get(o)
                if f is None or back.first.i < f.i:
                    out.append(("auxiliary moved before its product is finished", f"{back} product {o} finished {f}"))
                elif back.orig != f.res:
                    out.append(("auxiliary is not returned from where its product ended", f"{back} product {o} finished {f}"))
                if back.targ not in tr.AUX[_auxid(tr, i)]["storages"]:
                    out.append(("auxiliary returned to a foreign place", f"{back}"))
            if n < len(ends):
                if back is None or back.end is None or ends[n].i < back.last.i:
                    out.append(("auxiliary released before it was returned", f"{i} after {o}: {ends[n]} / {back}"))
                elif abs(ends[n].t - back.end) > EPS:
                    out.append(("auxiliary is not released on return", f"{ends[n]} / {back}"))
            elif n < len(seq) - 1:
                out.append(("auxiliary reused without release", f"{i}: {seq[n]} then {seq[n + 1]}"))
        for j in loaded:
            a = tr.AUX[_auxid(tr, i)]
            if j.state not in tr.R.get(j.res, {}).get("process_ids", []) or not transport_ok(tr, a["transport_process"], j.state):
                out.append(("auxiliary carried by an unable vehicle", str(j)))
    # products without any auxiliary at all
    for o, row in v.created.items():
        if tr.PR[tr.ptype(o)].get("auxiliaries") and o not in of_prod:
            mine = [j for j in v.by_prod.get(o, []) if j.stype == "Production" or j.empty is False]
            if mine:
                out.append(("product used without auxiliary", f"{o} {mine[0]}"))
        need = set(tr.PR[tr.ptype(o)].get("auxiliaries") or [])
        if len(need) > 1:
            c["products of several auxiliaries"] += 1
            missing = need - {ty for x, ty in slots if x == o}
            if missing and o in of_prod and o in v.finished:
                # only one auxiliary is ever fetched for a product
                out.append(("auxiliary of a type is never brought", f"{o} needs {sorted(need)}, never got {sorted(missing)}",
                            "one-of-several-types" if len(need) - len(missing) == 1 else None))
    return out, c


def _auxid(tr, i):
    return i if i in tr.AUX else next(a for a in tr.AUX if i.rsplit("_", 1)[0] == tr.AUX[a]["auxiliary_type"])


# ------------------------------------------------------------------------------- P12
class ReworkMonitor:
    """Live: which process failed on which product."""

    def start(self, tr, runner):
        from prodsys.simulation import product
        tr.failures = []
        self.cls = product.Product
        orig = product.Product.__dict__.get("add_needed_rework")
        if orig is None:
            return
        self.orig = orig
        log = runner.event_logger.event_data
        tr.failures_observed = True

        def add_needed_rework(me, failed_process, *a, **k):
            tr.failures.append((me.product_data.ID, failed_process.process_data.ID, me.env.now, len(log)))
            return orig(me, failed_process, *a, **k)
        product.Product.add_needed_rework = add_needed_rework
        tr.cleanup.append(lambda: setattr(product.Product, "add_needed_rework", orig))

    def step(self, tr, runner, env):
        pass

    def finish(self, tr, runner):
        pass


def p12(tr):
    v = views(tr)
    out, c = [], collections.Counter()
    from mon.oracles import plan_states
    can = {p["ID"]: set(p["reworked_process_ids"]) for p in tr.P.values() if p["type"] == "ReworkProcesses"}
    blocking = {q: any(tr.P[r]["blocking"] for r, s in can.items() if q in s) for q in tr.P}
    fails = collections.defaultdict(list)
    for o, q, t, n in getattr(tr, "failures", []):
        fails[o].append([q, n, False, t])
        c["failures"] += 1
    autos = {t: plan_states(tr, t) for t in tr.PR}
    observed = getattr(tr, "failures_observed", False)
    for o in v.created:
        js = v.prod_jobs(o)
        init, step, final = autos[tr.ptype(o)]
        cur = {init}
        pending = []
        bad = False
        for k, j in enumerate(js):
            if j.state in can:
                c["rework jobs"] += 1
                blk = [q for q in pending if blocking[q]]
                opts = [q for q in (blk or pending) if q in can[j.state]]
                if not opts:
                    out.append(("rework without a matching failure", f"{o}: {[x.state for x in js[:k + 1]]}, open failures {pending}"))
                    bad = True
                    break
                if not blk:
                    c["non-blocking reworks"] += 1
                    if not any(final(s) for s in cur):
                        out.append(("non-blocking rework before the plan is complete", f"{o} ({tr.PR[tr.ptype(o)]['processes']}): {[x.state for x in js[:k + 1]]}"))
                else:
                    c["blocking reworks"] += 1
                # repair the failure with the fewest alternatives
                q = min(opts, key=lambda q: sum(1 for s in can.values() if q in s))
                pending.remove(q)
                continue
            blk = [q for q in pending if blocking[q]]
            if blk:
                out.append(("operation before a blocking rework", f"{o}: {[x.state for x in js[:k + 1]]}, open {pending}"))
            nxt = set()
            for s in cur:
                nxt |= {frozenset(x) if isinstance(x, (set, frozenset)) else x for x in step(s, j.state)}
            cur = nxt or cur
            rate = tr.P[j.state].get("failure_rate") or 0
            c["executions"] += 1
            e = j.last.i if j.end is not None else math.inf
            lo = js[k - 1].last.i if k else -1
            hit = next((f for f in fails[o] if not f[2] and f[0] == j.state and lo < f[1] <= e), None)
            if observed:
                if hit:
                    hit[2] = True
                if rate >= 1 and not hit and j.end is not None:
                    out.append(("certain failure did not happen", f"{j} rate {rate}"))
                if rate == 0 and hit:
                    out.append(("impossible failure", f"{j}"))
                c["certain failures"] += rate >= 1
                if 0 < rate < 1 and j.end is not None:
                    c["chances"] += 1
                    c["expected failures x1e6"] += round(rate * 1e6)
                    c["failure variance x1e6"] += round(rate * (1 - rate) * 1e6)
                    c["failures by chance"] += bool(hit)
                failed = bool(hit)
            else:
                failed = rate >= 1
            if failed and j.end is not None:
                pending.append(j.state)
        if bad:
            continue
        if o in v.finished:
            c["finished"] += 1
            if pending:
                out.append(("finished without the demanded rework", f"{o}: {[x.state for x in js]}, open {pending}"))
        for f in fails[o]:
            # the job may not have begun yet (e.g. it waits for a repair)
            if observed and not f[2] and js and any(j.first.i >= f[1] for j in js):
                out.append(("failure of something that was not executed", f"{o} {f}"))
    return out, c


def p12_final(tot):
    """Failures by chance must be as frequent as the configured rates say (7 standard deviations)."""
    n, e, var = tot["failures by chance"], tot["expected failures x1e6"] / 1e6, tot["failure variance x1e6"] / 1e6
    if var > 5 and abs(n - e) > 7 * math.sqrt(var) + 2:
        yield "failure rate not respected", f"{n} failures in {tot['chances']} chances, {e:.1f} expected, standard deviation {math.sqrt(var):.1f}"


# ------------------------------------------------------------------------------- P13
class BatchMonitor:
    """Live: a complete batch must not wait in front of an idle batch machine."""

    def start(self, tr, runner):
        self.res = []
        tr.batch_idle_checks = 0
        tr.batch_partial = 0
        for r in runner.resource_factory.resources:
            d = tr.R[r.data.ID]
            if d["controller"] == "BatchController" and not any(tr.ST[s]["type"] in ("BreakDownState", "ProcessBreakDownState") for s in d["state_ids"]):
                qs = [q for q in r.input_queues if q.data.ID in d["input_queues"]]
                self.res.append((r, d, qs))
        self.sig = {}
        self.order = []
        tr.batch_choices = 0
        for r in runner.resource_factory.resources:
            d = tr.R[r.data.ID]
            if d["controller"] == "BatchController" and d["control_policy"] == "FIFO":
                self.order.append([d, r.get_controller(), []])

    def _order(self, tr, env):
        """The job that has waited longest among those of complete batches determines the next batch (FIFO)."""
        for o in self.order:
            d, controller, prev = o
            now = list(controller.requests)
            o[2] = now
            if not prev or (len(prev) <= len(now) and prev[0] is now[0]):
                continue
            gone = [x for x in prev if not any(x is y for y in now)]
            if not gone:
                continue
            key = lambda x: (x.get_process().process_data.ID, x.get_product().product_data.product_type)
            n = collections.Counter(map(key, prev))
            full = [k for k in dict.fromkeys(map(key, prev)) if n[k] >= d["batch_size"]]
            if len(full) > 1:
                tr.batch_choices += 1
            if full and key(gone[0]) != full[0]:
                tr.violations.append(("P13", "a later batch is taken first", f"t={env.now} {d['ID']}: {key(gone[0])} instead of {full[0]} of {[key(x) for x in prev]}"))

    def step(self, tr, runner, env):
        self._order(tr, env)
        if env.peek() <= env.now:
            return
        for r, d, qs in self.res:
            if sum(len(q.items) for q in qs) == 0:
                continue
            busy = [s for s in r.production_states if s.process is not None and s.process.is_alive]
            if any(s.process is not None and s.process.is_alive for s in getattr(r, "setup_states", [])):
                continue
            if d["output_queues"] and any(len(q.put_queue) for q in r.output_queues):
                continue
            if busy:
                # a machine that runs batches of one process only: does another batch of it fit?
                kinds = {s.state_data.ID for s in busy}
                if len(kinds) == 1 and not d.get("_charging", any(tr.ST[s]["type"] == "ChargingState" for s in d["state_ids"])):
                    self._second(tr, runner, env, r, d, qs, kinds.pop(), len(busy))
                continue
            n = collections.Counter()
            for q in qs:
                for it in q.items:
                    p = runner.product_factory.get_product(it.ID)
                    n[p.product_data.product_type, p.next_prodution_process.process_data.ID] += 1
            tr.batch_idle_checks += 1
            if n:
                tr.batch_partial += 1
            # a demand that several processes of the machine fulfil may be split among them
            full = {k: m for k, m in n.items() if m >= d["batch_size"] and
                    len(({k[1]} if k[1] in d["process_ids"] else set()) | (admissible(tr, k[1]) & set(d["process_ids"]))) == 1}
            if full:
                tr.violations.append(("P13", "complete batch waits at an idle machine", f"t={env.now} {d['ID']} (batch size {d['batch_size']}): {full}"))

    def _second(self, tr, runner, env, r, d, qs, pid, running):
        bs = d["batch_size"]
        cap = dict(zip(d["process_ids"], d["process_capacities"] or [])).get(pid, 0)
        if min(cap, d["capacity"]) - running < bs:
            return
        n = collections.Counter()
        for q in qs:
            for it in q.items:
                p = runner.product_factory.get_product(it.ID)
                n[p.product_data.product_type, p.next_prodution_process.process_data.ID] += 1
        tr.batch_second = getattr(tr, "batch_second", 0) + 1
        if sum(n.values()) and all(k[1] == pid for k in n):
            tr.batch_second_same = getattr(tr, "batch_second_same", 0) + 1
            full = {k: m for k, m in n.items() if m >= bs}
            if full:
                tr.violations.append(("P13", "complete batch waits at a machine with space for it", f"t={env.now} {d['ID']} (batch size {bs}, capacity {d['capacity']}, {running} running): {full}"))

    def finish(self, tr, runner):
        pass


def p13(tr):
    v = views(tr)
    out = [(k, m) for p, k, m in tr.violations if p == "P13"]
    c = collections.Counter()
    c["idle with waiting products"] = getattr(tr, "batch_partial", 0)
    c["choices among complete batches"] = getattr(tr, "batch_choices", 0)
    c["space for a second batch"] = getattr(tr, "batch_second", 0)
    c["space for a second batch and products of its process waiting"] = getattr(tr, "batch_second_same", 0)
    visited = set()
    for rid, d in tr.R.items():
        if d["controller"] != "BatchController":
            continue
        bs = d["batch_size"]
        groups = collections.defaultdict(list)
        for j in v.by_res[rid]:
            if j.stype != "Production":
                continue
            visited.add(j.prod)
            if j.zero:
                continue
            groups[(round(j.start, 9), j.state, tr.ptype(j.prod))].append(j)
        for key, js in groups.items():
            c["batches"] += 1
            t, state, _ = key
            if any(x.ints and abs(x.start - t) > EPS for x in js):
                continue
            if len(js) % bs:
                out.append(("incomplete batch", f"{rid} starts {len(js)} of type {key[2]} with {state} at {t}, batch size {bs}: {js[:3]}"))
                continue
            totals = collections.Counter()
            for j in js:
                if j.end is not None:
                    totals[round(j.worked(), 5)] += 1
                elif j.open_seg is not None and j.exp[-1] is not None:
                    totals[round(j.worked() + j.exp[-1] - j.open_seg, 5)] += 1
            c["complete batches"] += len(js) // bs
            if len(js) > bs:
                c["several batches at once"] += 1
            known = sum(totals.values())
            if known == len(js) and any(n % bs for n in totals.values()):
                out.append(("different processing times in a batch", f"{rid} {state} at {t}: {dict(totals)}"))
            from mon.oracles import value_ok
            for x in totals:
                if not value_ok(tr, tr.P[state]["time_model_id"], x, 2e-5):
                    out.append(("batch time is not a sampled time", f"{rid} {state} at {t}: {x}"))
            if not any(j.ints or j.open_int is not None for j in js) and known == len(js):
                ends = collections.Counter(round(j.end, 6) for j in js if j.end is not None)
                if any(n % bs for n in ends.values()):
                    out.append(("batch does not end together", f"{rid} {state} at {t}: {dict(ends)}"))
    from mon import oracles
    for k, m in oracles.p02(tr)[0] + oracles.p03(tr)[0]:
        out.append(("route of products of batch machines: " + k, m))
    c["products visiting batch machines"] = len(visited)
    return out, c


# ------------------------------------------------------------------------------- requests reconstructed from the log
def expected_time(tr, tm_id, a=None, b=None):
    d = tr.TM[tm_id]
    if "speed" in d:
        return travel_times(tr, tm_id, a, b)[0]
    if "samples" in d:
        return sum(d["samples"]) / len(d["samples"])
    if "sequence" in d:
        return sum(d["sequence"]) / len(d["sequence"])
    return d["location"]


class Req:
    __slots__ = ("item", "t", "start", "job", "orig", "targ", "end", "row")

    def __init__(self, item, t, start, job, orig=None, targ=None):
        self.item, self.t, self.start, self.job, self.orig, self.targ = item, t, start, job, orig, targ

    def __repr__(self):
        return f"{self.item}@{self.t:.6g} started {self.start if self.start is None else round(self.start, 6)} {self.job.state if self.job else ''} {self.orig or ''}->{self.targ or ''}"


def production_requests(tr, v, rid):
    """Jobs requested at a production resource: arrival = end of the loaded transport to it."""
    out = []
    for o in v.created:
        mine = [j for j in sorted(v.by_prod.get(o, []), key=lambda j: j.first.i) if j.stype == "Production" or j.empty is False]
        for a, b in zip(mine, mine[1:] + [None]):
            if a.stype == "Transport" and a.targ == rid and a.end is not None:
                if b is not None and b.stype == "Production" and b.res == rid:
                    out.append(Req(o, a.end, b.start, b))
                elif b is None:
                    out.append(Req(o, a.end, None, None))
    return out


def transport_requests(tr, v, rid):
    """Transports done by a vehicle (capacity one, no links): request = end of the previous activity of the product."""
    seq = [j for j in sorted(v.by_res[rid], key=lambda j: j.first.i) if j.stype == "Transport"]
    out = []
    for k, j in enumerate(seq):
        if j.empty is not False:
            if k == len(seq) - 1 and v.is_product(j.prod):
                first = j      # fetching at the horizon
                orig, targ = j.targ, None
            else:
                continue
        else:
            first = seq[k - 1] if k and seq[k - 1].empty and seq[k - 1].prod == j.prod else j
            orig, targ = j.orig, j.targ
        if not v.is_product(j.prod) or j.prod not in v.created:
            continue
        prev = [x for x in v.by_prod[j.prod] if x is not j and x.last.i < first.first.i + (0 if first is not j else 0) and
                (x.stype == "Production" or x.empty is False) and x.end is not None]
        t = max([x.end for x in prev] + [v.created[j.prod].t])
        out.append(Req(j.prod, t, first.start, j, orig, targ))
    return out


# ------------------------------------------------------------------------------- P14
class PolicyMonitor:
    """Live: order produced by the nearest-origin policies (ties need the queue contents of that instant)."""

    def start(self, tr, runner):
        tr.policy_calls = 0
        tr.policy_ties = 0
        for r in runner.resource_factory.resources:
            d = tr.R[r.data.ID]
            if not str(d["control_policy"]).startswith("Nearest"):
                continue
            ctrl = r.controller
            orig = ctrl.control_policy
            ctrl.control_policy = self.wrap(tr, r, d, orig)

    def wrap(self, tr, r, d, orig):
        longest = "longest" in d["control_policy"]

        def policy(requests):
            before = list(requests)
            orig(requests)
            if len(before) > 1 and requests:
                try:
                    self.judge(tr, r, longest, before, requests[0])
                except Exception as e:
                    tr.monitor_errors.append(f"PolicyMonitor: {type(e).__name__}: {e}")
        return policy

    def judge(self, tr, r, longest, before, head):
        tr.policy_calls += 1
        here = r.get_location()

        def key(q):
            o = coords(tr, q.get_origin().data.ID, "output")
            tm = tr.P[q.get_process().process_data.ID]["time_model_id"]
            tgt = q.get_target()
            queues = (tgt.output_queues if longest else tgt.input_queues) if hasattr(tgt, "output_queues" if longest else "input_queues") else None
            n = sum(len(x.items) for x in queues) if queues is not None else None
            if tgt.data.ID in tr.SNK:
                n = 0  # a sink has nothing waiting
            return expected_time(tr, tm, here, o), n, (q.get_origin().data.ID, q.get_process().process_data.ID)
        ks = {id(q): key(q) for q in before}
        mine = ks[id(head)]
        best = min(k[0] for k in ks.values())
        if mine[0] > best + EPS:
            tr.violations.append(("P14", "not the nearest pickup", f"t={r.env.now} {r.data.ID}: {mine[0]} chosen, {best} possible"))
            return
        ties = [k[1] for k in ks.values() if k[2] == mine[2] and k[1] is not None]  # exact ties only
        if len(ties) > 1 and mine[1] is not None:
            tr.policy_ties += 1
            if (longest and mine[1] < max(ties)) or (not longest and mine[1] > min(ties)):
                tr.violations.append(("P14", "tie not broken by the target queue", f"t={r.env.now} {r.data.ID}: queue {mine[1]} chosen among {ties}"))

    def step(self, tr, runner, env):
        pass

    def finish(self, tr, runner):
        pass


def _choices(reqs):
    """(chosen, [pending that arrived strictly before the choice])"""
    for x in reqs:
        if x.start is None:
            continue
        pend = [y for y in reqs if y is not x and y.t < x.start - EPS and (y.start is None or y.start > x.start + EPS)]
        yield x, pend


def p14(tr):
    v = views(tr)
    out = [(k, m) for p, k, m in tr.violations if p == "P14"]
    c = collections.Counter()
    c["nearest decisions"] = getattr(tr, "policy_calls", 0)
    c["nearest ties"] = getattr(tr, "policy_ties", 0)
    for rid, d in tr.R.items():
        pol = d["control_policy"]
        if d["state_ids"]:
            continue
        if is_transport_res(tr, rid):
            if d["capacity"] > 1 or any(tr.P[x]["type"] == "LinkTransportProcesses" for x in d["process_ids"]):
                continue
            reqs = transport_requests(tr, v, rid)
            reqs.sort(key=lambda x: x.start)
            for x, pend in _choices(reqs):
                if not pend:
                    continue
                if pol == "FIFO":
                    c["transport FIFO"] += 1
                    bad = [y for y in pend if y.t < x.t - EPS]
                    if bad:
                        out.append(("FIFO transport overtaken", f"{rid}: chose {x}, waiting {bad[:3]}"))
                elif pol == "SPT_transport":
                    c["transport SPT"] += 1
                    if x.targ is None:
                        continue
                    key = lambda y: expected_time(tr, tr.P[y.job.state]["time_model_id"], coords(tr, y.orig, "output"), coords(tr, y.targ, "input"))
                    kx = key(x)
                    bad = [y for y in pend if y.targ is not None and key(y) < kx - EPS]
                    if bad:
                        out.append(("longer transport chosen", f"{rid}: chose {x} ({kx}), waiting {[(y, key(y)) for y in bad[:3]]}"))
                elif pol.startswith("Nearest"):
                    c["transport nearest"] += 1
                    seq = [j for j in sorted(v.by_res[rid], key=lambda j: j.first.i) if j.stype == "Transport"]
                    before = [j for j in seq if j.end is not None and j.end <= x.start + EPS and j.first.i < x.job.first.i and j.prod != x.item or (j.end is not None and j.last.i < x.job.first.i and j.empty is False)]
                    # where the vehicle stands when it chooses
                    before = [j for j in before if j.empty is False]
                    if before:
                        here = coords(tr, before[-1].targ, "input")
                    else:
                        here = d["location"]
                    key = lambda y: expected_time(tr, tr.P[y.job.state]["time_model_id"], here, coords(tr, y.orig, "output"))
                    kx = key(x)
                    bad = [y for y in pend if key(y) < kx - EPS]
                    if bad:
                        out.append(("farther pickup chosen", f"{rid}: chose {x} ({kx}), waiting {[(y, key(y)) for y in bad[:3]]}"))
            continue
        if d["controller"] != "PipelineController" or len(set(d["process_capacities"]) | {d["capacity"]}) > 1:
            continue
        reqs = production_requests(tr, v, rid)
        for x, pend in _choices(reqs):
            if not pend:
                continue
            c["production " + pol] += 1
            if pol == "FIFO":
                bad = [y for y in pend if y.t < x.t - EPS]
            elif pol == "LIFO":
                bad = [y for y in pend if y.t > x.t + EPS]
            elif pol == "SPT":
                key = lambda y: expected_time(tr, tr.P[y.job.state]["time_model_id"])
                bad = [y for y in pend if y.job is not None and key(y) < key(x) - EPS]
            else:
                continue
            if bad:
                out.append((f"{pol} violated", f"{rid}: chose {x}, waiting {bad[:3]}"))
    return out, c


# ------------------------------------------------------------------------------- P15
class RoutingMonitor:
    """Live: candidates and choice of every routing decision, with the buffer contents of that instant."""

    def start(self, tr, runner):
        tr.decisions = []
        self.runner = runner
        self.by_id = {r.data.ID: r for r in runner.resource_factory.resources}
        seen = set()
        for s in runner.source_factory.sources:
            ro = s.router
            if id(ro) in seen:
                continue
            seen.add(id(ro))
            ro.routing_heuristic = self.wrap(tr, s.data.ID, ro.routing_heuristic)

    def wrap(self, tr, sid, orig):
        def heuristic(requests):
            snap = None
            if requests:
                try:
                    snap = self.snapshot(tr, sid, list(requests))
                except Exception as e:
                    tr.monitor_errors.append(f"RoutingMonitor: {type(e).__name__}: {e}")
            orig(requests)
            if snap is not None:
                snap["chosen"] = requests[0].resource.data.ID if requests else None
                tr.decisions.append(snap)
        return heuristic

    def snapshot(self, tr, sid, reqs):
        q = reqs[0]
        item = q.product
        transport = is_transport_res(tr, q.resource.data.ID)
        d = dict(source=sid, t=item.env.now, item=item.product_data.ID, transport=transport,
                 cands=[x.resource.data.ID for x in reqs])
        if transport:
            d["demand"] = item.transport_process.process_data.ID
            d["origin"] = q.origin.data.ID
            d["targets"] = [x.target.data.ID for x in reqs]
            d["load"] = {rid: len(r.controller.requests) for rid, r in self.by_id.items() if is_transport_res(tr, rid)}
        else:
            d["demand"] = item.next_prodution_process.process_data.ID
            d["fill"] = {}
            d["full"] = {}
            for rid, r in self.by_id.items():
                if is_transport_res(tr, rid):
                    continue
                d["fill"][rid] = sum(len(x.items) for x in r.input_queues)
                d["full"][rid] = any(tr.Q[x.data.ID]["capacity"] and len(x.items) + getattr(x, "_pending_put", 0) >= tr.Q[x.data.ID]["capacity"]
                                     for x in r.input_queues)
        return d

    def step(self, tr, runner, env):
        pass

    def finish(self, tr, runner):
        pass


def _connected(tr, proc, a, b):
    links = tr.P[proc]["links"]
    if isinstance(links, dict):
        links = [[x, y] for x, ys in links.items() for y in ys]
    adj = collections.defaultdict(set)
    for x, y in links:
        adj[x].add(y)
        adj[y].add(x)
    seen, todo = {a}, [a]
    while todo:
        x = todo.pop()
        for y in adj[x]:
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return a in adj and b in seen


def p15(tr):
    v = views(tr)
    out, c = [], collections.Counter()
    dec = getattr(tr, "decisions", [])
    prodres = [rid for rid in tr.R if not is_transport_res(tr, rid)]
    vehicles = [rid for rid in tr.R if is_transport_res(tr, rid)]
    rule = {s: tr.SRC[s]["routing_heuristic"] for s in tr.SRC}
    link = any(p["type"] == "LinkTransportProcesses" for p in tr.P.values())
    rnd = collections.defaultdict(collections.Counter)
    nprod, ntrans = collections.defaultdict(list), collections.defaultdict(list)
    for d in dec:
        if d["chosen"] is None:
            continue
        h = rule[d["source"]]
        if not d["transport"]:
            c["production decisions"] += 1
            adm = admissible(tr, d["demand"])
            able = [r for r in prodres if adm & set(tr.R[r]["process_ids"])]
            want = [r for r in able if not d["full"][r]]
            if len(want) < len(able):
                c["decisions with full candidates"] += 1
            if set(d["cands"]) != set(want):
                out.append(("wrong production candidates", f"t={d['t']} {d['item']} needs {d['demand']}: candidates {d['cands']}, able with room {want}"))
                continue
            ch = d["chosen"]
            if ch not in want:
                out.append(("routed to an unable or full resource", str(d)))
            nprod[d["item"]].append(d)
            if len(want) > 1:
                c["production choices " + h] += 1
                if h == "FIFO" and ch != want[0]:
                    out.append(("FIFO routing did not take the first candidate", f"t={d['t']} {d['item']}: {ch} of {want}"))
                if h == "shortest_queue" and d["fill"][ch] > min(d["fill"][r] for r in want):
                    out.append(("not a shortest queue", f"t={d['t']} {d['item']}: {ch} of {[(r, d['fill'][r]) for r in want]}"))
                if h == "random":
                    rnd["p", d["source"], tuple(want), d["demand"]][ch] += 1
        else:
            c["transport decisions"] += 1
            able = []
            for r in vehicles:
                for p in tr.R[r]["process_ids"]:
                    if transport_ok(tr, d["demand"], p) and (tr.P[p]["type"] != "LinkTransportProcesses" or
                                                             all(_connected(tr, p, d["origin"], t) for t in d["targets"])):
                        able.append(r)
                        break
            if set(d["cands"]) != set(able):
                out.append(("wrong transport candidates", f"t={d['t']} {d['item']} needs {d['demand']}: candidates {d['cands']}, able {able}"))
                continue
            ch = d["chosen"]
            ntrans[d["item"]].append(d)
            if len(able) > 1:
                c["transport choices " + h] += 1
                if h == "FIFO" and ch != able[0]:
                    out.append(("FIFO routing did not take the first vehicle", f"t={d['t']} {d['item']}: {ch} of {able}"))
                if h == "shortest_queue" and d["load"][ch] > min(d["load"][r] for r in able):
                    out.append(("not the vehicle with fewest waiting transports", f"t={d['t']} {d['item']}: {ch} of {d['load']}"))
                if h == "random":
                    rnd["t", d["source"], tuple(able), d["demand"]][ch] += 1
    for k, n in rnd.items():
        for i, r in enumerate(k[2]):
            c[f"random choice {i + 1} of {len(k[2])}"] += n[r]
        tot = sum(n.values())
        if tot >= 60 * len(k[2]):
            c["random choices covered"] += 1
            miss = [r for r in k[2] if n[r] == 0]
            if miss:
                out.append(("random routing never takes a candidate", f"{k}: {dict(n)}"))
    for j in v.jobs:
        if j.stype == "Production" and j.prod is not None:
            c["operations judged"] += 1
            if not j.state in tr.R[j.res]["process_ids"]:
                out.append(("routed to a resource without the process", repr(j)))
    # the decisions are what happens
    for o in v.created:
        js = v.prod_jobs(o)
        ds = nprod.get(o, [])
        if dec and len(js) > len(ds):
            out.append(("processed without a routing decision", f"{o}: {js[len(ds):][:1]}"))
        for j, d in zip(js, ds):
            c["followed"] += 1
            if j.res != d["chosen"]:
                out.append(("processed elsewhere than routed", f"{o}: routed to {d['chosen']} at t={d['t']}, {j}"))
        if not link and not any("location" in q for q in tr.Q.values()):
            ts = [j for j in sorted(v.by_prod.get(o, []), key=lambda j: j.first.i) if j.stype == "Transport" and j.empty is False]
            for j, d in zip(ts, ntrans.get(o, [])):
                c["transports followed"] += 1
                if j.res != d["chosen"] or j.targ not in d["targets"]:
                    # routing towards a sink chooses among several vehicles with their own targets
                    out.append(("carried by another vehicle than routed", f"{o}: {d['chosen']} to {d['targets']} at t={d['t']}, {j}"))
    return out, c

def p15_final(tot):
    for k in range(2, 6):
        ns = [tot[f"random choice {i + 1} of {k}"] for i in range(k)]
        n = sum(ns)
        if n >= 100 * k and min(ns) < n / k / 4:
            yield "random routing is not spread over the candidates", f"choices by position among {k} candidates: {ns}"


# ------------------------------------------------------------------------------- P16
def p16(tr):
    v = views(tr)
    out, c = [], collections.Counter()
    down = down_intervals(tr, v)
    charging = collections.defaultdict(list)
    for j in v.jobs:
        if j.stype == "Charging":
            charging[j.res].append((j.start, j.end if j.end is not None else math.inf))
    link = any(p["type"] == "LinkTransportProcesses" for p in tr.P.values())
    finite = any(q["capacity"] for q in tr.Q.values() if "location" not in q)
    stores = any("location" in q for q in tr.Q.values())
    for rid, d in tr.R.items():
        kinds = {tr.ST[s]["type"] for s in d["state_ids"]}
        off = [(i[0], i[1]) for i in down.get(rid, [])] + charging.get(rid, [])
        setups = "SetupState" in kinds
        if setups:
            # (a started changeover is work; jobs may wait for one that waits for other jobs to end)
            off += [(j.start, j.end if j.end is not None else math.inf) for j in v.by_res[rid] if j.stype == "Setup"]
        if is_transport_res(tr, rid):
            # (with finite buffers, stores or auxiliaries the time of a request is not in the log)
            if d["capacity"] > 1 or link or finite or stores or tr.AUX:
                continue
            reqs = transport_requests(tr, v, rid)
            busy = [(j.start, j.end if j.end is not None else math.inf) for j in v.by_res[rid] if j.stype == "Transport"]
            cap = 1
        else:
            if d["controller"] != "PipelineController" or len(set(d["process_capacities"]) | {d["capacity"]}) > 1:
                continue
            if any(tr.Q[q]["capacity"] for q in d["output_queues"]):
                continue
            reqs = production_requests(tr, v, rid)
            busy = [(j.start, j.end if j.end is not None else math.inf) for j in v.by_res[rid] if j.stype == "Production"]
            cap = 1 if setups else d["capacity"]
        c["machines with changeovers"] += setups
        ev = []
        for x in reqs:
            ev.append((x.t, 0, 1))
            ev.append((x.start if x.start is not None else tr.horizon, 0, -1))
        for a, b in busy:
            ev.append((a, 1, 1))
            ev.append((min(b, tr.horizon), 1, -1))
        for a, b in off:
            ev.append((a, 2, 1))
            ev.append((min(b, tr.horizon), 2, -1))
        ev.sort(key=lambda e: e[0])
        n = [0, 0, 0]
        for k, (t, i, dlt) in enumerate(ev):
            n[i] += dlt
            nxt = ev[k + 1][0] if k + 1 < len(ev) else tr.horizon
            if nxt - t > EPS:
                if n[0] > 0:
                    c["waiting spans"] += 1
                    if n[1] >= cap:
                        c["waiting at a busy resource"] += 1
                if n[0] > 0 and n[1] < cap and n[2] == 0:
                    out.append(("idle although work waits", f"{rid} (capacity {cap}) works on {n[1]} while {n[0]} wait from {t} to {nxt}: "
                                f"{[x for x in reqs if x.t <= t + EPS and (x.start is None or x.start > t + EPS)][:3]}"))
                    break
        if setups and not is_transport_res(tr, rid) and d["capacity"] > 1 and not link and "ChargingState" not in kinds:
            # capacity left in the setup that every waiting and every running job needs
            ev = [(x.t, "w", x.job.state if x.job else None, 1) for x in reqs]
            ev += [(x.start if x.start is not None else tr.horizon, "w", x.job.state if x.job else None, -1) for x in reqs]
            for j in v.by_res[rid]:
                if j.stype == "Production":
                    ev += [(j.start, "b", j.state, 1), (j.end if j.end is not None else tr.horizon, "b", j.state, -1)]
            for a, b in off:
                ev += [(a, "o", None, 1), (min(b, tr.horizon), "o", None, -1)]
            ev.sort(key=lambda e: e[0])
            n = dict(w=collections.Counter(), b=collections.Counter(), o=collections.Counter())
            for k, (t, i, st, dlt) in enumerate(ev):
                n[i][st] += dlt
                nxt = ev[k + 1][0] if k + 1 < len(ev) else tr.horizon
                if nxt - t <= EPS or sum(n["o"].values()):
                    continue
                w, b = +n["w"], +n["b"]
                if len(w) == 1 and len(b) == 1 and set(w) == set(b) and None not in w:
                    c["waiting for the running setup"] += 1
                    if sum(b.values()) < d["capacity"]:
                        out.append(("idle although work waits for the current setup", f"{rid} (capacity {d['capacity']}) runs {dict(b)} while {dict(w)} wait from {t} to {nxt}"))
                        break
    if getattr(tr, "drained", None) is not None:
        c["drained runs"] += bool(tr.drained)
        left = [o for o in v.created if o not in v.finished]
        if not tr.drained and left and not tr.crash:
            out.append(("products are stranded", f"{len(left)} of {len(v.created)} unfinished at {tr.horizon}, arrivals ended long before: {[(o, v.by_prod.get(o, [])[-1:]) for o in left[:2]]}"))
        c["finished"] += len(v.finished)
    return out, c
