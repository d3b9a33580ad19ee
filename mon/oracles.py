"""Offline oracles over recorded traces (event log + delivered times + live observations).

Every oracle takes a Trace and returns (violations, counters): violations is a list of
(kind, message), counters says what was observed (a zero count of the deciding
observation means the run said nothing about the property).
"""
import collections
import heapq
import itertools
import math

EPS = 1e-6
REL = 1e-9


def close(a, b, eps=EPS):
    return abs(a - b) <= eps + REL * max(abs(a), abs(b))


class Views:
    """Derived views of a trace, computed once."""

    def __init__(self, tr):
        self.tr = tr
        self.jobs = tr.jobs
        self.created, self.finished = {}, {}
        self.created_rows, self.finished_rows = [], []
        for r in tr.rows:
            if r.act == "created product":
                self.created_rows.append(r)
                self.created.setdefault(r.prod, r)
            elif r.act == "finished product":
                self.finished_rows.append(r)
                self.finished.setdefault(r.prod, r)
        self.by_prod = collections.defaultdict(list)
        self.by_res = collections.defaultdict(list)
        for j in self.jobs:
            if j.prod is not None and j.stype in ("Production", "Transport"):
                self.by_prod[j.prod].append(j)
            self.by_res[j.res].append(j)

    def prod_jobs(self, p):
        return [j for j in self.by_prod.get(p, []) if j.stype == "Production"]

    def is_product(self, pid):
        return pid is not None and pid.rsplit("_", 1)[0] in self.tr.PR


def views(tr):
    v = getattr(tr, "_views", None)
    if v is None:
        v = tr._views = Views(tr)
    return v


def is_transport_res(tr, rid):
    return rid in tr.R and tr.R[rid]["controller"] == "TransportController"


# ------------------------------------------------------------------------------- P01
def p01(tr):
    v = views(tr)
    out = [(k, m) for p, k, m in tr.violations if p == "P01"]
    c = collections.Counter()
    c["created"] = len(v.created_rows)
    c["finished"] = len(v.finished_rows)
    if len(v.created) != len(v.created_rows):
        out.append(("created twice", str([r for r in v.created_rows if v.created[r.prod] is not r][:2])))
    if len(v.finished) != len(v.finished_rows):
        out.append(("finished twice", str([r for r in v.finished_rows if v.finished[r.prod] is not r][:2])))
    last = {}
    for r in tr.rows:
        if r.prod is not None:
            last[r.prod] = r
    for pid, f in v.finished.items():
        if pid not in v.created:
            out.append(("finished but never released", str(f)))
        if last[pid] is not f:
            out.append(("activity after finish", f"{f} then {last[pid]}"))
        loaded = [j for j in v.by_prod.get(pid, []) if j.stype == "Transport" and j.empty is False]
        if not loaded or loaded[-1].end is None or loaded[-1].targ not in tr.SNK or \
                tr.SNK[loaded[-1].targ]["product_type"] != tr.ptype(pid):
            out.append(("finished without delivery to an accepting sink", f"{f} last transport {loaded[-1:] }"))
    for pid in v.by_prod:
        if v.is_product(pid) and pid not in v.created:
            out.append(("unreleased product active", pid))
    if tr.runner is not None and not tr.crash:
        pf = tr.runner.product_factory
        fin = [p.product_data.ID for p in pf.finished_products]
        cur = [p.product_data.ID for p in pf.products]
        if len(set(fin)) != len(fin):
            out.append(("finished registered twice", str([x for x, n in collections.Counter(fin).items() if n > 1][:3])))
        if len(set(cur)) != len(cur) or set(cur) & set(fin):
            out.append(("registry duplicates", str((set(cur) & set(fin))) + str([x for x, n in collections.Counter(cur).items() if n > 1][:3])))
        if set(fin) != set(v.finished):
            out.append(("finished registry differs from log", f"log-only {set(v.finished) - set(fin)} registry-only {set(fin) - set(v.finished)}"))
        if (set(cur) | set(fin)) ^ set(v.created):
            # a product may be created at the very last instant and still be in front of its logging
            diff = (set(cur) | set(fin)) ^ set(v.created)
            late = [x for x in diff if x not in v.created]
            if set(diff) != set(late) or len(late) > len(tr.SRC):
                out.append(("released products differ from registry", str(sorted(diff)[:5])))
    # unfinished products must be somewhere
    if getattr(tr, "places", None) is not None:
        out += _whereabouts(tr, v, c)
    return out, c


def _whereabouts(tr, v, c):
    """End of run: every unfinished released product rests in a buffer or is held by somebody."""
    out = []
    down = set()
    for j in v.jobs:
        if j.stype in ("Breakdown", "ProcessBreakdown", "Charging") and j.end is None:
            down.add(j.res)
    busy = {j.res for j in v.jobs if j.end is None and j.stype in ("Production", "Transport", "Setup")}
    for pid in v.created:
        if pid in v.finished:
            continue
        n = tr.places.get(pid, 0)
        js = v.by_prod.get(pid, [])
        held = [j for j in js if j.end is None and (j.stype == "Production" or j.empty is False)]
        c["located"] += 1
        if n + len(held) > 1:
            out.append(("product in several places", f"{pid} buffers={n} held={held}"))
        if n + len(held) == 0:
            # taken from a buffer, work not begun: its holder must be down or all its slots must be busy
            lastloaded = [j for j in js if j.end is not None and j.stype == "Transport" and j.empty is False]
            cand = set(down) | busy
            if not cand:
                out.append(("product vanished", f"{pid} is in no buffer, nobody works on it or carries it; last {js[-1:] }"))
    return out


class PlaceMonitor:
    """Live: buffers never hold an item twice, nor two buffers the same item; capacity respected."""

    def start(self, tr, runner):
        self.queues = list(runner.queue_factory.queues)
        self.sig = None
        self.n = 0
        tr.places = None
        tr.live_checks = 0
        self.inq = set()
        self.outq = {}
        for r in tr.data["resource_data"]:
            if "input_queues" in r:
                for q in r["input_queues"]:
                    self.inq.add(q)
                for q in r["output_queues"]:
                    self.outq.setdefault(q, []).append(r["ID"])
        self.stores = {q["ID"] for q in tr.data["queue_data"] if "location" in q}
        self.cap = {q["ID"]: (q["capacity"] or math.inf) for q in tr.data["queue_data"]}
        for q in self.queues:
            self.cap.setdefault(q.data.ID, q.capacity)
        self.seen_full = 0
        self.blocked = 0

    def step(self, tr, runner, env):
        self.n += 1
        sig = tuple([len(q.items) + 1000 * len(q.put_queue) for q in self.queues])
        if sig == self.sig and self.n % 20:
            return
        self.sig = sig
        tr.live_checks += 1
        seen = {}
        for q in self.queues:
            qid = q.data.ID
            n = len(q.items)
            if n > self.cap[qid]:
                tr.violations.append(("P05", "buffer over capacity", f"t={env.now} {qid} holds {n} > {self.cap[qid]}"))
            if n >= self.cap[qid]:
                self.seen_full += 1
            if q.put_queue:
                if n < self.cap[qid] and env.peek() > env.now:
                    tr.violations.append(("P05", "blocked although there is space", f"t={env.now} {qid} holds {n} of {self.cap[qid]}, waiting {len(q.put_queue)}"))
                if qid in self.outq:
                    self.blocked += 1
                if (qid in self.inq or qid in self.stores) and qid not in self.outq:
                    tr.violations.append(("P05", "delivery in front of a full entry buffer", f"t={env.now} {qid} holds {n} of {self.cap[qid]}, waiting {len(q.put_queue)}"))
                elif qid in self.stores:
                    tr.violations.append(("P05", "delivery in front of a full store", f"t={env.now} {qid} holds {n} of {self.cap[qid]}, waiting {len(q.put_queue)}"))
            for it in list(q.items) + [p.item for p in q.put_queue]:
                i = it.ID
                k = id(it)
                if i in tr.AUX:
                    i = k
                if i in seen:
                    tr.violations.append(("P01" if not isinstance(i, int) else "P11", "item in two places", f"t={env.now} {it.ID} in {seen[i]} and {qid}"))
                seen[i] = qid
        self.last = seen

    def finish(self, tr, runner):
        self.sig = None
        self.n = 19
        class E:
            now = tr.horizon
            peek = staticmethod(lambda: math.inf)
        self.step(tr, runner, E)
        tr.places = {k: 1 for k in self.last}
        tr.full_seen = self.seen_full
        tr.blocked_seen = self.blocked


# ------------------------------------------------------------------------------- P02
def admissible(tr, demand):
    """Production processes that fulfil a demand."""
    d = tr.P[demand]
    if d["type"] in ("ProductionProcesses", "ReworkProcesses"):
        return {demand}
    if d["type"] in ("CapabilityProcesses", "RequiredCapabilityProcesses"):
        return {p["ID"] for p in tr.P.values() if p["type"] == "CapabilityProcesses" and p["capability"] == d["capability"]}
    if d["type"] == "CompoundProcesses":
        return set().union(*(admissible(tr, x) for x in d["process_ids"] if tr.P[x]["type"] != "CompoundProcesses"))
    return set()


def plan_states(tr, ptype):
    """(initial, step(state,process)->set of states, final(state)) of the plan automaton."""
    plan = tr.PR[ptype]["processes"]
    if isinstance(plan, list) and (not plan or isinstance(plan[0], str)):
        adm = [admissible(tr, d) for d in plan]
        return 0, (lambda s, p: {s + 1} if s < len(adm) and p in adm[s] else set()), (lambda s: s == len(adm))
    if isinstance(plan, dict):
        pred = {n: {a for a, ss in plan.items() if n in ss} for n in set(plan) | {x for ss in plan.values() for x in ss}}
    else:
        nodes = {x for e in plan for x in e}
        pred = {n: {a for a, b in plan if b == n} for n in nodes}
    adm = {n: admissible(tr, n) for n in pred}

    def step(s, p):
        return {s | {n} for n in pred if n not in s and p in adm[n] and pred[n] <= s}
    return frozenset(), step, (lambda s: len(s) == len(pred))


def is_rework(tr, p):
    return p in tr.P and tr.P[p]["type"] == "ReworkProcesses"


def p02(tr):
    v = views(tr)
    out, c = [], collections.Counter()
    autos = {t: plan_states(tr, t) for t in tr.PR}
    for pid, row in v.created.items():
        t = tr.ptype(pid)
        init, step, final = autos[t]
        cur = {init}
        done_at = None
        js = v.prod_jobs(pid)
        bad = False
        for j in js:
            if is_rework(tr, j.state):
                c["rework jobs"] += 1
                continue
            nxt = set()
            for s in cur:
                nxt |= {frozenset(x) if isinstance(x, (set, frozenset)) else x for x in step(s, j.state)}
            c["plan steps"] += 1
            if not nxt:
                out.append(("operation not in plan order", f"{pid} ({tr.PR[t]['processes']}): {[k.state for k in js]} at {j}"))
                bad = True
                break
            cur = nxt
        if bad:
            continue
        for a, b in zip(js, js[1:]):
            if a.end is None or b.first.i < a.last.i:
                out.append(("operations overlap", f"{pid}: {a} {b}"))
        complete = any(final(s) for s in cur) and all(j.end is not None for j in js)
        tosink = [j for j in v.by_prod.get(pid, []) if j.stype == "Transport" and j.empty is False and j.targ in tr.SNK]
        if pid in v.finished or tosink:
            c["complete plans" if pid in v.finished else "on the way to the sink"] += 1
            c["plan kind " + ("list" if init == 0 and isinstance(init, int) else "graph")] += 1
            if not complete and not (tosink and tosink[-1].targ in tr.SNK and _through_sink(tr, tosink[-1], v, pid)):
                out.append(("left before the plan was complete", f"{pid} ({tr.PR[t]['processes']}): executed {[k.state for k in js]}"))
    return out, c


def _through_sink(tr, j, v, pid):
    """A link journey may pass a foreign sink on its way."""
    return tr.P[j.state]["type"] == "LinkTransportProcesses" and pid not in v.finished


# ------------------------------------------------------------------------------- P03
def transport_ok(tr, demand, proc):
    d, p = tr.P[demand], tr.P[proc]
    if d["type"] == "RequiredCapabilityProcesses" or (d["type"] == "LinkTransportProcesses" and d.get("capability")):
        return p.get("capability") == d["capability"] and p["type"] == "LinkTransportProcesses"
    return demand == proc


def p03(tr):
    v = views(tr)
    out, c = [], collections.Counter()
    # products
    for pid, row in v.created.items():
        t = tr.ptype(pid)
        if row.res not in tr.SRC:
            out.append(("released elsewhere", str(row)))
            continue
        place = row.res
        js = sorted(v.by_prod.get(pid, []), key=lambda j: j.first.i)
        carrier = None
        for j in js:
            if j.stype == "Transport" and j.empty is False:
                c["loaded moves"] += 1
                if j.orig != place and not _station_ok(tr, j, place):
                    out.append(("transport does not start where the product is", f"{pid} is at {place}: {j}"))
                if not is_transport_res(tr, j.res) or j.state not in tr.R[j.res]["process_ids"] or \
                        not transport_ok(tr, tr.PR[t]["transport_process"], j.state):
                    out.append(("transport resource not able", f"{pid} {j}"))
                place = j.targ
                if j.targ is None:
                    out.append(("no target", str(j)))
            elif j.stype == "Production":
                c["operations"] += 1
                if j.res != place:
                    out.append(("processed where it is not", f"{pid} is at {place}: {j}"))
                if j.res not in tr.R or is_transport_res(tr, j.res) or j.state not in tr.R[j.res]["process_ids"]:
                    out.append(("process not offered", f"{pid} {j}"))
        # no two things at a time
        mine = [j for j in js if j.stype == "Production" or j.empty is False]
        for a, b in zip(mine, mine[1:]):
            if a.end is None or b.first.i < a.last.i:
                out.append(("worked on or moved twice at a time", f"{pid}: {a} / {b}"))
        if mine and mine[0].stype == "Production":
            out.append(("processed at the source", f"{pid} {mine[0]}"))
        if pid in v.finished:
            c["finished"] += 1
            if place not in tr.SNK or tr.SNK[place]["product_type"] != t or v.finished[pid].res != place:
                out.append(("finished at a wrong place", f"{pid} at {place}: {v.finished[pid]}"))
    # vehicles
    for rid, js in v.by_res.items():
        if not is_transport_res(tr, rid) or tr.R[rid]["capacity"] > 1:
            continue
        js = [j for j in sorted(js, key=lambda j: j.first.i) if j.stype == "Transport"]
        prev = None
        for j in js:
            c["vehicle moves"] += 1
            if prev is None:
                if j.orig not in ("Loading station", None, rid):
                    link = tr.P[j.state]["type"] == "LinkTransportProcesses"
                    if not link:
                        out.append(("vehicle starts elsewhere", f"{j}"))
            elif j.orig != prev.targ:
                out.append(("vehicle jumps", f"{prev} then {j}"))
            if prev is not None and prev.empty and prev.prod != j.prod and not _handed_over(tr, v, prev, j):
                if j.empty:
                    out.append(("gives up fetching", f"{prev} then {j}"))
                else:
                    out.append(("fetches one load and carries another", f"{prev} then {j}"))
            if j.empty is None:
                out.append(("journey without load information", str(j)))
            prev = j
    return out, c


def _handed_over(tr, v, prev, j):
    """On a link network a load that is to be worked on where it already is needs no loaded journey."""
    if tr.P[prev.state]["type"] != "LinkTransportProcesses":
        return False
    nxt = [x for x in v.by_prod.get(prev.prod, []) if x.first.i > prev.last.i and (x.stype == "Production" or x.empty is False)]
    if nxt:
        x = min(nxt, key=lambda x: x.first.i)
        return x.stype == "Production" and x.res == prev.targ
    return not is_transport_res(tr, prev.targ) and prev.targ in tr.R


def _station_ok(tr, j, place):
    """A link vehicle enters the network at the place closest to its station."""
    return j.orig == "Loading station" and tr.P[j.state]["type"] == "LinkTransportProcesses"


# ------------------------------------------------------------------------------- P04
def p04(tr):
    v = views(tr)
    out, c = [], collections.Counter()
    ev = []
    for j in v.jobs:
        if j.stype in ("Production", "Transport"):
            if j.zero:
                continue
            ev.append((j.first.i, 1, j))
            if j.end is not None:
                ev.append((j.last.i, 0, j))
    ev.sort(key=lambda e: e[0])
    n = collections.Counter()
    np_ = collections.Counter()
    for i, kind, j in ev:
        if kind:
            n[j.res] += 1
            np_[j.res, j.state] += 1
            r = tr.R.get(j.res)
            if r is None:
                continue
            c["starts"] += 1
            if n[j.res] > 1:
                c["concurrent starts"] += 1
            if n[j.res] == r["capacity"]:
                c["at capacity"] += 1
            if n[j.res] > r["capacity"]:
                out.append(("capacity exceeded", f"{j.res} runs {n[j.res]} > {r['capacity']} at {j.first}"))
            if j.state in r["process_ids"]:
                pc = r["process_capacities"][r["process_ids"].index(j.state)]
                if np_[j.res, j.state] > pc:
                    out.append(("process capacity exceeded", f"{j.res}/{j.state} runs {np_[j.res, j.state]} > {pc} at {j.first}"))
                if pc < r["capacity"]:
                    c["starts under process limit"] += 1
        else:
            n[j.res] -= 1
            np_[j.res, j.state] -= 1
    return out, c


# ------------------------------------------------------------------------------- P05
def p05(tr):
    v = views(tr)
    out = [(k, m) for p, k, m in tr.violations if p == "P05"]
    c = collections.Counter(live=getattr(tr, "live_checks", 0), full=getattr(tr, "full_seen", 0), blocked=getattr(tr, "blocked_seen", 0))
    # occupancy of a resource by running plus blocked (finished, not yet put down) work
    shared = collections.Counter(q for r in tr.data["resource_data"] for q in r.get("output_queues", []))
    tb = any(p["type"] == "LinkTransportProcesses" for p in tr.P.values()) or any(tr.ST[s]["type"] in ("BreakDownState", "ProcessBreakDownState") for r in tr.data["resource_data"] if is_transport_res(tr, r["ID"]) for s in r["state_ids"])
    if not tb:
        for r in tr.data["resource_data"]:
            if "output_queues" not in r:
                continue
            qs = [q for q in r["output_queues"] if "location" not in tr.Q[q]]
            if any(shared[q] > 1 for q in qs) or r["controller"] != "PipelineController":
                continue
            # a product may be put into a full queue although another one has room: judge by the total
            cap = sum(tr.Q[q]["capacity"] for q in qs)
            if not all(tr.Q[q]["capacity"] for q in qs):
                continue
            ev = []
            for j in v.by_res[r["ID"]]:
                if j.stype != "Production":
                    continue
                ev.append((j.first.i, "s", j))
                if j.end is not None:
                    ev.append((j.last.i + 0.5 if j.zero else j.last.i, "e", j))
            for pid, js in v.by_prod.items():
                for a, b in zip(js, js[1:]):
                    pass
            for pid in v.by_prod:
                if not v.is_product(pid):
                    continue
                mine = [j for j in v.by_prod[pid] if j.stype == "Production" or j.empty is False]
                for a, b in zip(mine, mine[1:]):
                    if a.stype == "Production" and a.res == r["ID"] and b.stype == "Transport":
                        ev.append((b.first.i, "p", b))
            ev.sort(key=lambda e: e[0])
            run = ready = 0
            for i, k, j in ev:
                if k == "s":
                    c["starts at finite output"] += 1
                    run += 1
                    blocked = max(0, ready - cap)
                    # pick-ups at the same instant are logged after the slot was handed over
                    same = sum(1 for i2, k2, j2 in ev if k2 == "p" and i2 > i and abs(j2.first.t - j.first.t) < EPS)
                    if run + blocked - same > r["capacity"]:
                        out.append(("work started while blocked", f"{r['ID']} (capacity {r['capacity']}, output {cap}) has {run} running and {ready} finished ones waiting at {j.first}"))
                elif k == "e":
                    run -= 1
                    ready += 1
                else:
                    ready -= 1
    return out, c


# ------------------------------------------------------------------------------- P06
ACTS = {"start state", "start interrupt", "end interrupt", "end state", "created product", "finished product",
        "created auxiliary", "started auxiliary usage", "finished auxiliary usage"}


def p06(tr):
    v = views(tr)
    out, c = [], collections.Counter()
    c["rows"] = len(tr.rows)
    prev = -1.0
    for r in tr.rows:
        if not (r.t >= prev - 1e-12):
            out.append(("time goes backwards", f"{prev} then {r}"))
        prev = max(prev, r.t)
        if r.t > tr.horizon + EPS or r.t < 0:
            out.append(("outside the horizon", str(r)))
        if r.act not in ACTS:
            out.append(("unknown activity", str(r)))
        known = r.res in tr.R or r.res in tr.SRC or r.res in tr.SNK or r.res in tr.Q
        if not known:
            out.append(("unknown resource", str(r)))
        if r.act in ("start state", "start interrupt", "end interrupt", "end state"):
            if r.res not in tr.R:
                out.append(("state of something that is no resource", str(r)))
            elif r.stype in ("Production", "Transport"):
                if r.state not in tr.R[r.res]["process_ids"]:
                    out.append(("state of a foreign process", str(r)))
                if r.prod is None or not (r.prod in v.created or r.prod in tr.AUX or _auxname(tr, r.prod)):
                    out.append(("job of an unknown product", str(r)))
                if (r.stype == "Transport") != is_transport_res(tr, r.res):
                    out.append(("kind of job does not fit resource", str(r)))
                if r.stype == "Transport" and (not _place(tr, r.targ) or not (_place(tr, r.orig) or r.orig == "Loading station")):
                    out.append(("unknown place", str(r)))
            else:
                if r.state not in tr.R[r.res]["state_ids"]:
                    out.append(("state of another resource", str(r)))
                want = {"BreakDownState": "Breakdown", "ProcessBreakDownState": "ProcessBreakdown", "SetupState": "Setup", "ChargingState": "Charging"}
                if r.state in tr.ST and want.get(tr.ST[r.state]["type"]) != r.stype:
                    out.append(("wrong state type", str(r)))
        elif r.act == "created product":
            if r.res not in tr.SRC or r.stype != "Source" or tr.SRC[r.res]["product_type"] != tr.ptype(r.prod or ""):
                out.append(("creation entry malformed", str(r)))
        elif r.act == "finished product":
            if r.res not in tr.SNK or r.stype != "Sink":
                out.append(("finish entry malformed", str(r)))
    out += [("malformed job history", e) for e in tr.grammar]
    first, last = {}, {}
    for r in tr.rows:
        if v.is_product(r.prod):
            first.setdefault(r.prod, r)
            last[r.prod] = r
    for pid, r in first.items():
        if r.act != "created product" and not (r.stype == "Transport" and r.empty):
            out.append(("activity before creation", str(r)))
        c["products"] += 1
    n = collections.Counter((r.prod, r.act) for r in tr.rows if r.act in ("created product", "finished product"))
    for k, m in n.items():
        if m > 1:
            out.append(("logged more than once", str(k)))
    for pid, f in v.finished.items():
        if last[pid] is not f:
            out.append(("entries after finish", f"{f} {last[pid]}"))
    for j in v.jobs:
        if j.zero:
            c["zero jobs"] += 1
            continue
        if any(e is None for e in j.exp):
            out.append(("no expected end", str(j)))
            continue
        # an interruption postpones the expected end by exactly its duration
        starts = [a for a, _ in j.segs] + ([j.open_seg] if j.open_seg is not None else [])
        remaining = [e - s for e, s in zip(j.exp, starts)]
        for k in range(1, len(remaining)):
            c["postponed ends"] += 1
            if not close(remaining[k], remaining[k - 1] - (j.segs[k - 1][1] - j.segs[k - 1][0])):
                out.append(("expected end not postponed by the interruption", f"{j} expected {j.exp}"))
                break
        for (_, b), e in zip(j.ints, j.iexp):
            nxt = [x for x, s in zip(j.exp, starts) if close(s, b)]
            if nxt and not (e is not None and any(close(e, x) for x in nxt)):
                out.append(("expected end at the end of an interruption differs", f"{j} expected {j.iexp} then {j.exp}"))
                break
        if j.end is not None:
            c["complete jobs"] += 1
            if not close(j.exp[-1], j.end):
                out.append(("expected end differs from end", f"{j} expected {j.exp[-1]}"))
        elif j.open_seg is not None:
            c["open jobs"] += 1
            if j.exp[-1] < tr.horizon - EPS:
                out.append(("overdue job", f"{j} expected {j.exp[-1]} horizon {tr.horizon}"))
        if j.ints:
            c["interrupted jobs"] += 1
    return out, c


def _place(tr, x):
    return x in tr.R or x in tr.SRC or x in tr.SNK or x in tr.Q or x in tr.N


def _auxname(tr, x):
    return any(x == a or x.rsplit("_", 1)[0] == a for a in tr.AUX)


# ------------------------------------------------------------------------------- durations
def spec_values(tr, tm_id):
    """Exact set of values a time model may deliver, or None."""
    d = tr.TM[tm_id]
    if d.get("distribution_function") == "constant":
        return [d["location"]]
    if "samples" in d:
        return d["samples"]
    if "sequence" in d:
        return d["sequence"]
    return None


def schedule_values(tr, tm_id):
    """The k-th value of a schedule as a function (None after its end), or None."""
    d = tr.TM[tm_id]
    if "schedule" not in d:
        return None
    rel = [b - a for a, b in zip([0] + d["schedule"], d["schedule"])] if d["absolute"] else d["schedule"]
    return lambda k: rel[k % len(rel)] if d["cyclic"] or k < len(rel) else None


def value_ok(tr, tm_id, x, tol=EPS):
    """x is one of the values this model specifies and one of those it delivered."""
    s = spec_values(tr, tm_id)
    if s is not None and not any(close(x, y, tol) for y in s):
        return False
    dr = tr.by_tm.get(tm_id)
    if dr is None:
        return s is not None
    return any(close(x, y, tol) for y in dr)


def match_multiset(xs, ys, tol=EPS):
    """Can every x be matched to its own y? returns unmatched x's."""
    ys = sorted(ys)
    used = [False] * len(ys)
    miss = []
    import bisect
    for x in sorted(xs):
        t = tol + REL * abs(x)
        k = bisect.bisect_left(ys, x - t)
        while k < len(ys) and used[k]:
            k += 1
        if k < len(ys) and ys[k] <= x + t:
            used[k] = True
        else:
            miss.append(x)
    return miss


def p07(tr):
    v = views(tr)
    out, c = [], collections.Counter()
    per_tm = collections.defaultdict(list)
    users = collections.Counter(p["time_model_id"] for p in tr.P.values() if p.get("time_model_id"))
    for j in v.jobs:
        if j.stype != "Production" or j.state not in tr.P:
            continue
        if tr.R.get(j.res, {}).get("controller") == "BatchController":
            continue
        tm = tr.P[j.state]["time_model_id"]
        if j.end is not None:
            w = j.worked()
            c["ended"] += 1
            c["interruptions"] += len(j.ints)
            if len(j.ints) > 1:
                c["interrupted repeatedly"] += 1
            if not value_ok(tr, tm, w):
                out.append(("working time is not a sampled time", f"worked {w} (model {tr.TM[tm]}): {j}"))
            per_tm[tm].append(w)
        elif j.exp and j.exp[-1] is not None and j.open_seg is not None:
            c["open"] += 1
            total = j.worked() + (j.exp[-1] - j.open_seg)
            if not value_ok(tr, tm, total):
                out.append(("planned time is not a sampled time", f"planned {total} (model {tr.TM[tm]}): {j}"))
            if j.worked(tr.horizon) > total + EPS:
                out.append(("job exceeds its time", f"{j}"))
            per_tm[tm].append(total)
        elif j.open_int is not None:
            s = tr.by_tm.get(tm, [])
            if s and j.worked() > max(s) + EPS:
                out.append(("job exceeds every sampled time", f"{j}"))
    for tm, xs in per_tm.items():
        if tm in tr.by_tm and users[tm] == 1:
            miss = match_multiset(xs, tr.by_tm[tm])
            c["matched"] += len(xs) - len(miss)
            if miss:
                out.append(("more jobs than sampled times", f"model {tm}: unmatched working times {miss[:4]}"))
    return out, c


# ------------------------------------------------------------------------------- P08
def down_intervals(tr, v):
    """per resource: list of (start, end or inf, kind, process)"""
    d = collections.defaultdict(list)
    for j in v.jobs:
        if j.stype in ("Breakdown", "ProcessBreakdown"):
            pid = tr.ST[j.state].get("process_id") if j.state in tr.ST else None
            d[j.res].append((j.start, j.end if j.end is not None else math.inf, j.stype, pid, j))
    return d


def affects(iv, j):
    if iv[2] == "Breakdown":
        return j.stype in ("Production", "Transport", "Setup")
    return (j.stype == "Production" and j.state == iv[3]) or j.stype == "Setup"


def p08(tr):
    v = views(tr)
    out, c = [], collections.Counter()
    down = down_intervals(tr, v)
    for rid, ivs in down.items():
        c["breakdowns"] += sum(1 for i in ivs if i[2] == "Breakdown")
        c["process breakdowns"] += sum(1 for i in ivs if i[2] != "Breakdown")
        for a, b in itertools.combinations(ivs, 2):
            if min(a[1], b[1]) - max(a[0], b[0]) > EPS:
                c["overlapping failures"] += 1
    for j in v.jobs:
        if j.stype not in ("Production", "Transport", "Setup"):
            continue
        rel = [iv for iv in down.get(j.res, []) if affects(iv, j)]
        segs = list(j.segs)
        if j.open_seg is not None:
            segs.append((j.open_seg, tr.horizon))
        for a, b in segs:
            for iv in rel:
                if min(b, iv[1]) - max(a, iv[0]) > EPS:
                    out.append(("work during a failure", f"{j} works {a}..{b} during {iv[:4]}"))
                if j.zero and iv[0] + EPS < a < iv[1] - EPS:
                    out.append(("work during a failure", f"{j} during {iv[:4]}"))
        ints = [(a, b) for a, b in j.ints] + ([(j.open_int, None)] if j.open_int is not None else [])
        for a, b in ints:
            c["interruptions"] += 1
            if not any(abs(iv[0] - a) < EPS for iv in rel):
                out.append(("interrupted without failure", f"{j} at {a}; failures {[i[:4] for i in rel]}"))
                continue
            until = b if b is not None else tr.horizon
            # covered time
            cov = _covered([(max(iv[0], a), min(iv[1], until)) for iv in rel if iv[1] > a and iv[0] < until])
            if until - a - cov > EPS:
                out.append(("does not resume after repair", f"{j} stands still {a}..{b}, failures {[i[:4] for i in rel]}"))
            if b is not None:
                c["resumed"] += 1
                if any(iv[0] < b - EPS and iv[1] > b + EPS for iv in rel):
                    out.append(("resumes before repair", f"{j} resumes at {b}, failures {[i[:4] for i in rel]}"))
    # durations and times between failures
    users = collections.Counter()
    for r in tr.data["resource_data"]:
        for s in r["state_ids"]:
            users[s] += 1
    for rid, r in tr.R.items():
        for sid in r["state_ids"]:
            st = tr.ST[sid]
            if st["type"] not in ("BreakDownState", "ProcessBreakDownState"):
                continue
            seq = sorted([iv for iv in down.get(rid, []) if iv[4].state == sid], key=lambda i: i[0])
            prev_end = 0.0
            ttf = st["time_model_id"]
            vals = spec_values(tr, ttf)
            plan, fix = schedule_values(tr, ttf), schedule_values(tr, st["repair_time_model_id"])
            for k, iv in enumerate(seq):
                j = iv[4]
                dur = (j.end if j.end is not None else j.exp[-1]) - iv[0] if (j.end is not None or j.exp[-1] is not None) else None
                if dur is not None:
                    c["repairs"] += 1
                    if fix:
                        c["scheduled repairs"] += 1
                        if not close(dur, fix(k) or -1):
                            out.append(("repair time does not follow its schedule", f"{j} lasts {dur}, repair {k + 1} of {tr.TM[st['repair_time_model_id']]}"))
                    elif not value_ok(tr, st["repair_time_model_id"], dur):
                        out.append(("repair time is not a sampled time", f"{j} lasts {dur}, model {tr.TM[st['repair_time_model_id']]}"))
                gap = iv[0] - prev_end
                if plan:
                    c["scheduled failures"] += 1
                    if plan(k) is None or not close(gap, plan(k)):
                        out.append(("failure does not follow its schedule", f"{j} after {gap}, failure {k + 1} of {tr.TM[ttf]}, previous repair ended {prev_end}"))
                elif not value_ok(tr, ttf, gap):
                    out.append(("time between failures is not a sampled time", f"{j} after {gap}, model {tr.TM[ttf]} previous repair ended {prev_end}"))
                if iv[1] == math.inf and j.open_seg is not None and j.exp[-1] < tr.horizon - EPS:
                    out.append(("repair never ends", f"{j}"))
                prev_end = iv[1]
            if prev_end != math.inf:
                draws = tr.by_tm.get(ttf, [])
                mx = plan(len(seq)) if plan else max(vals) if vals else (max(draws) if draws else None)
                if mx is not None and prev_end + mx < tr.horizon - EPS:
                    out.append(("failure does not occur", f"{rid}/{sid}: last repair ended {prev_end}, at most {mx} to the next failure, horizon {tr.horizon}"))
    return out, c


def _covered(ivs):
    ivs = sorted(ivs)
    tot, cur = 0.0, None
    for a, b in ivs:
        if b <= a:
            continue
        if cur is None or a > cur[1]:
            if cur:
                tot += cur[1] - cur[0]
            cur = [a, b]
        else:
            cur[1] = max(cur[1], b)
    if cur:
        tot += cur[1] - cur[0]
    return tot


# ------------------------------------------------------------------------------- P09
def p09(tr):
    v = views(tr)
    out, c = [], collections.Counter()
    for rid, r in tr.R.items():
        setups = {s: tr.ST[s] for s in r["state_ids"] if tr.ST[s]["type"] == "SetupState"}
        js = sorted([j for j in v.by_res.get(rid, []) if j.stype in ("Production", "Setup")], key=lambda j: j.first.i)
        sj = [j for j in js if j.stype == "Setup"]
        if not setups:
            if sj:
                out.append(("changeover without definition", str(sj[0])))
            continue
        c["resources with changeovers"] += 1
        ev = []
        for j in js:
            if j.stype == "Production":
                ev.append((j.first.i, "p", j))
            else:
                ev.append((j.first.i, "s", j))
                if j.end is not None:
                    ev.append((j.last.i + 0.5, "f", j))
        ev.sort(key=lambda e: e[0])
        cur = None
        since = None
        open_setup = None
        last_target_jobs = 1
        for i, k, j in ev:
            if k == "p":
                c["jobs"] += 1
                if cur is None:
                    cur = j.state
                if open_setup is not None:
                    out.append(("job starts during a changeover", f"{j} during {open_setup}"))
                elif j.state != cur:
                    out.append(("job in a foreign setup", f"{rid} is set up for {cur}: {j}"))
                last_target_jobs += 1
            elif k == "s":
                c["changeovers"] += 1
                st = setups[j.state]
                if open_setup is not None:
                    out.append(("two changeovers at a time", f"{open_setup} and {j}"))
                open_setup = j
                if cur is not None and st["origin_setup"] != cur:
                    out.append(("changeover from a foreign setup", f"{rid} is set up for {cur}: {j}"))
                if not last_target_jobs:
                    out.append(("changeover without use", f"{j}"))
            else:
                cur = setups[j.state]["target_setup"]
                open_setup = None
                last_target_jobs = 0
        prods = [j for j in js if j.stype == "Production"]
        for s in sj:
            a, b = s.start, s.end if s.end is not None else tr.horizon
            for j in prods:
                e = j.end if j.end is not None else tr.horizon
                if min(b, e) - max(a, j.start) > EPS:
                    out.append(("job open during a changeover", f"{j} / {s}"))
            tm = setups[s.state]["time_model_id"]
            if s.end is not None:
                c["changeover times"] += 1
                if s.ints:
                    c["interrupted changeovers"] += 1
                if not value_ok(tr, tm, s.worked()):
                    out.append(("changeover time is not a sampled time", f"{s.worked()} model {tr.TM[tm]}: {s}"))
            elif s.open_seg is not None and s.worked(tr.horizon) > max(tr.by_tm.get(tm, [math.inf])) + EPS:
                out.append(("changeover too long", str(s)))
    return out, c
