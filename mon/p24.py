"""P24: the optimisers evaluate candidates truthfully and report what they found."""
import collections
import contextlib
import io
import itertools
import json
import os
import random
import subprocess
import sys
import tempfile
import shutil

import numpy as np

from mon import core, gen, p20, p23
from prodsys import adapters
from prodsys.models import performance_indicators as kpi
from prodsys.optimization import adapter_manipulation as am
from prodsys.optimization import evolutionary_algorithm as ea
from prodsys.optimization import optimization as opt
from prodsys.optimization import optimization_analysis as oa
from prodsys.optimization import simulated_annealing as sa
from prodsys.optimization import tabu_search as ts
from prodsys.optimization import util as ou
from prodsys.util import runner as runner_module
from prodsys.util.post_processing import PostProcessor

BEST = dict(throughput=1, cost=-1, WIP=-1, throughput_time=-1)  # direction of improvement
PROFILES = ["plain", "setup", "fail", "aux", "vehicles", "compound", "multi", "big"]
CALL = {"evolution": ea, "annealing": sa, "tabu": ts}


def baseline(spec):
    extra = dict(plans=dict(list=1.0), jobs=(5, 12), p_rework=0.1)
    rng = random.Random(spec["seed"] + "/p24")
    kinds = rng.sample(p23.KINDS, rng.choice([2, 3, 6]))
    if spec["profile"] != "aux":
        kinds = [k for k in kinds if k != "auxiliary_capacity"] or ["production_capacity"]
    d, _ = p23.baseline(spec["seed"], spec["profile"], kinds, extra)
    sc = d["scenario_data"]
    have = max(len(m["process_ids"]) for m in p23.machines(d))
    sc["constraints"].update(max_num_machines=len(p23.machines(d)) + rng.choice([0, 1, 2]), max_num_processes_per_machine=max(have, sc["constraints"]["max_num_processes_per_machine"]),
                             max_reconfiguration_cost=rng.choice([1e5, 3e5, 1e7]))
    names = rng.sample(sorted(BEST), rng.choice([2, 3, 3, 4]))
    sc["objectives"] = [dict(name=n, weight=rng.choice([1.0, 0.5, 0.01, 2.0, 0.3])) for n in names]
    sc["info"]["time_range"] = rng.choice([60, 150, 250])
    return d, rng


def adapter(d):
    try:
        a = p20.build(d)
        ou.create_default_breakdown_states(a.model_copy(deep=True))
    except ValueError as e:
        if "heterogen" not in str(e):
            raise
        for r in d["resource_data"]:
            r["state_ids"] = [s for s in r["state_ids"] if any(x["ID"] == s and x["type"] not in p23.BREAK for x in d["state_data"])]
        a = p20.build(d)
    return a


class Enough(Exception):
    pass


# ---------------------------------------------------------------- oracle
def weights(d):
    """Weights with which a larger sum is better."""
    return [BEST[o["name"]] * o["weight"] for o in d["scenario_data"]["objectives"]]


def fitness(path, b, n_seeds):
    """The values of the objectives of a saved candidate, from independent simulations."""
    a = adapters.JsonProductionSystemAdapter()
    a.read_data(path)
    d = json.loads(a.model_dump_json())
    sc = b["scenario_data"]
    d["scenario_data"] = sc
    if p23.limits(d, b):
        return None, d
    runs = []
    for seed in range(n_seeds):
        a.seed = seed
        r = runner_module.Runner(adapter=a)
        r.initialize_simulation()
        r.run(sc["info"]["time_range"])
        runs.append(objectives(r, d, b))
    return [sum(x) / n_seeds for x in zip(*runs)], d


def objectives(r, d, b):
    made, done = {}, {}
    for e in r.event_logger.event_data:
        if e["Product"] is None or str(e["Activity"]) == "created auxiliary":
            continue
        if e["Activity"] == "created product":
            made[e["Product"]] = e["Time"]
        elif e["Activity"] == "finished product":
            done[e["Product"]] = e["Time"]
    kind = lambda p: p.rsplit("_", 1)[0]
    by = collections.defaultdict(list)
    for p in done:
        by[kind(p)].append(done[p] - made[p])
    p = PostProcessor(df_raw=r.event_logger.get_data_as_dataframe())
    out = []
    for o in b["scenario_data"]["objectives"]:
        if o["name"] == "throughput":
            out.append(len(done))
        elif o["name"] == "cost":
            out.append(p23.cost(d, b))
        elif o["name"] == "WIP":
            out.append(sum(p.get_aggregated_wip_data()))
        else:
            out.append(sum(sum(v) / len(v) for v in by.values()) / len(by) if by else 100000)
    return out


def canonical(d):
    """Function of a candidate without names."""
    M = [[m["process_ids"], m["location"], m["input_location"], m["output_location"], m["control_policy"], m["capacity"], sorted(m["state_ids"]), m["controller"]] for m in p23.machines(d)]
    T = [[t["process_ids"], t["location"], t["control_policy"], t["capacity"], sorted(t["state_ids"])] for t in p23.vehicles(d)]
    for x in M + T:
        x[0] = sorted(x[0])
    return [sorted(map(json.dumps, M)), sorted(map(json.dumps, T)), [s["routing_heuristic"] for s in d["source_data"]], [[a["ID"], a["quantity_in_storages"]] for a in d["auxiliary_data"]]]


def same(x, y):
    return len(x) == len(y) and all(abs(p - q) <= 1e-6 * max(1, abs(p), abs(q)) for p, q in zip(x, y))


# ---------------------------------------------------------------- searches
def run_search(method, a, folder, spec, record, tries=400, names="n%05d"):
    m = CALL[method]
    count, real_uuid = itertools.count(), am.uuid1
    am.uuid1 = lambda: names % next(count)  # the same names in every run, see the known finding
    seed, n_seeds = spec["search_seed"], spec["n_seeds"]
    n = [0]
    real_eval, real_valid = m.evaluate, am.check_valid_configuration

    def spy(*args, **kw):
        v = real_eval(*args, **kw)
        ind = kw.get("individual") or args[-1]
        sd = kw.get("solution_dict") or args[1]
        record.append((sd["current_generation"], ind[0].ID, list(v), ind[0].hash()))
        return v

    def limited(*args, **kw):
        r = real_valid(*args, **kw)
        n[0] = 0 if r else n[0] + 1
        if n[0] > tries:
            raise Enough()
        return r
    m.evaluate = spy
    patched = [am] + ([m] if hasattr(m, "check_valid_configuration") else [])
    for x in patched:
        x.check_valid_configuration = limited
    text = io.StringIO()
    try:
        with contextlib.redirect_stdout(text), contextlib.redirect_stderr(io.StringIO()):
            if method == "evolution":
                ea.evolutionary_algorithm_optimization(a, ea.EvolutionaryAlgorithmHyperparameters(
                    seed=seed, number_of_generations=spec["steps"], population_size=spec["size"], mutation_rate=spec["mutation"], crossover_rate=spec["crossover"], number_of_seeds=n_seeds),
                    save_folder=folder, initial_solutions_folder=spec.get("initial", ""))
            elif method == "annealing":
                os.makedirs(folder)
                sa.simulated_annealing_optimization(a, sa.SimulatedAnnealingHyperparameters(seed=seed, steps=spec["size"] * spec["steps"], updates=1, Tmax=100, number_of_seeds=n_seeds), save_folder=folder)
            else:
                os.makedirs(folder)
                ts.tabu_search_optimization(a, ts.TabuSearchHyperparameters(seed=seed, max_steps=spec["steps"], tabu_size=spec["size"], number_of_seeds=n_seeds, max_score=spec.get("max_score", 1e9)), save_folder=folder,
                                            initial_solution=a.model_copy(deep=True))
    finally:
        am.uuid1 = real_uuid
        m.evaluate = real_eval
        for x in patched:
            x.check_valid_configuration = real_valid
    return text.getvalue()


def ev_search(spec):
    out, c = [], collections.Counter()
    d, rng = baseline(spec)
    a = adapter(d)
    if not opt.check_valid_configuration(a, a):
        c["baselines beyond the limits"] += 1
        return core.Outcome(out, c, False, "-")
    b0 = p23.dump(a)
    method = spec["method"]
    with tempfile.TemporaryDirectory(prefix="p24_") as tmp:
        folder = os.path.join(tmp, "results")
        rec = []
        try:
            text = run_search(method, a, folder, spec, rec)
        except Enough:
            c["searches without valid neighbours"] += 1
            return core.Outcome(out, c, False, "-")
        except Exception as e:
            out.append(("a search fails", f"{method} {spec['size']}: {type(e).__name__}: {e} | {p23.where(e)}"))
            return core.Outcome(out, c, True, "-")
        c["searches: " + method] += 1
        a1 = p23.dump(a)
        for k in (*p20.LISTS, "scenario_data"):
            if a1[k] != b0[k] and k != "state_data":  # default breakdown states may be added
                out.append(("a search changes its base configuration", k))
        if method == "evolution" and a1 != {**b0, "reconfiguration_cost": a1["reconfiguration_cost"]}:
            out.append(("a search changes its base configuration", "evolution"))
        with open(os.path.join(folder, "optimization_results.json")) as f:
            res = json.load(f)
        check_results(spec, d, b0, a, folder, res, rec, text, out, c)
        check_analysis(os.path.join(folder, "optimization_results.json"), method, res, out, c)
        # the same seed finds the same candidates again, whatever the state of the random number generators
        if spec.get("again"):
            random.seed(rng.random())
            np.random.seed(rng.randrange(10 ** 6))
            rec2 = []
            a = adapter(baseline(spec)[0])
            run_search(method, a, folder + "2", spec, rec2)
            c["searches repeated"] += 1
            if [(g, v, h) for g, _, v, h in rec] != [(g, v, h) for g, _, v, h in rec2]:
                i = next((i for i, (x, y) in enumerate(zip(rec, rec2)) if (x[0], x[2:]) != (y[0], y[2:])), min(len(rec), len(rec2)))
                out.append(("the same seed leads to another search", f"{method}: evaluation {i}: {rec[i:i + 1]} and {rec2[i:i + 1]}"))
            else:
                rec3 = []
                run_search(method, adapter(baseline(spec)[0]), folder + "3", spec, rec3, names="Q%05d")
                if [(g, v, h) for g, _, v, h in rec] != [(g, v, h) for g, _, v, h in rec3]:
                    c["searches that depend on the names of new machines"] += 1
                    out.append(("a search depends on the names given to new machines", method, "uuid-names"))
    return core.Outcome(p23.dedupe(out), c, c["candidates recomputed"] > 0, core.digest(json.dumps([method, [h for *_, h in rec]])), dict(method=method, evaluations=len(rec)))


def check_results(spec, d, b0, a, folder, res, rec, text, out, c):
    method = spec["method"]
    w = weights(d)
    sign = -1 if method == "annealing" else 1
    b = json.loads(json.dumps(b0))
    if p23.dump(a)["state_data"] != b0["state_data"]:
        b["state_data"] = p23.dump(a)["state_data"]
    entries = {(g, i): e for g, v in res.items() for i, e in v.items()}
    last = {}
    for g, i, v, h in rec:
        last[(g, i)] = (v, h)
    if set(last) != set(entries):
        out.append(("results do not list the evaluated candidates", f"{method}: missing {sorted(set(last) - set(entries))[:2]}, extra {sorted(set(entries) - set(last))[:2]}"))
    seen = {}
    first = {}
    for g, i, v, h in rec:
        if (g, i) in first:
            continue
        first[(g, i)] = 1
        e = entries.get((g, i))
        if not e:
            continue
        c["results"] += 1
        if not same(e["fitness"], v) or e["hash"] != h:
            out.append(("a result differs from its evaluation", f"{method} {i}: {e['fitness']} {v}"))
        if abs(e["agg_fitness"] - sign * sum(x * y for x, y in zip(e["fitness"], w))) > 1e-6 * max(1, abs(e["agg_fitness"])):
            out.append(("a result has a wrong overall value", f"{method} {i}: {e['agg_fitness']} for {e['fitness']} with weights {w}"))
        path = os.path.join(folder, f"generation_{g}_{i}.json")
        if not os.path.exists(path):
            out.append(("no file for an evaluated candidate", f"{method}: {os.path.basename(path)}"))
            continue
        if h in seen:
            c["candidates met again"] += 1
            x = adapters.JsonProductionSystemAdapter()
            x.read_data(path)
            dx = json.loads(x.model_dump_json())
            if canonical(dx) != seen[h][1]:
                out.append(("different candidates share one evaluation", f"{method} {i}: {canonical(dx)} and {seen[h][1]}"))
            elif seen[h][0] is not None and not same(v, seen[h][0]):
                out.append(("a candidate met again gets another value", f"{method} {i}: {v}, before {seen[h][0]}"))
            continue
        mine, dx = fitness(path, b, spec["n_seeds"])
        seen[h] = (v, canonical(dx))
        c["candidates recomputed"] += 1
        if mine is None:
            c["invalid candidates"] += 1
            if not all(abs(x * y + 100000) < 1e-6 for x, y in zip(v, w) if y):
                out.append(("an invalid candidate is not penalised", f"{method} {i}: {v}, weights {w}"))
        elif not same(mine, v):
            out.append(("a candidate is evaluated wrongly", f"{method} {i}: {v} instead of {mine} ({[o['name'] for o in d['scenario_data']['objectives']]}, {spec['n_seeds']} seeds)"))
        else:
            for o in d["scenario_data"]["objectives"]:
                c["objective " + o["name"]] += 1
        x = adapters.JsonProductionSystemAdapter()
        x.read_data(path)
        if x.hash() != h:
            out.append(("the file of a candidate has another hash", f"{method} {i}"))
    if method == "tabu":
        scores = [sum(x * y for x, y in zip(v, w)) for _, _, v, _ in rec]
        line = [x for x in text.splitlines() if x.startswith("Best solution has ID")]
        if not line:
            out.append(("the search reports no best solution", text[-200:]))
        else:
            ident, val = line[-1][len("Best solution has ID "):].split(" and objectives values: ")
            c["best solutions reported"] += 1
            if abs(float(val) - max(scores)) > 1e-6 * max(1, abs(max(scores))):
                out.append(("the reported solution is not the best", f"{val}, best evaluated {max(scores)}"))
            e = entries.get(("0", ident))
            if not e or abs(e["agg_fitness"] - max(scores)) > 1e-6 * max(1, abs(max(scores))):
                out.append(("the reported solution is not the best", f"{ident}: {e and e['agg_fitness']}, best evaluated {max(scores)}"))


def check_analysis(path, method, res, out, c):
    df = oa.read_optimization_results_file_to_df(path, "anneal" if method == "annealing" else method)
    rows = [(int(g), n + 1, i, e) for g, v in res.items() for n, (i, e) in enumerate(v.items())]
    if len(df) != len(rows):
        out.append(("the table of results has other rows than the file", f"{len(df)} {len(rows)}"))
        return
    c["tables of results"] += 1
    for (g, n, i, e), (_, r) in zip(rows, df.iterrows()):
        agg = -e["agg_fitness"] if method == "annealing" else e["agg_fitness"]
        if (r["Generation"], r["population_number"], r["ID"]) != (g, n, i) or r["agg_fitness"] != agg or [r[f"KPI_{k}"] for k in range(len(e["fitness"]))] != e["fitness"] or r["time"] != e["time_stamp"]:
            out.append(("a row of the table of results differs from the file", f"{dict(r)} {e}"))
            return
    try:
        got = oa.get_pareto_solutions_from_result_files(path)
    except KeyError as e:
        out.append(("the Pareto solutions of a results file cannot be read", f"KeyError: {e}", "pareto-file"))


# ---------------------------------------------------------------- single evaluations
def ev_evaluate(spec):
    """evaluate() on candidates of a walk, several seeds, against independent simulation; no influence on later random numbers."""
    out, c = [], collections.Counter()
    d, rng = baseline(spec)
    a = adapter(d)
    if not ou.check_breakdown_states_available(a):
        ou.create_default_breakdown_states(a)
    b = p23.dump(a)
    w = weights(d)
    if ou.get_weights(a, "max") != tuple(w) or ou.get_weights(a, "min") != tuple(-x for x in w):
        out.append(("wrong weights of the objectives", f"{ou.get_weights(a, 'max')} {w}"))
    random.seed(spec["seed"])
    cur = a.model_copy(deep=True)
    sd, perf = {"current_generation": "0", "hashes": {}}, {"0": {}}
    with tempfile.TemporaryDirectory(prefix="p24_") as tmp:
        for step in range(spec["steps"]):
            cur = am.mutation([cur.model_copy(deep=True)])[0][0]
            before = p23.dump(cur)
            known = cur.hash() in sd["hashes"]
            path = os.path.join(tmp, f"c{step}.json")
            adapters.JsonProductionSystemAdapter.model_validate(cur.model_copy(deep=True)).write_data(path)
            r1, r2 = random.getstate(), np.random.get_state()
            try:
                v = opt.evaluate(a, sd, perf, spec["n_seeds"], "", [cur])
            except Exception as e:
                out.append(("an evaluation fails", f"{type(e).__name__}: {e} | {p23.where(e)}"))
                continue
            if random.getstate() != r1 or str(np.random.get_state()) != str(r2):
                out.append(("an evaluation changes the random numbers of the search", ""))
            after = p23.dump(cur)
            if {k: x for k, x in after.items() if k not in ("seed", "reconfiguration_cost")} != {k: x for k, x in before.items() if k not in ("seed", "reconfiguration_cost")}:
                out.append(("an evaluation changes the candidate", str([k for k in after if after[k] != before[k]])))
            c["evaluations"] += 1
            mine, dx = fitness(path, b, spec["n_seeds"])
            if known:
                c["candidates met again"] += 1
            if mine is None:
                c["invalid candidates"] += 1
                if not all(abs(x * y + 100000) < 1e-6 for x, y in zip(v, w) if y):
                    out.append(("an invalid candidate is not penalised", f"{v}, weights {w}"))
            elif not known and not same(mine, v):
                out.append(("a candidate is evaluated wrongly", f"{v} instead of {mine} ({[o['name'] for o in d['scenario_data']['objectives']]}, {spec['n_seeds']} seeds)"))
            if mine is not None:
                c["candidates recomputed"] += 1
            ou.document_individual(sd, tmp, [cur])
            perf["0"][cur.ID] = {"fitness": [float(x) for x in v]}
    return core.Outcome(p23.dedupe(out), c, c["candidates recomputed"] > 0, core.digest(json.dumps(sorted(sd["hashes"]))), dict(evaluations=c["evaluations"]))


# ---------------------------------------------------------------- search in small worlds
class Grid(ts.TabuSearch):
    """Maximises a function on a small torus; every visit is recorded."""
    def __init__(self, f, start, size, steps, limit, cells):
        super().__init__(start, size, steps, limit)
        self.f, self.cells, self.scored, self.moves, self.n = f, cells, [], [], 0

    def _score(self, s):
        self.scored.append(s)
        return self.f[s]

    def _neighborhood(self):
        self.moves.append((self.current, list(self.tabu_list)))
        x, y = self.current
        k = self.cells
        self.n += 1
        return [((x + 1) % k, y), (x, (y + 1) % k), ((x - 1) % k, y), (x, (y - 1) % k)]


def ev_tabu(spec):
    out, c = [], collections.Counter()
    rng = random.Random(spec["seed"])
    for _ in range(spec["n"]):
        k = rng.choice([3, 4, 5, 6])
        vals = rng.choice([3, 10, 1000])
        f = {(x, y): float(rng.randint(-vals, vals)) for x in range(k) for y in range(k)}
        size, steps = rng.randint(1, 12), rng.randint(1, 30)
        limit = rng.choice([None, None, float(vals - 1), 0.0])
        start = (rng.randrange(k), rng.randrange(k))
        g = Grid(f, start, size, steps, limit, k)
        with contextlib.redirect_stdout(io.StringIO()) as text:
            best, score = g.run(verbose=False)
        c["small worlds"] += 1
        end = text.getvalue().strip().splitlines()[-1]
        c[end] += 1
        top = max(f[s] for s in g.scored + [start])
        if score != top or f[best] != top:
            out.append(("the best found is not reported", f"{score} {f[best]}, best scored {top}"))
        if g.n > steps:
            out.append(("more steps than permitted", f"{g.n} of {steps}"))
        if limit is not None and "MAXIMUM STEPS" in end and score > limit:
            out.append(("the search goes on after reaching its target", f"{score} > {limit}"))
        if "MAXIMUM SCORE" in end and not (limit is not None and score > limit):
            out.append(("the search ends before reaching its target", f"{score} {limit}"))
        # replay: each move goes to the best neighbour that is not tabu
        cur, tabu = start, collections.deque(maxlen=size)
        bst = f[start]
        for (at, tl), nxt in zip(g.moves, [m for m in g.moves[1:]] + [None]):
            if at != cur or list(tl) != list(tabu):
                out.append(("a move of the search breaks its rule", f"at {at} expected {cur}, tabu {tl} expected {list(tabu)}"))
                break
            x, y = cur
            nb = [((x + 1) % k, y), (x, (y + 1) % k), ((x - 1) % k, y), (x, (y - 1) % k)]
            if all(n in tabu for n in nb):
                if nxt is not None or "NO SUITABLE" not in end:
                    out.append(("the search goes on without permitted neighbours", str(cur)))
                break
            order = sorted(nb, key=lambda n: -f[n])
            step = None
            for n in order:
                if n in tabu and f[n] <= bst:
                    continue
                step = n
                break
            # the rule is checked up to neighbours of equal value
            if nxt is None:
                break
            real, rt = nxt
            if f[step] != f[rt[-1]]:
                out.append(("a move of the search breaks its rule", f"from {cur}: {rt[-1]} ({f[rt[-1]]}) instead of {step} ({f[step]})"))
                break
            if rt[-1] in tabu:  # improves on the best so far: stays in place
                c["moves to tabu places that are better"] += 1
            else:
                cur = rt[-1]
                if real != cur:
                    out.append(("a move of the search breaks its rule", f"{real} is not {cur}"))
                    break
            tabu.append(rt[-1])
            bst = max(bst, f[rt[-1]])
            c["moves"] += 1
    return core.Outcome(p23.dedupe(out), c, True, core.digest(spec["seed"]))


# ---------------------------------------------------------------- Pareto sets
def ev_pareto(spec):
    out, c = [], collections.Counter()
    rng = random.Random(spec["seed"])
    for _ in range(spec["n"]):
        n, k, v = rng.randint(1, 25), rng.randint(1, 4), rng.choice([2, 4, 100])
        X = [[float(rng.randint(0, v)) for _ in range(k)] for _ in range(n)]
        want = {tuple(x) for x in X if not any(all(p <= q for p, q in zip(y, x)) and y != x for y in X)}
        for f in (oa.is_pareto_efficient, oa.is_pareto_efficient_simple):
            A = np.array(X)
            got = f(A)
            if A.tolist() != X:
                out.append(("finding Pareto solutions changes the data", f.__name__))
            if len(got) != n:
                out.append(("wrong number of Pareto marks", f.__name__))
                continue
            G = {tuple(x) for x, m in zip(X, got) if m}
            if G != want:
                out.append(("wrong Pareto solutions", f"{f.__name__}: {sorted(G)} instead of {sorted(want)}"))
        c["Pareto sets"] += 1
    return core.Outcome(p23.dedupe(out), c, True, core.digest(spec["seed"]))


# ---------------------------------------------------------------- other processes
def ev_process(spec):
    """A whole search in other processes: other hash seeds, several workers."""
    out, c = [], collections.Counter()
    spec = dict(spec, method="evolution", n_seeds=1, steps=2, size=4, mutation=0.5, crossover=0.4, search_seed=3)
    d, rng = baseline(spec)
    a = adapter(d)
    if not opt.check_valid_configuration(a, a):
        c["baselines beyond the limits"] += 1
        return core.Outcome(out, c, False, "-")
    with tempfile.TemporaryDirectory(prefix="p24_") as tmp:
        base, scen = os.path.join(tmp, "base.json"), os.path.join(tmp, "scenario.json")
        a.write_data(base)
        with open(scen, "w") as f:
            f.write(a.scenario_data.model_dump_json())
        code = ("import sys, logging\nfrom prodsys import adapters\nfrom prodsys.optimization import adapter_manipulation as am, evolutionary_algorithm as ea, optimization as opt\n"
                "n=[0]; real=am.check_valid_configuration\n"
                "def lim(x,y):\n    n[0]+=1\n    if n[0]>600: sys.exit(77)\n    return real(x,y)\n"
                "am.check_valid_configuration=lim\n"
                "import itertools\nk=itertools.count()\nam.uuid1=lambda: 'n%05d' % next(k)\n"
                "ea.run_evolutionary_algorithm(sys.argv[1], sys.argv[2], sys.argv[3], False, 3, 2, 4, 0.5, 0.4, 1, int(sys.argv[4]))\n")
        got = []
        for k, (hs, np_) in enumerate([(0, 1), (1 + spec["i"], 1), (0, 2)]):
            out_dir = os.path.join(tmp, f"r{k}")
            env = dict(os.environ, PYTHONHASHSEED=str(hs))
            p = subprocess.run([sys.executable, "-W", "ignore", "-c", code, out_dir, base, scen, str(np_)], env=env, capture_output=True, text=True, timeout=200, cwd=tmp)
            if p.returncode == 77:
                c["searches without valid neighbours"] += 1
                return core.Outcome(out, c, False, "-")
            if p.returncode:
                out.append(("a search fails", f"hash seed {hs}, {np_} processes: {p.stderr.strip()[-300:]}"))
                return core.Outcome(out, c, True, "-")
            with open(os.path.join(out_dir, "optimization_results.json")) as f:
                r = json.load(f)
            got.append([(g, e["hash"], e["fitness"], e["agg_fitness"]) for g, v in r.items() for e in v.values()])
            c[f"searches in other processes ({np_} workers)"] += 1
        for k, what in ((1, "another hash seed"), (2, "two worker processes")):
            if got[0] != got[k]:
                i = next((i for i, (x, y) in enumerate(zip(got[0], got[k])) if x != y), min(len(got[0]), len(got[k])))
                out.append(("the same seed leads to another search with " + what, f"{got[0][i:i + 1]} {got[k][i:i + 1]}"))
    return core.Outcome(out, c, True, core.digest(json.dumps(got[0])))


EV = dict(search=ev_search, evaluate=ev_evaluate, tabu=ev_tabu, pareto=ev_pareto, process=ev_process)


def evaluate(spec):
    adapters.ProductionSystemAdapter.model_config["validate_assignment"] = False
    return EV[spec["kind"]](spec)


def definition():
    def cases(seed, tier):
        q = tier == "quick"
        out = []
        for i in range(36 if q else 1500):
            rng = random.Random(f"P24/{seed}/{i}")
            m = ["evolution", "evolution", "annealing", "tabu"][i % 4]
            out.append(dict(kind="search", method=m, profile=PROFILES[(i // 4) % len(PROFILES)], seed=f"P24/{seed}/{i}", search_seed=rng.randrange(1000), n_seeds=rng.choice([1, 1, 2, 3]),
                            steps=rng.choice([1, 2, 3]) if m != "annealing" else 2, size=rng.choice([4, 8, 6, 10, 5]) if m == "evolution" else rng.choice([3, 5, 8]),
                            mutation=rng.choice([0.2, 0.6]), crossover=rng.choice([0.1, 0.4]), again=i % 3 == 0, max_score=rng.choice([1e9, 5])))
        for i in range(40 if q else 2000):
            out.append(dict(kind="evaluate", profile=PROFILES[i % len(PROFILES)], seed=f"P24e/{seed}/{i}", n_seeds=1 + i % 3, steps=8))
        out += [dict(kind="tabu", seed=f"P24t/{seed}/{i}", n=150) for i in range(8 if q else 200)]
        out += [dict(kind="pareto", seed=f"P24p/{seed}/{i}", n=200) for i in range(8 if q else 200)]
        out += [dict(kind="process", i=i, profile=PROFILES[i % len(PROFILES)], seed=f"P24r/{seed}/{i}") for i in range(4 if q else 40)]
        return out
    return dict(cases=cases, evaluate=evaluate,
                required=["searches: " + m for m in CALL] + ["candidates recomputed", "candidates met again", "invalid candidates", "results", "searches repeated", "best solutions reported", "evaluations",
                                                             "small worlds", "moves", "Pareto sets", "tables of results"] + ["objective " + o for o in BEST],
                rule="a search (evolution, annealing, tabu) on a generated baseline and scenario, every evaluated candidate re-simulated from its file; distinct = different sequence of evaluated configurations",
                assumptions=["plans are lists (hashing graph plans is refused by the code)", "objectives throughput, cost, WIP and throughput time (others are not implemented by the optimisation)"])
