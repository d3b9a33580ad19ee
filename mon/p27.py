"""P27: episodes of the control environments, stepped by a random agent and watched from outside."""
import collections
import functools
import random
import types

import numpy as np
import simpy
from simpy import events

from mon import core, gen, oracles, oracles2, simcheck, trace
from prodsys.control import routing_control_env, sequencing_control_env
from prodsys.simulation import control as control_module
from prodsys.simulation import request as request_module
from prodsys.simulation import router as router_module
from prodsys.simulation import resources as resources_module
from prodsys.util import runner as runner_module

MIX = ["base", "busy", "tight", "fail", "setup", "multi", "link", "rework", "zero", "charge", "queues", "names"]
ROUTING_MIX = MIX + ["store", "aux", "auxstore", "batch"]
SEQUENCING_MIX = MIX + ["batch", "batchpure", "batchrework", "vehicles", "aux", "store"]
ORACLES = [oracles.p01, oracles.p02, oracles.p03, oracles.p04, oracles.p05, oracles.p06, oracles.p08]


def stop_at(env, t):
    """Ends a run at a time exactly as run(t) does."""
    e = events.Event(env)
    e._ok, e._value = True, None
    env.schedule(e, events.URGENT, t - env.now)
    e.callbacks.append(simpy.core.StopSimulation.callback)


class Agent:
    """The decisions of an episode, made from a seed or repeated."""

    def __init__(self, seed, invalid, c, out):
        self.rng = random.Random(seed)
        self.invalid = invalid
        self.c, self.out = c, out
        self.made = []
        self.now = 0.0
        self.watch = True

    def bad(self, kind, msg):
        if len(self.out) < 20:
            self.out.append((kind, msg[:700]))

    def time(self, now):
        if now < self.now:
            self.bad("time moves backwards", f"from {self.now} to {now}")
        self.now = now


class Common:
    """The parts a user has to define."""
    horizon = 0

    def get_observation(self):
        return np.zeros(1)

    def get_info(self):
        return dict(now=self.runner.env.now)

    def get_termination_condition(self):
        return self.runner.env.now >= self.horizon


class RoutingEnv(Common, routing_control_env.AbstractRoutingControlEnv):
    def get_reward(self, invalid_action=False):
        self.last_invalid = invalid_action
        return 0.0


class SequencingEnv(Common, sequencing_control_env.AbstractSequencingControlEnv):
    def get_reward(self, processed_request, invalid_action=False):
        self.last_invalid = invalid_action
        self.processed = processed_request
        return 0.0


def prepare(env, horizon, started):
    env.horizon = horizon
    orig = env.runner.initialize_simulation

    def init():
        orig()
        stop_at(env.runner.env, horizon)
        started(env.runner)
    env.runner.initialize_simulation = init


# ------------------------------------------------------------------------------- routing
class RoutingWatch:
    """Every request is the outcome of exactly one decision and goes where it was decided."""

    def __init__(self, agent):
        self.a = agent
        self.production, self.transport = {}, {}
        self.outstanding = []

    def install(self, env):
        orig = env.request_process_of_resource

        def requested(request):
            self.requested(request)
            return orig(request)
        env.request_process_of_resource = requested

    def decided(self, offered, allowed):
        item = offered[0].product.product_data.ID
        is_transport = isinstance(offered[0], request_module.TransportResquest)
        d = self.transport if is_transport else self.production
        if item in d:
            self.a.bad("a decision is asked for twice", f"{item} at {self.a.now}")
        d[item] = set(allowed)
        self.a.c["transport decisions" if is_transport else "production decisions"] += 1
        if len({r.resource.data.ID for r in offered}) > 1:
            self.a.c["transport choices" if is_transport else "production choices"] += 1

    def requested(self, request):
        item = request.product.product_data.ID
        rid = request.resource.data.ID
        if isinstance(request, request_module.TransportResquest):
            allowed = self.transport.pop(item, None)
            self.a.c["transport requests"] += 1
            target = request.target.data.ID
            if item in self.production and isinstance(request.target, resources_module.ProductionResource):
                if target not in self.production[item]:
                    self.a.bad("a product is taken elsewhere than decided", f"{item} to {target} instead of {sorted(self.production[item])} at {self.a.now}")
                self.production[item] = {target}
        else:
            allowed = self.production.pop(item, None)
            self.a.c["production requests"] += 1
        if allowed is None:
            self.a.bad("a resource is requested without a decision", f"{item} requests {rid} at {self.a.now}")
        elif rid not in allowed:
            self.a.bad("another resource is requested than decided", f"{item} requests {rid} instead of {sorted(allowed)} at {self.a.now}")


def routing_step(env, agent, watch):
    """One decision; returns whether the episode has ended."""
    offered = list(env.possible_requests)
    res = [r.data.ID for r in env.runner.resource_factory.resources]
    ids = sorted({r.resource.data.ID for r in offered})
    if len({(id(r.product), isinstance(r, request_module.TransportResquest)) for r in offered}) != 1:
        agent.bad("a decision mixes several items", str([(r.product.product_data.ID, r.resource.data.ID) for r in offered]))
    others = [r for r in res if r not in ids]
    invalid = bool(others) and agent.rng.random() < agent.invalid
    chosen = agent.rng.choice(others if invalid else ids)
    action = np.array([agent.rng.random() * 0.5 for _ in res])
    action[res.index(chosen)] = 1
    watch.decided(offered, ids if invalid else [chosen])
    check_observers(env, agent, env.observers)
    reply = env.step(action)
    agent.time(env.runner.env.now)
    agent.c["steps"] += 1
    agent.c["invalid actions"] += invalid
    if env.last_invalid != invalid:
        agent.bad("an action is taken for invalid that is not, or the reverse", f"{chosen} of {ids} at {agent.now}")
    agent.made.append(env.chosen_resource.data.ID)
    if env.chosen_resource.data.ID not in ids or (not invalid and env.chosen_resource.data.ID != chosen):
        agent.bad("another resource is chosen than by the agent", f"{env.chosen_resource.data.ID} instead of {chosen} of {ids}")
    return check_reply(env, agent, reply)


def check_reply(env, agent, reply):
    obs, reward, terminated, truncated, info = reply
    if bool(terminated) != (env.runner.env.now >= env.horizon) or truncated:
        agent.bad("the end of the episode is reported wrongly", f"{terminated}, {truncated} at {env.runner.env.now} of {env.horizon}")
    if info != dict(now=env.runner.env.now):
        agent.bad("the information is not of this step", str(info))
    return terminated


def routing_episode(env, agent, steps=None, seed=None):
    watch = RoutingWatch(agent)
    env.watch = watch
    agent.now = 0.0
    env.reset(seed=seed)
    agent.time(env.runner.env.now)
    done = env.runner.env.now >= env.horizon
    while not done and (steps is None or steps > 0):
        done = routing_step(env, agent, watch)
        if steps is not None:
            steps -= 1


def routing_replay(tr, adapter, horizon, started, made):
    """The same decisions as a policy inside one uninterrupted run."""
    r = runner_module.Runner(adapter=adapter)
    r.initialize_simulation()
    started(r)
    left = list(made)
    fake = types.SimpleNamespace(runner=r, possible=None)

    def decide(event):
        renew()
        if not left:
            raise trace.Aborted("more decisions than in the episode")
        choice = left.pop(0)
        fake.possible.sort(key=lambda q: q.resource.data.ID == choice, reverse=True)

    def renew():
        fake.interrupt_simulation_event = events.Event(r.env)
        fake.interrupt_simulation_event.callbacks.append(decide)
    fake.set_possible_requests = lambda requests: setattr(fake, "possible", requests)
    renew()
    agent_router = router_module.Router(r.resource_factory, r.sink_factory, r.auxiliary_factory, functools.partial(router_module.agent_routing_heuristic, fake), r.product_factory)
    for s in r.source_factory.sources:
        s.router = agent_router
    r.run(horizon)
    return r


# ------------------------------------------------------------------------------- sequencing
class SequencingWatch(trace.LiveMonitor):
    """Every job that a controller takes from its requests is the one decided last."""

    def __init__(self, agent, rid, batch_size):
        self.a, self.rid, self.batch = agent, rid, batch_size
        self.pending = None
        self.prev = []

    def start(self, tr, runner):
        self.controller = runner.resource_factory.get_resource(self.rid).get_controller()
        self.pending, self.prev = None, []

    def group(self, r):
        return (r.get_process().process_data.ID, r.get_product().product_data.product_type)

    def decided(self, allowed):
        if self.pending is not None and self.batch is None:
            self.a.bad("a decision is asked for twice", f"{self.rid} at {self.a.now}")
        if self.batch is not None:
            rs = self.controller.requests
            allowed = [x for x in allowed if sum(1 for r in rs if self.group(r) == self.group(x)) >= self.batch]
            if not allowed:
                allowed = list(rs)
        self.pending = allowed

    def step(self, tr, runner, env):
        now = self.controller.requests
        if len(now) == len(self.prev) and (not now or now[-1] is self.prev[-1]) and (not now or now[0] is self.prev[0]):
            return
        ids = {id(x) for x in now}
        gone = [x for x in self.prev if id(x) not in ids]
        self.prev = list(now)
        if not gone:
            return
        self.a.c["jobs taken"] += len(gone)
        if self.pending is None:
            self.a.bad("a job is taken without a decision", f"{self.rid}: {gone[0].product.product_data.ID} at {env.now}")
        elif not any(x is y for x in gone for y in self.pending):
            self.a.bad("another job is taken than decided", f"{self.rid}: {gone[0].product.product_data.ID} instead of {[x.product.product_data.ID for x in self.pending]} at {env.now}")
        if self.batch is None and len(gone) != 1 or self.batch is not None and len(gone) != self.batch:
            self.a.bad("a decision starts another number of jobs", f"{self.rid}: {len(gone)} at {env.now}")
        self.pending = None


def sequencing_step(env, agent, watch):
    rs = list(env.resource_controller.requests)
    watch.step(None, None, env.runner.env)
    n = len(rs)
    invalid = agent.rng.random() < agent.invalid
    k = n + agent.rng.randrange(3) if invalid else agent.rng.randrange(n)
    action = np.array([agent.rng.random() * 0.5 for _ in range(n + 4)])
    action[k] = 1
    watch.decided(rs if invalid else [rs[k]])
    agent.c["decisions with a choice"] += n > 1
    check_observers(env, agent, [env.observer])
    reply = env.step(action)
    agent.time(env.runner.env.now)
    agent.c["steps"] += 1
    agent.c["invalid actions"] += invalid
    if env.last_invalid != invalid:
        agent.bad("an action is taken for invalid that is not, or the reverse", f"{k} of {n} at {agent.now}")
    at = [i for i, r in enumerate(rs) if r is env.processed]
    if len(at) != 1 or (not invalid and at[0] != k):
        agent.bad("another job is chosen than by the agent", f"{at} instead of {k} of {n}")
    agent.made.append(at[0] if at else 0)
    return check_reply(env, agent, reply)


def sequencing_episode(env, agent, watch, steps=None, seed=None):
    agent.now = 0.0
    env.reset(seed=seed)
    agent.time(env.runner.env.now)
    done = env.runner.env.now >= env.horizon
    while not done and (steps is None or steps > 0):
        done = sequencing_step(env, agent, watch)
        if steps is not None:
            steps -= 1


def sequencing_replay(tr, adapter, horizon, started, made, rid):
    r = runner_module.Runner(adapter=adapter)
    r.initialize_simulation()
    started(r)
    left = list(made)

    controller = r.resource_factory.get_resource(rid).get_controller()
    fake = types.SimpleNamespace(runner=r)

    def decide(event):
        renew()
        if not left:
            raise trace.Aborted("more decisions than in the episode")
        k = left.pop(0)
        if k >= len(controller.requests):
            raise trace.Aborted("a decision that is not possible")
        controller.requests.insert(0, controller.requests.pop(k))

    def renew():
        fake.interrupt_simulation_event = events.Event(r.env)
        fake.interrupt_simulation_event.callbacks.append(decide)
    renew()
    controller.control_policy = functools.partial(control_module.agent_control_policy, fake)
    r.run(horizon)
    return r


# ------------------------------------------------------------------------------- observations
def check_observers(env, agent, observers):
    """What the observers tell is what is there."""
    if agent.rng.random() > 0.15 or not agent.watch:
        return
    for o in agent.rng.sample(observers, min(2, len(observers))):
        r = o.resource
        agent.c["observations"] += 1
        rid = r.data.ID
        got = collections.Counter((p.process, p.product) for p in o.observe_processes())
        want = collections.Counter()
        for i in running(env.runner, rid, [s.state_data.ID for s in r.production_states]):
            want[i] += 1
        if not same_running(got, want, env.runner.env.now, env.runner, r.data):
            agent.bad("observed processes are not those running", f"{rid} at {env.runner.env.now}: observed {dict(got)}, running {dict(want)}")
        agent.c["observed running processes"] += sum(got.values())
        for name, queues, f in (("input", getattr(r, "input_queues", []), o.observe_input_queue), ("output", getattr(r, "output_queues", []), o.observe_output_queue)):
            if not queues:
                continue
            want = [x.ID for q in queues for x in q.items if x.ID in {p.product_data.ID for p in env.runner.product_factory.products}]
            if len(want) != sum(len(q.items) for q in queues):
                continue  # auxiliaries in a store
            got = f()
            agent.c[f"observed products in {name} queues"] += len(want)
            if [x.product for x in got] != want:
                agent.bad("observed queue is not the content of the queue", f"{rid} {name}: {[x.product for x in got]} instead of {want}")


def running(runner, rid, states):
    """Jobs open according to the log: (state, product)."""
    open_ = collections.OrderedDict()
    for e in runner.event_logger.event_data:
        if e["Resource"] != rid or e["State"] not in states:
            continue
        a = trace._s(e["Activity"])
        if a in ("start state", "end interrupt"):
            open_[(e["State"], e["Product"])] = True
        elif a == "end state":
            open_.pop((e["State"], e["Product"]), None)
    return list(open_)


def same_running(got, want, now, runner, data):
    if got == want:
        return True
    # a job that has been given to the resource but cannot start yet (down time) is observed, too
    waiting = got - want
    queued = {x.ID for q in runner.queue_factory.queues for x in q.items} if data.controller != "TransportController" else set()
    if not want - got and all(k[1] not in queued for k in waiting) and sum(got.values()) <= data.capacity:
        return True
    # at the instants of start and end the log may be ahead or behind
    last = [e for e in reversed(runner.event_logger.event_data)][:60]
    changed = {(e["State"], e["Product"]) for e in last if e["Time"] == now}
    return all(k in changed or k[0] in {c[0] for c in changed} for k in (got - want) + (want - got))


# ------------------------------------------------------------------------------- cases
def table(tr):
    return [(r.t, r.res, r.state, r.stype, r.act, r.prod, r.exp, r.orig, r.targ, r.empty) for r in tr.rows]


def compare(out, kind, a, b, c):
    c["log rows compared"] += len(a.rows)
    if a.crash or b.crash:
        if (a.crash or [None])[:2] != (b.crash or [None])[:2]:
            out.append((kind, f"one fails: {a.crash} / {b.crash}"))
        return
    x, y = table(a), table(b)
    if x != y:
        k = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
        out.append((kind, f"{len(x)} and {len(y)} rows, first difference at row {k}: {x[k:k + 1]} / {y[k:k + 1]}"[:900]))


def evaluate(spec):
    out, c = [], collections.Counter(runs=1)
    rng = random.Random(spec["seed"] + "/case")
    data = gen.generate(spec["seed"], simcheck.PROFILES[spec["profile"]])
    horizon = data["_horizon"] / 2
    invalid = rng.choice([0, 0, 0.15])
    agents = rng.randrange(10**9), rng.randrange(10**9)
    warm = rng.randint(1, 40)
    gym_seed = rng.randrange(1000)
    if spec["kind"] == "routing":
        def episodes(first):
            def drive(tr, adapter, h, started):
                env = RoutingEnv(adapter)

                def begin(runner):
                    env.watch.install(runner.env)
                    started(runner)
                prepare(env, h, begin)
                if first:
                    routing_episode(env, Agent(agents[1], invalid, collections.Counter(), []), warm, gym_seed + 1)
                    c["resets within an episode"] += 1
                a = Agent(agents[0], invalid, c if not first else collections.Counter(), out)
                tr.agent = a
                routing_episode(env, a, seed=gym_seed)
                return env.runner
            return drive
        mk = lambda first: ([oracles.PlaceMonitor()], episodes(first))
        replay = lambda made: functools.partial(routing_replay, made=made)
    else:
        res = rng.choice(data["resource_data"])
        many = [r for r in data["resource_data"] if len(r["process_ids"]) > 1 or r["controller"] == "BatchController"]
        if many and rng.random() < 0.5:
            res = rng.choice(many)
        rid, batch = res["ID"], res.get("batch_size")
        c["controlled " + res["controller"]] += 1

        def make(first):
            a = Agent(agents[0], invalid, c if not first else collections.Counter(), out)
            w = SequencingWatch(a, rid, batch)

            def drive(tr, adapter, h, started):
                env = SequencingEnv(adapter, rid)
                prepare(env, h, started)
                if first:
                    w.a = Agent(agents[1], invalid, collections.Counter(), [])
                    sequencing_episode(env, w.a, w, warm, gym_seed + 1)
                    w.a = a
                    c["resets within an episode"] += 1
                tr.agent = a
                sequencing_episode(env, a, w, seed=gym_seed)
                return env.runner
            return [w], drive
        mk = make
        replay = lambda made: functools.partial(sequencing_replay, made=made, rid=rid)
    monitors, drive = mk(False)
    tr = trace.run(data, monitors, horizon, drive=drive)
    if tr.crash and tr.crash[0] != "budget":
        out.append((f"an episode on a valid configuration fails in {tr.crash[0]}", str(tr.crash[1:])))
    if tr.monitor_errors:
        c["monitor disabled"] += 1
    made = tr.agent.made if hasattr(tr, "agent") else []
    if not out and not tr.crash:
        rep = trace.run(data, [], horizon, drive=replay(made))
        c["replays"] += 1
        compare(out, "stepping gives another simulation than the same decisions as a policy", tr, rep, c)
        monitors2, drive2 = mk(True)
        again = trace.run(data, monitors2, horizon, drive=drive2)
        compare(out, "an episode after a reset differs", tr, again, c)
    if not out and not tr.crash and spec["kind"] == "routing":
        for f in ORACLES:
            v, k = f(tr)
            c["oracles of the simulation"] += 1
            out += [(f"{f.__name__}: {x[0]}",) + tuple(x[1:2]) for x in v[:3]]
    sig = core.digest((spec["kind"], made[:200]))
    return core.Outcome(out[:10], c, c["steps"] > 3, sig, dict(spec=spec, decisions=[str(x) for x in made[:8]], observed=dict(c)))


def definition():
    def cases(seed, tier):
        n = 360 if tier == "quick" else 6000
        out = []
        for i in range(n):
            kind = ("routing", "sequencing")[i % 2]
            mix = ROUTING_MIX if kind == "routing" else SEQUENCING_MIX
            out.append(dict(kind=kind, profile=mix[i // 2 % len(mix)], seed=f"P27/{seed}/{i}"))
        return out
    return dict(cases=cases, evaluate=evaluate,
                required=["steps", "production decisions", "transport decisions", "production choices", "transport choices", "decisions with a choice", "jobs taken", "invalid actions", "replays",
                          "resets within an episode", "observations", "observed running processes", "observed products in input queues", "observed products in output queues",
                          "controlled PipelineController", "controlled TransportController", "controlled BatchController"],
                rule="one configuration with one agent in one environment, three runs each; distinct = another sequence of decisions",
                assumptions=["the agent decides from a seed; the parts a user defines (observation, reward, end) are trivial here",
                             "arrivals never end before the episode does"])
