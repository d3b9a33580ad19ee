"""Runs the real simulator on one configuration and records what happened.

Observation points: the event log (public data frame), live buffers / products /
auxiliaries after every simulation event, and values delivered by time models.
"""
import copy
import logging
import os
import random
import warnings

warnings.filterwarnings("ignore")
import numpy as np

import prodsys  # noqa
from prodsys.simulation import sim, time_model as _tm
from prodsys.util import runner as runner_module
from prodsys.adapters.json_adapter import JsonProductionSystemAdapter
from prodsys.models import queue_data as _qd

sim.VERBOSE = 0
logging.disable(logging.CRITICAL)
EPS = 1e-6


class Livelock(Exception):
    pass


class Aborted(Exception):
    pass


def build(data):
    """Configuration data -> adapter (stores as StoreData objects)."""
    d = {k: copy.deepcopy(v) for k, v in data.items() if not k.startswith("_")}
    d["queue_data"] = [(_qd.StoreData if "location" in q else _qd.QueueData)(**q) for q in d["queue_data"]]
    return JsonProductionSystemAdapter(**d)


# ---- observation of delivered times -------------------------------------------------
_DRAWS = None


def _subclasses(c):
    out = []
    for s in c.__subclasses__():
        out.append(s)
        out += _subclasses(s)
    return out


def _install():
    depth = [0]

    def wrap(orig):
        def get_next_time(self, *a, **k):
            if _DRAWS is None:
                return orig(self, *a, **k)
            depth[0] += 1
            try:
                v = orig(self, *a, **k)
            finally:
                depth[0] -= 1
            if depth[0] == 0 and _DRAWS is not None:
                _DRAWS.append((self.time_model_data.ID, float(v), id(self)))
            return v
        return get_next_time
    for c in _subclasses(_tm.TimeModel):
        if "get_next_time" in c.__dict__:
            setattr(c, "get_next_time", wrap(c.__dict__["get_next_time"]))


_install()

_STEP_CB = None
_orig_step = sim.Environment.step


def _step(self):
    _orig_step(self)
    if _STEP_CB is not None:
        _STEP_CB(self)


sim.Environment.step = _step


class Row:
    __slots__ = ("i", "t", "res", "state", "stype", "act", "prod", "exp", "orig", "targ", "empty")

    def __init__(self, i, r):
        self.i = i
        self.t = float(r["Time"])
        self.res = r["Resource"]
        self.state = r["State"]
        self.stype = _s(r["State Type"])
        self.act = _s(r["Activity"])
        self.prod = _none(r["Product"])
        self.exp = _num(r["Expected End Time"])
        self.orig = _none(r["Origin location"])
        self.targ = _none(r["Target location"])
        self.empty = r["Empty Transport"]
        if self.empty is not True and self.empty is not False:
            self.empty = None if (self.empty is None or self.empty != self.empty) else bool(self.empty)

    def __repr__(self):
        return (f"<{self.i} t={self.t:.6g} {self.res}/{self.state} {self.stype} '{self.act}' {self.prod}"
                + (f" {self.orig}->{self.targ} empty={self.empty}" if self.targ else "")
                + (f" exp={self.exp:.6g}" if self.exp is not None else "") + ">")


def _s(x):
    return getattr(x, "value", x)


def _none(x):
    if x is None or x == "" or (isinstance(x, float) and x != x):
        return None
    return x


def _num(x):
    try:
        x = float(x)
    except (TypeError, ValueError):
        return None
    return None if x != x else x


def rows_of(runner):
    df = runner.event_logger.get_data_as_dataframe()
    for c in ("Origin location", "Target location", "Empty Transport", "Expected End Time"):
        if c not in df.columns:
            df[c] = None
    return [Row(i, r) for i, r in enumerate(df.to_dict("records"))]


class Job:
    """One job of a resource state: working intervals plus interruptions."""
    __slots__ = ("res", "state", "stype", "prod", "segs", "ints", "end", "exp", "orig", "targ", "empty", "first", "last", "open_seg", "open_int", "zero", "iexp")

    def __init__(self, r):
        self.res, self.state, self.stype, self.prod = r.res, r.state, r.stype, r.prod
        self.orig, self.targ, self.empty = r.orig, r.targ, r.empty
        self.segs, self.ints = [], []
        self.exp = []
        self.iexp = []    # expected ends logged at the ends of interruptions
        self.end = None
        self.first = r
        self.last = r
        self.open_seg = None
        self.open_int = None
        self.zero = False

    @property
    def start(self):
        return self.first.t

    def worked(self, until=None):
        w = sum(b - a for a, b in self.segs)
        if self.open_seg is not None and until is not None:
            w += until - self.open_seg
        return w

    def __repr__(self):
        return f"Job({self.res}/{self.state} {self.prod} {self.start:.6g}..{self.end if self.end is None else round(self.end, 6)} segs={[(round(a,6),round(b,6)) for a,b in self.segs]} {self.orig}->{self.targ} empty={self.empty})"


WORK = ("Production", "Transport", "Setup", "Breakdown", "ProcessBreakdown", "Charging")


def jobs_of(rows):
    """Replay the log into jobs. Returns (jobs, grammar_errors)."""
    open_, jobs, errs = {}, [], []
    for r in rows:
        if r.stype not in WORK or r.act not in ("start state", "start interrupt", "end interrupt", "end state"):
            continue
        key = (r.res, r.state, r.prod)
        j = open_.get(key)
        if r.act == "start state":
            if j is None:
                j = Job(r)
                j.open_seg = r.t
                j.exp.append(r.exp)
                open_[key] = j
                jobs.append(j)
            elif j.open_seg is None and j.open_int is None:
                if abs(j.ints[-1][1] - r.t) > EPS:
                    errs.append(f"restart not at end of interruption: {r}")
                j.open_seg = r.t
                j.exp.append(r.exp)
            else:
                errs.append(f"start of a job already {'running' if j.open_seg is not None else 'interrupted'}: {r}")
        elif r.act == "start interrupt":
            if j is None or j.open_seg is None:
                errs.append(f"interruption of a job that is not running: {r}")
            else:
                j.segs.append((j.open_seg, r.t))
                j.open_seg = None
                j.open_int = r.t
        elif r.act == "end interrupt":
            if j is None or j.open_int is None:
                errs.append(f"end of interruption without interruption: {r}")
            else:
                j.ints.append((j.open_int, r.t))
                j.iexp.append(r.exp)
                j.open_int = None
        else:
            if j is None:
                j = Job(r)
                j.zero = True
                j.end = r.t
                j.segs.append((r.t, r.t))
                jobs.append(j)
            else:
                if j.open_seg is None:
                    # remaining time may be zero: ends right after the interruption
                    if j.open_int is not None or not j.ints or abs(j.ints[-1][1] - r.t) > EPS:
                        errs.append(f"end of a job that is not running: {r}")
                else:
                    j.segs.append((j.open_seg, r.t))
                j.open_seg = None
                j.end = r.t
                del open_[key]
        if j is not None:
            j.last = r
            if r.stype != j.stype:
                errs.append(f"state type changes within a job: {r}")
            if r.stype == "Transport" and (r.orig, r.targ, r.empty) != (j.orig, j.targ, j.empty):
                errs.append(f"origin/target changes within a journey: {r}")
    return jobs, errs


class Trace:
    def __init__(self, data, horizon, seed=None):
        self.data = data
        self.horizon = horizon
        self.violations = []     # from live monitors: (prop, kind, message)
        self.crash = None
        self.steps = 0
        self.draws = []
        self.by_tm = {}

    def index(self):
        d = self.data
        self.P = {x["ID"]: x for x in d["process_data"]}
        self.R = {x["ID"]: x for x in d["resource_data"]}
        self.TM = {x["ID"]: x for x in d["time_model_data"]}
        self.ST = {x["ID"]: x for x in d["state_data"]}
        self.Q = {x["ID"]: x for x in d["queue_data"]}
        self.SRC = {x["ID"]: x for x in d["source_data"]}
        self.SNK = {x["ID"]: x for x in d["sink_data"]}
        self.N = {x["ID"]: x for x in d["node_data"]}
        self.PR = {x["ID"]: x for x in d["product_data"]}
        self.AUX = {x["ID"]: x for x in d.get("auxiliary_data") or []}

    def ptype(self, pid):
        return pid.rsplit("_", 1)[0]


class LiveMonitor:
    """Called after every simulation event with the environment and the runner."""
    def start(self, trace, runner):
        pass

    def step(self, trace, runner, env):
        pass

    def finish(self, trace, runner):
        pass


MAX_SAME_T = 20000
MAX_STEPS = 400000


def run(data, monitors=(), horizon=None, draws=True, prepare=None, splits=None, drain=None, drive=None):
    """Run the configuration to the horizon. Never raises for failures of the simulator."""
    global _DRAWS, _STEP_CB
    horizon = horizon if horizon is not None else data["_horizon"]
    tr = Trace(data, horizon)
    tr.index()
    stage = "build"
    runner = None
    st = dict(t=None, n=0)
    live = list(monitors)
    tr.monitor_errors = []
    tr.cleanup = []

    def cb(env):
        tr.steps += 1
        if env.now == st["t"]:
            st["n"] += 1
            if st["n"] > MAX_SAME_T:
                raise Livelock(f"more than {MAX_SAME_T} events at simulated instant {env.now}")
        else:
            st["t"] = env.now
            st["n"] = 0
        if tr.steps > MAX_STEPS:
            raise Aborted("step budget")
        for m in live:
            try:
                m.step(tr, runner, env)
            except Exception as e:  # the observation failed, not the simulator
                live.remove(m)
                tr.monitor_errors.append(f"{type(m).__name__}: {type(e).__name__}: {e}")
                break

    try:
        adapter = build(data)
        if drive:
            # someone else drives the run and tells when the simulation was initialized
            def started(r):
                global _STEP_CB
                nonlocal runner
                runner = r
                st["t"], st["n"] = None, 0
                for m in live:
                    m.start(tr, r)
                _STEP_CB = cb
            stage = "run"
            if draws:
                _DRAWS = []
            runner = drive(tr, adapter, horizon, started)
            _STEP_CB = None
            stage = "driven"
        else:
            stage = "initialize"
            runner = runner_module.Runner(adapter=adapter)
            if draws:
                _DRAWS = []
            runner.initialize_simulation()
            for m in list(live):
                try:
                    m.start(tr, runner)
                except Exception as e:
                    live.remove(m)
                    tr.monitor_errors.append(f"{type(m).__name__}: {type(e).__name__}: {e}")
            if prepare:
                prepare(tr, runner)
            stage = "run"
            _STEP_CB = cb
            done = 0.0
            for part in (splits or []) + [horizon]:
                runner.run(part)
                done = part
            if drain:
                # arrivals have stopped: go on until everything is finished or the bound is reached
                tr.drained = False
                while True:
                    if not runner.product_factory.products and done >= horizon:
                        tr.drained = True
                        break
                    if done >= drain:
                        break
                    done += max(horizon, done) / 4
                    runner.run(done)
                tr.horizon = done
        _STEP_CB = None
        stage = "finish"
        for m in list(live):
            try:
                m.finish(tr, runner)
            except Exception as e:
                tr.monitor_errors.append(f"{type(m).__name__}: {type(e).__name__}: {e}")
    except Aborted as e:
        tr.aborted = str(e)
        tr.crash = ("budget", "Aborted", str(e), "")
    except BaseException as e:  # noqa: the simulator may fail in any way
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        import traceback
        tb = e.__traceback__
        frames = traceback.extract_tb(tb)
        where = [f"{os.path.basename(f.filename)}:{f.name}" for f in frames if "/prodsys/" in f.filename]
        c = e.__cause__ or e.__context__
        tr.crash = (stage, type(e).__name__, str(e)[:300], where[-1] if where else "")
    finally:
        _STEP_CB = None
        for f in reversed(tr.cleanup):
            f()
        tr.cleanup = []
        tr.draws = _DRAWS or []
        _DRAWS = None
    for tid, v, _ in tr.draws:
        tr.by_tm.setdefault(tid, []).append(v)
    tr.runner = runner
    tr.rows = []
    if runner is not None and stage in ("run", "finish"):
        try:
            tr.rows = rows_of(runner)
        except Exception as e:  # log unreadable
            if not tr.crash:
                tr.crash = ("log", type(e).__name__, str(e)[:300], "")
    tr.jobs, tr.grammar = jobs_of(tr.rows)
    return tr
