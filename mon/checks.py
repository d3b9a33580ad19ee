"""Registry: property -> check definition."""
import importlib

from mon import oracles, oracles2, simcheck

DIST = "distinct = the full sequence of log entries (time, place, activity, product) differs"

_REG = {}


def sim(prop, *a, **k):
    _REG[prop] = lambda: simcheck.make(prop, *a, **k)


ALL = [("base", 3), ("busy", 1), ("tight", 1), ("fail", 1), ("setup", 1), ("link", 1), ("rework", 1), ("multi", 1),
       ("store", 1), ("aux", 1), ("zero", 1), ("batch", 1), ("charge", 1), ("drain", 1), ("vehicles", 1), ("queues", 1), ("names", 1)]
NOV = [x for x in ALL if x[0] != "vehicles"]

sim("P01", oracles.p01, ALL, 1000, 30000, ["created", "finished", "located"],
    "a random configuration simulated to its horizon; " + DIST, nontrivial=lambda c: c["finished"] > 0)
sim("P02", oracles.p02, ALL, 1000, 30000, ["plan steps", "complete plans", "plan kind list", "plan kind graph", "rework jobs"],
    "a random configuration simulated to its horizon; " + DIST, nontrivial=lambda c: c["complete plans"] > 0)
sim("P03", oracles.p03, NOV, 1000, 30000, ["loaded moves", "operations", "finished", "vehicle moves"],
    "a random configuration simulated to its horizon; " + DIST, nontrivial=lambda c: c["loaded moves"] > 0)
sim("P04", oracles.p04, [("base", 1), ("multi", 3), ("vehicles", 2), ("busy", 2), ("fail", 1), ("setup", 1), ("batch", 1), ("zero", 1), ("link", 1), ("tight", 1)],
    1000, 30000, ["starts", "at capacity", "concurrent starts", "starts under process limit"],
    "a random configuration simulated to its horizon; " + DIST, nontrivial=lambda c: c["at capacity"] > 0)
sim("P05", oracles.p05, [("tight", 6), ("store", 3), ("queues", 2), ("busy", 1), ("batch", 1), ("rework", 1), ("link", 1)],
    1000, 30000, ["live", "full", "blocked", "starts at finite output"],
    "a random configuration simulated to its horizon with all buffers watched after every event; " + DIST,
    nontrivial=lambda c: c["full"] > 0, extra=dict(p_finite=0.8))
sim("P06", oracles.p06, ALL, 1000, 30000, ["rows", "complete jobs", "interrupted jobs", "open jobs", "products"],
    "a random configuration simulated to its horizon; " + DIST)
sim("P07", oracles.p07, [("base", 2), ("fail", 4), ("multi", 2), ("setup", 1), ("busy", 1), ("zero", 1), ("start", 2), ("aux", 1)], 1000, 30000,
    ["ended", "interruptions", "interrupted repeatedly", "open", "matched"],
    "a random configuration simulated to its horizon; " + DIST, nontrivial=lambda c: c["ended"] > 0)
sim("P08", oracles.p08, [("fail", 5), ("setup", 1), ("start", 1), ("multi", 1), ("link", 1), ("batch", 1), ("planned", 2)], 1000, 30000,
    ["breakdowns", "process breakdowns", "interruptions", "resumed", "repairs", "overlapping failures"],
    "a random configuration simulated to its horizon; " + DIST, nontrivial=lambda c: c["interruptions"] > 0,
    extra=dict(p_breakdown=0.7, p_pbreakdown=0.5))
sim("P09", oracles.p09, [("setup", 5), ("fail", 1), ("multi", 1), ("batch", 1)], 1000, 30000,
    ["changeovers", "jobs", "changeover times", "interrupted changeovers"],
    "a random configuration simulated to its horizon; " + DIST, nontrivial=lambda c: c["changeovers"] > 0,
    extra=dict(p_setup=0.95))
_R = "a random configuration simulated to its horizon; "
sim("P10", oracles2.p10, [("link", 5), ("base", 3), ("store", 2), ("aux", 1), ("fail", 1), ("zero", 1)], 1000, 30000,
    ["link steps", "paths", "paths over several links"], _R + DIST)
sim("P11", oracles2.p11, [("aux", 4), ("auxstore", 3), ("auxmulti", 1)], 1000, 30000, ["assignments", "fetched", "returned", "guarded products"], _R + DIST,
    monitors=[oracles.PlaceMonitor, oracles2.AuxMonitor])
sim("P12", oracles2.p12, [("rework", 5), ("reworkbusy", 4), ("batchrework", 1)], 1000, 30000,
    ["rework jobs", "blocking reworks", "non-blocking reworks", "executions"], _R + DIST, monitors=[oracles2.ReworkMonitor],
    nontrivial=lambda c: c["rework jobs"] > 0, final=oracles2.p12_final)
sim("P13", oracles2.p13, [("batch", 5), ("batchpure", 3), ("batchrework", 2)], 1000, 30000, ["batches", "choices among complete batches"], _R + DIST,
    monitors=[oracles2.BatchMonitor], nontrivial=lambda c: c["batches"] > 0)
sim("P14", oracles2.p14, [("clean", 3), ("nearest", 3)], 1000, 30000,
    ["production FIFO", "production LIFO", "production SPT", "transport FIFO", "transport SPT", "transport nearest"], _R + DIST,
    monitors=[oracles2.PolicyMonitor], nontrivial=lambda c: sum(c.values()) > 0)
sim("P15", oracles2.p15, [("choices", 4), ("qchoice", 2), ("tight", 2), ("base", 2), ("link", 1), ("busy", 1), ("multi", 1)], 1000, 30000,
    ["operations judged"], _R + DIST, monitors=[oracles2.RoutingMonitor],
    nontrivial=lambda c: c["operations judged"] > 0, final=oracles2.p15_final)
sim("P16", oracles2.p16, [("drain0", 3), ("drainqueues", 1), ("drainline", 3), ("drainaux", 2), ("drainfail", 3), ("draincharge", 1), ("drainveh", 1), ("base", 2), ("busy", 2), ("tight", 1)],
    1000, 30000, ["waiting spans", "waiting at a busy resource", "drained runs"],
    "a random configuration simulated to its horizon or until it has run empty; " + DIST, run_kw=dict(drain=True))


def own(prop):
    """A check with its own module (imported only when it runs)."""
    _REG[prop] = lambda: importlib.import_module("mon." + prop.lower()).definition()


for _p in ("P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P25", "P26", "P27", "P28", "P29"):
    own(_p)


def get(prop):
    return _REG[prop]()


def known():
    return sorted(_REG)
