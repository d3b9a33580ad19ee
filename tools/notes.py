_SIM = "run-time monitoring: the real simulator on random hostile configurations, "
_LIM = "Sampled executions (about 1000 configurations per quick run, tens of thousands per thorough run); says nothing about configurations outside the generator's shape."
NOTES = {
 "P01": (_SIM + "live buffer monitor plus offline conservation checker over the event log", _LIM),
 "P02": (_SIM + "offline plan-automaton checker over the event log", _LIM),
 "P03": (_SIM + "offline whereabouts checker over the event log", _LIM),
 "P04": (_SIM + "offline concurrency-count checker over the event log", _LIM),
 "P05": (_SIM + "live buffer monitor after every event and blocked-slot accounting", _LIM),
 "P06": (_SIM + "offline grammar checker over the event log", _LIM),
 "P07": (_SIM + "recorded time-model deliveries matched against logged working times", _LIM),
 "P08": (_SIM + "offline failure/repair interval checker over the event log", _LIM),
 "P09": (_SIM + "offline setup-state replay over the event log", _LIM),
 "P10": (_SIM + "offline checker of every journey against an independent distance / shortest-path computation", _LIM),
 "P11": (_SIM + "live auxiliary monitor plus offline custody checker over the event log", _LIM),
 "P12": (_SIM + "recorded failures matched against executed reworks, aggregate failure frequency test", _LIM),
 "P13": (_SIM + "offline batch checker and live idle-batch monitor", _LIM + " Only demands with exactly one fulfilling offered process are judged."),
 "P14": (_SIM + "every decision of every policy compared with the waiting jobs of that instant", _LIM),
 "P15": (_SIM + "every routing decision recorded with candidates and buffer contents and compared with the execution", _LIM),
 "P16": (_SIM + "work-conservation checker over the event log and bounded drain runs", _LIM + " Liveness is decided within a generous simulated-time bound."),
 "P17": ("run-time monitoring: differential runs of the real simulator (same/other process, hash seed, split, interleaved, repeated) compared log by log", "Sampled configurations and schedules of runs; equality is exact."),
 "P18": (_SIM + "every reported figure recomputed from the event log by an independent implementation of its definition", "Sampled runs; the bucketed resource-state tables and the WIP per station are not judged here."),
 "P19": ("run-time monitoring: recorded deliveries of every kind of time model against its specification, moment tests over the whole sample", "Sampled models; distributional claims are decided by moment tests at a negligible false-alarm level."),
 "P20": ("run-time monitoring: configurations with every kind of element and option written, read back, compared field by field and simulated; express descriptions compared with the data they stand for", "Sampled configurations; express is judged on what it can say (list plans, one plain buffer pair per machine)."),
 "P21": ("run-time monitoring: consistent configurations accepted and simulated, single-fault variants of every kind of inconsistency offered to the real code until the simulation would start", "Sampled configurations and 50 kinds of inconsistency; any error before the start of the simulation counts as a rejection."),
 "P22": ("run-time monitoring: hashes of generated configurations compared under changes of naming (must stay) and single changes of function (must differ), after reading back and across processes", "Sampled configurations and 70 kinds of single change; list plans only; defects that the hashes asserted by the test suite forbid to repair are known findings."),
 "P23": ("run-time monitoring: a shadow model of the scenario judges every configuration the optimisation moves, crossovers and random generation propose, and a sample is simulated", "Walks of 14 moves from generated baselines with generated scenarios; baselines without link transports and stores; the optimisation's normalisation of buffers, process capacities and breakdown states is taken as intended."),
 "P24": ("run-time monitoring: every evaluation of a search recorded and the candidate re-simulated independently from its saved file; searches repeated and run in other processes; tabu moves replayed; Pareto marks recomputed", "Searches of some tens of evaluations on generated baselines and scenarios; objectives throughput, cost, WIP and throughput time; names of new machines are fixed by the harness when a search is repeated (known finding); the gurobi model is not covered."),
 "P25": ("run-time monitoring: every logged arrival of every source compared with the arrival times its model provides (schedules and constants computed, random models recorded), live view of limited source queues", "About 1000 production systems per quick run with arrival models of every kind; random models belong to one source each."),
 "P26": ("run-time monitoring: battery usage, charges and jobs of every vehicle and machine with batteries replayed over the event log", "About 1000 production systems per quick run; battery lives constant or from samples."),
 "P27": ("run-time monitoring: random agents step the routing and sequencing environments; every decision followed to its execution, the run replayed as a policy in one uninterrupted simulation and after a reset, observers compared with the live state, general oracles over the routing episodes", "Sampled configurations and agents; learning libraries are not used; the seed of a reset concerns only the replacement of invalid actions (the simulation follows the seed of the configuration)."),
 "P28": ("run-time monitoring: random histories of calls at the HTTP boundary against a sequential key-value model, and bundles of simultaneous requests; simulation results against independent runs", "Histories of 60 calls over three projects and four configurations; the in-memory backend; registered solutions come from files written by the harness; starting an optimisation through the service is not exercised."),
 "P29": ("run-time monitoring: event log compared entry by entry with every exported form, every figure asked alone and in random orders, from memory and from files, with plots and exports in between", "Sampled runs; plots are judged only by what they leave unchanged; the JSON file is compared to ten digits."),
}
