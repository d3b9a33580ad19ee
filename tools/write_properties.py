#!/usr/bin/env python3
"""Single source of truth for properties.jsonl (edit here, run, commit both)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state="", observe="", hook="none"):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=state, meaning="state the property speaks about", where=files[0])] if state else [],
                     observe_at=[observe] if observe else [], hook_needed=None if hook == "none" else hook)))

SIM = "Every valid configuration (layout, queues, policies, time models, breakdowns, setups, auxiliaries, rework), every seed and every simulated instant up to every horizon."

prop("P01", "Products are conserved: released = finished + in the system, each in one place",
 """Every product released by a source stays in the system exactly once: at each instant it rests in at most one buffer, or is being carried or worked on by at most one resource, and it never disappears or is duplicated.
 It is finished at most once, only after it was delivered to a sink accepting its product type, and never processed or moved again afterwards.
 The number of released products always equals the finished ones plus those still in the system, identically in the event log, the run-time state and the reported output and WIP.""",
 ["configurations", "histories", "schedules"], SIM,
 "The existing tests assert throughput and WIP of a handful of fixed configurations at one horizon; a lost or doubled product under blocking, breakdowns or batching never shows there.",
 ["prodsys/simulation/product.py", "prodsys/simulation/source.py", "prodsys/simulation/sink.py", "prodsys/simulation/store.py", "prodsys/factories/product_factory.py"],
 [("product life cycle", "simulation/product.py Product.process_product"), ("release", "simulation/source.py Source.create_product_loop"), ("buffers", "simulation/store.py Queue"), ("registry of finished products", "factories/product_factory.py ProductFactory.remove_product")],
 "buffer contents, product registry, event log", "after every simulation event (buffer contents) and on the finished event log")

prop("P02", "Every finished product has executed exactly its process plan",
 """A finished product has been given exactly the production processes its product type demands: in list order for sequential plans, in an order consistent with the precedence relation (each process once) for graph or adjacency plans, with each compound or capability demand fulfilled by an admissible process.
 Nothing outside the plan is executed except rework, an unfinished product has executed a valid prefix, and the product goes to the sink only after the whole plan.""",
 ["configurations", "histories"], "Every plan of each of the three plan notations, every mix of demand kinds, every resource layout offering the processes, every seed.",
 "Tests compare total throughput of fixed lists of processes; the order of processes of individual products under random precedence choices is never inspected.",
 ["prodsys/simulation/proces_models.py", "prodsys/simulation/product.py", "prodsys/factories/product_factory.py", "prodsys/simulation/process.py", "prodsys/util/util.py"],
 [("plan state", "simulation/proces_models.py"), ("next process", "simulation/product.py Product.set_next_production_process"), ("plan construction", "factories/product_factory.py")],
 "per-product sequence of production intervals", "event log (production end events) per product")

prop("P03", "Products move continuously and are processed only where they are",
 """A product is worked on only by a resource it has been transported to and not yet left, only with a process that resource offers, and is transported only from the place it currently is by a transport resource offering its transport process.
 Consecutive transports of a product join up (each starts where the product is and ends at the place of its next operation), its first leaves its source and its last enters a sink of its product type.
 A transport resource drives loaded only from the pickup place: it first travels empty from wherever it is, and its own journeys join up as well.""",
 ["configurations", "histories"], SIM,
 "No existing test looks at origins and targets of transports; they only count them indirectly through throughput.",
 ["prodsys/simulation/control.py", "prodsys/simulation/router.py", "prodsys/simulation/product.py", "prodsys/simulation/request.py"],
 [("transport execution", "simulation/control.py TransportController"), ("routing", "simulation/router.py Router"), ("product location", "simulation/product.py Product.update_location")],
 "current place of each product and vehicle", "event log (transport and production events)")

prop("P04", "Resource and per-process capacities are never exceeded",
 """At no instant does a resource work on more jobs than its capacity, nor run more simultaneous jobs of one process than the capacity it declares for that process.
 A transport resource carries at most as many loads (and performs at most as many journeys) at a time as its capacity allows.""",
 ["configurations", "schedules", "histories"], SIM,
 "Tests use a few capacities and only aggregate KPIs; a momentary overbooking by two requests taken at the same instant leaves those KPIs unchanged.",
 ["prodsys/simulation/resources.py", "prodsys/simulation/control.py", "prodsys/factories/resource_factory.py"],
 [("capacity test", "simulation/resources.py Resource.full"), ("slot acquisition", "simulation/control.py start_process / wait_for_free_process"), ("states per process", "factories/resource_factory.py")],
 "open work intervals per resource and process", "event log, every event instant")

prop("P05", "Buffers never overflow and blocked flow is released without loss",
 """A buffer or store with a finite capacity never holds more items than that capacity, and a product is sent to a place only when its entry buffer still has room for everything already there or on its way.
 When downstream buffers are full, finished work waits where it is, keeps its resource blocked and moves on as soon as space appears; buffers with capacity zero are unlimited.""",
 ["configurations", "schedules", "histories"], SIM + " Includes capacity 1 buffers, several producers per buffer, and slow or broken-down consumers.",
 "The tests with finite queues sample one configuration and never look at queue contents during the run.",
 ["prodsys/simulation/store.py", "prodsys/simulation/router.py", "prodsys/simulation/resources.py", "prodsys/factories/queue_factory.py"],
 [("reservation", "simulation/store.py Queue.reserve/full"), ("admission", "simulation/router.py possible resources with free queues"), ("release", "simulation/resources.py adjust_pending_put_of_output_queues")],
 "queue items and capacity", "after every simulation event (live queues)")

prop("P06", "The event log is a well-formed, time-ordered history of the run",
 """Log entries are in non-decreasing time order, never beyond the simulated horizon, and name only resources, states, products and places of the configuration.
 Every job of a resource is logged as start, optional interruption begin and end (with restart) and end, properly nested and for one product at a time, with an expected end that is the actual end whenever the job is not interrupted.
 Every product is logged as created exactly once before anything else and finished at most once, after everything else.""",
 ["configurations", "histories", "fault_sequences"], SIM,
 "Tests never read the event log itself; all reports are computed from it, so a malformed log silently corrupts every KPI.",
 ["prodsys/simulation/logger.py", "prodsys/simulation/state.py", "prodsys/simulation/product.py", "prodsys/util/runner.py"],
 [("event recording", "simulation/logger.py EventLogger"), ("state logging", "simulation/state.py StateInfo"), ("product logging", "simulation/product.py ProductInfo")],
 "event log", "event log data frame after the run")

prop("P07", "Every job takes exactly the working time drawn for it",
 """The time a resource actually works on a job (its duration without interruptions) equals one value delivered by the process's time model: no work is lost or repeated through interruptions, waiting or queueing.
 Jobs on different slots do not influence each other's durations, and every job started and not ended by the horizon is still within its duration.""",
 ["configurations", "fault_sequences", "histories"], SIM + " Includes several interruptions of the same job, interruptions at start and end instants and overlapping causes.",
 "Existing tests compare KPIs of a single failing machine; exact durations under repeated interruption are never checked.",
 ["prodsys/simulation/state.py", "prodsys/simulation/time_model.py", "prodsys/simulation/control.py"],
 [("remaining time", "simulation/state.py update_done_in"), ("work loop", "simulation/state.py ProductionState.process_state")],
 "start/interrupt/end times per job", "event log plus the values delivered by time models", "wrapping of time-model sampling from the harness")

prop("P08", "Broken-down resources and processes stop, and resume exactly after repair",
 """While a resource is broken down none of its jobs or setups makes progress, none starts, and the same holds for the affected process (and setups) during a process breakdown; other resources and processes are not affected.
 Each breakdown lasts exactly one repair time and follows the previous repair after one sampled time between failures; with overlapping breakdowns work resumes only when the last one is repaired, and then every interrupted job resumes immediately.""",
 ["configurations", "fault_sequences", "schedules"], "Every placement of failures and repairs relative to job starts, ends, setups and each other, including coincident instants and overlapping failures of several kinds.",
 "The failure test samples one seed of one machine with one breakdown state; overlapping failures are never exercised.",
 ["prodsys/simulation/state.py", "prodsys/simulation/resources.py"],
 [("failure loop", "simulation/state.py BreakDownState.process_state / ProcessBreakDownState.process_state"), ("interruption", "simulation/resources.py Resource.interrupt_states/activate")],
 "open breakdown intervals per resource", "event log plus the values delivered by time models", "wrapping of time-model sampling from the harness")

prop("P09", "Jobs run only in a matching setup, and changeovers are complete and exclusive",
 """On a resource with defined changeovers, a job of a process runs only if the last completed setup (or the first process ever run) put the resource into that process; a change between different processes always performs the defined changeover from the current to the new process for its full setup time.
 During a changeover the resource does no productive work, and no changeover takes place between jobs of the same process.""",
 ["configurations", "histories", "schedules"], "Every set of changeovers, every interleaving of product types, capacities above one, failures during changeovers.",
 "Tests contain setup states only in one complex configuration with aggregate assertions.",
 ["prodsys/simulation/resources.py", "prodsys/simulation/state.py", "prodsys/simulation/control.py"],
 [("changeover", "simulation/resources.py Resource.setup"), ("setup work", "simulation/state.py SetupState.process_state")],
 "current setup per resource", "event log (setup and production events)")

prop("P10", "Transports follow the layout: duration equals distance, speed and handling times",
 """A transport between two places takes the time its time model gives for the actual coordinates (leaving from the output position, arriving at the input position), plus loading and unloading time for loaded journeys only.
 With link-based transport a journey uses only configured links, in either direction, from origin to destination along a path of minimal length, with reaction, loading time once at its first and unloading time once at its last link.""",
 ["configurations", "histories"], "Every layout, every distance metric, speed and reaction time, every graph of links and every pair of pickup and delivery places.",
 "Tests assert throughput for one small link graph; no journey time or path is asserted.",
 ["prodsys/simulation/route_finder.py", "prodsys/simulation/control.py", "prodsys/simulation/state.py", "prodsys/simulation/time_model.py", "prodsys/factories/link_transport_process_updater.py"],
 [("path search", "simulation/route_finder.py find_route"), ("journey", "simulation/control.py TransportController.run_transport"), ("journey time", "simulation/state.py TransportState.process_state, simulation/time_model.py DistanceTimeModel")],
 "vehicle journeys", "event log (transport events) against coordinates of the configuration")

prop("P11", "Auxiliaries are conserved, exclusively used and present during use",
 """The number of auxiliaries of a type never changes: each is at every instant either in one store, being transported, or attached to exactly one product.
 A product that needs an auxiliary is not processed or moved before one was brought to it, never holds two of a type, and the auxiliary is returned to a store and reusable only after the product is finished.""",
 ["configurations", "histories", "schedules"], "Every number of auxiliaries, stores and competing products, including fewer auxiliaries than products.",
 "The auxiliary tests assert KPIs of two configurations; who holds which auxiliary is never checked.",
 ["prodsys/simulation/auxiliary.py", "prodsys/simulation/product.py", "prodsys/simulation/router.py", "prodsys/factories/auxiliary_factory.py"],
 [("auxiliary life cycle", "simulation/auxiliary.py Auxiliary"), ("acquisition", "simulation/router.py route_auxiliary_to_product"), ("release", "simulation/auxiliary.py release_auxiliary_from_product")],
 "auxiliary holder and stores", "event log plus live auxiliary and store objects after every event")

prop("P12", "Failed operations are reworked exactly as demanded, all others are not",
 """Each time a process with a failure rate fails on a product, exactly one rework able to repair that process is executed on that product before it is finished; a blocking rework is the next operation of the product, a non-blocking one happens after the remaining plan.
 Products without a failure are never reworked; a failure rate of one fails and a rate of zero never fails an execution.""",
 ["configurations", "histories"], "Every failure rate, plan, blocking mode, mapping from processes to rework processes and seed.",
 "The rework test asserts throughput for one seed only.",
 ["prodsys/simulation/product.py", "prodsys/simulation/control.py", "prodsys/simulation/process.py"],
 [("failure draw", "simulation/control.py handle_rework_required"), ("rework insertion", "simulation/product.py add_needed_rework / set_next_production_process")],
 "rework list per product", "event log per product plus the failure draws", "wrapping of the failure report from the harness")

prop("P13", "Batch resources process full batches of one product type together",
 """A batch resource starts work only on complete batches: exactly the batch size of products of the same product type begins and (without interruption) ends the process at the same instants with one common processing time.
 No product waits while a complete batch of its type is waiting at an idle batch resource, none is processed twice, and each returns to its own route afterwards.""",
 ["configurations", "histories", "schedules"], "Every batch size up to the capacity, several product types and arrival patterns.",
 "The batch test covers one batch size with one product type and asserts throughput only.",
 ["prodsys/simulation/control.py"], [("batch formation", "simulation/control.py BatchController")],
 "batches in process", "event log (production events of batch resources)")

prop("P14", "Resources pick their next job by their control policy",
 """Whenever a resource with several waiting jobs starts the next one, it is the longest-waiting job under FIFO, the most recently arrived under LIFO and one of minimal expected duration under SPT.
 Transport resources analogously pick the job with the shortest journey, or the nearest pickup place with ties broken by the configured longest or shortest target queue.""",
 ["configurations", "histories", "schedules"], "Every set of simultaneously waiting jobs on every resource and policy.",
 "No test compares job order; policies only shift mean throughput.",
 ["prodsys/simulation/control.py", "prodsys/factories/resource_factory.py"],
 [("policies", "simulation/control.py *_control_policy"), ("policy binding", "factories/resource_factory.py")],
 "waiting jobs per resource", "event log (arrival and start instants)")

prop("P15", "Routing chooses only able resources with space, by the configured rule",
 """A product is routed only to a resource that offers the demanded process and whose input buffers have room, and a transport only to a resource able to perform the transport process and, for link transport, reach both places.
 Among the candidates the choice follows the product's routing rule: the first candidate for FIFO, one with the fewest waiting items for shortest queue, any candidate (and over time every candidate) for random.""",
 ["configurations", "histories"], "Every set of parallel resources, load situation, routing rule and seed.",
 "Tests contain hardly any parallel resources and never look at single routing decisions.",
 ["prodsys/simulation/router.py", "prodsys/factories/source_factory.py"],
 [("candidates", "simulation/router.py get_possible_resources / filters"), ("rules", "simulation/router.py routing heuristics")],
 "candidate queues at decision instants", "event log plus live queue contents")

prop("P16", "Work never strands: idle capability and waiting demand do not coexist",
 """Once arrivals stop, in a configuration with enough buffer space every released product is finished within bounded simulated time; no product waits forever.
 No resource able and free to work stays idle while a job for it is waiting, apart from setups, breakdowns, charging or blocked output.""",
 ["configurations", "schedules", "fault_sequences", "histories"], "Every valid configuration with sufficient buffers, every seed; bounded-progress form: total outstanding work plus repair times bounds the time to drain.",
 "Tests stop at a fixed horizon with arrivals still running and would not notice a stuck product or a missed wake-up.",
 ["prodsys/simulation/control.py", "prodsys/simulation/router.py", "prodsys/simulation/product.py"],
 [("wake-up of controllers", "simulation/control.py control_loop"), ("waiting for free resources", "simulation/router.py / product.py")],
 "pending work at drain", "event log and live product registry after the drain horizon")

prop("P17", "Runs are reproducible, isolated and free of side effects",
 """Simulating the same configuration with the same seed gives exactly the same event log and results, in the same or another process, whatever other simulations ran before, whatever the state of the global random generators, and however the horizon is split into consecutive runs.
 A run leaves the caller's random number streams and the configuration it was given unchanged, and different seeds lead to different histories when anything is random.""",
 ["configurations", "histories", "schedules"], "Every configuration, seed, preceding activity, hash seed and interleaving of simulations.",
 "A test compares one number of one run with a stored value; nothing checks independence from ambient state or that the inputs stay untouched.",
 ["prodsys/util/runner.py", "prodsys/simulation/sim.py", "prodsys/util/util.py", "prodsys/util/statistical_functions.py", "prodsys/simulation/time_model.py"],
 [("seeding", "util/runner.py temporary_seed"), ("random streams", "simulation/time_model.py, util/statistical_functions.py")],
 "random generator states, configuration dump, event log", "before and after initialise/run; separate interpreter processes")

prop("P18", "Reported performance figures equal their definition on the event log",
 """Throughput, output, throughput time and WIP reported for a run equal what their definitions give when recomputed from the event log for the observed period.
 For every resource the reported shares of productive, standby, setup and unscheduled-downtime (and charging) time are within bounds, add up to the whole observed period, and match the durations of the corresponding logged intervals; a warm-up cut-off removes exactly the earlier part.""",
 ["histories", "configurations"], "Every event log produced by any run, every horizon and warm-up period.",
 "Tests compare a few KPI values of few runs to stored numbers; no independent definition exists.",
 ["prodsys/util/post_processing.py", "prodsys/models/performance_indicators.py", "prodsys/models/performance_data.py", "prodsys/util/warm_up_post_processing.py", "prodsys/util/runner.py"],
 [("KPI computation", "util/post_processing.py PostProcessor"), ("report", "util/runner.py get_performance_data")],
 "event log and KPI tables", "post-processor outputs against an independent recomputation")

prop("P19", "Time models deliver exactly the specified times",
 """A constant model always gives its value, a sample model only values of its samples, a schedule its listed instants or intervals in order (repeating only if cyclic), and a distance model distance divided by speed plus the reaction time in its metric.
 Stochastic models follow the named distribution with the configured location and scale, never deliver a negative time, and the expected time used for decisions is the configured mean.""",
 ["inputs", "configurations"], "Every parameter value of every time model, any number of draws and every seed.",
 "Tests run each time model only implicitly with one parameter set.",
 ["prodsys/simulation/time_model.py", "prodsys/util/statistical_functions.py", "prodsys/models/time_model_data.py", "prodsys/factories/time_model_factory.py"],
 [("sampling", "simulation/time_model.py"), ("distribution functions", "util/statistical_functions.py")],
 "drawn values", "direct draws through the factory under a fixed seed")

prop("P20", "Saving and loading configurations loses nothing",
 """Writing a configuration to a file and reading it back gives an equal configuration that simulates to exactly the same event log, for every element and option the configuration language offers.
 Configurations built with the object-oriented interface give the same configuration data, with and without a round trip, as the same system described directly as data.""",
 ["configurations", "inputs"], "Every configuration with every combination of optional elements.",
 "The tests build one configuration per feature and never compare configurations after a round trip.",
 ["prodsys/adapters/json_adapter.py", "prodsys/adapters/adapter.py", "prodsys/express/production_system.py", "prodsys/express/*.py", "prodsys/models/*.py"],
 [("JSON reading and writing", "adapters/json_adapter.py"), ("conversion", "express/*.py to_model")],
 "configuration object", "configuration dumps and event logs before and after")

prop("P21", "Validation rejects inconsistent configurations and accepts consistent ones",
 """A configuration whose parts refer to something missing (time model, process, queue, state, product type, place), that demands a process no resource offers, places two objects on one spot or violates a capacity rule is rejected with an error before it is simulated.
 Every consistent configuration is accepted, and validating or simulating an accepted configuration never fails with an internal error.""",
 ["configurations", "inputs"], "Every consistent configuration and every single-fault mutation of it.",
 "Only consistent configurations are tested, each once.",
 ["prodsys/adapters/adapter.py", "prodsys/models/*.py", "prodsys/util/runner.py"],
 [("reference checks", "adapters/adapter.py field validators"), ("run-time validation", "adapters/adapter.py validate_configuration")],
 "configuration data", "construction, validation and initialisation outcome of mutants")

prop("P22", "Configuration hashes identify configurations by function, not by naming",
 """The hash of a configuration does not change with IDs of elements, with descriptions, seeds or the order in which elements are listed, and is the same in every process.
 Changing anything functional (a time, distribution, process, plan step order, capacity, location, policy, state, queue, auxiliary) changes the hash (configurations whose plans are lists; graph plans are refused by the hash).""",
 ["configurations", "inputs"], "Every configuration, every consistent renaming, every reordering and every single functional change.",
 "The tests compare hashes of a few fixed configurations with stored strings.",
 ["prodsys/adapters/adapter.py", "prodsys/models/*.py"],
 [("hashing", "models/*.hash, adapters/adapter.py ProductionSystemAdapter.hash")],
 "hash value", "hash before and after each transformation")

prop("P23", "Optimisation moves keep configurations consistent and within the allowed limits",
 """Every neighbour, crossover or random configuration the optimisation reports as valid is a consistent, simulable configuration that respects the scenario's limits (machine and transport-resource counts, processes per machine, allowed positions, reconfiguration cost budget) and still offers every demanded process; a configuration within all limits is never reported as invalid. A move uses only kinds of change, positions and policies that the scenario permits (normalised buffers, process capacities and breakdown states aside).
 Moves never alter the configuration they start from, the baseline or the demand (products, sources, sinks, process and time-model definitions).""",
 ["configurations", "histories", "inputs"], "Every scenario, every sequence of moves and every seed.",
 "There is no stable test of the optimisation package at all.",
 ["prodsys/optimization/adapter_manipulation.py", "prodsys/optimization/util.py", "prodsys/models/scenario_data.py"],
 [("moves", "optimization/adapter_manipulation.py"), ("validity", "optimization/util.py check_valid_configuration")],
 "candidate configurations", "each candidate after each move against an independent validity oracle")

prop("P24", "Optimisation evaluates candidates truthfully and reports the best found",
 """The objective values recorded for a candidate equal those of simulating that candidate under the scenario's time range, averaged over the seeds; a candidate outside the scenario's limits gets the penalty of -100000 for every weighted objective; the overall value is the weighted sum in the direction of each objective, and the cost objective equals the cost of the candidate's differences to the baseline.
 Every evaluated candidate is listed in the results under its own name with its values and hash and saved in a file that reads back to the same hash; a candidate met again gets the values of its first evaluation, and different candidates never share one.
 A search repeated with the same seed evaluates the same candidates (given the same names for new machines), also with other hash seeds and several worker processes; a search changes nothing of the base configuration but adding default breakdown states; the tabu search follows its rule and reports the best candidate it evaluated; the Pareto marks are set exactly at the non-dominated rows.""",
 ["configurations", "histories"], "Every sequence of evaluated candidates, objectives and weights.",
 "There is no stable test of the optimisation package at all.",
 ["prodsys/optimization/util.py", "prodsys/optimization/optimization.py", "prodsys/optimization/evolutionary_algorithm.py", "prodsys/optimization/simulated_annealing.py", "prodsys/optimization/tabu_search.py"],
 [("evaluation and cache", "optimization/optimization.py evaluate"), ("cost", "optimization/util.py get_reconfiguration_cost"), ("Pareto filter", "optimization/util.py")],
 "evaluated candidates", "evaluation results against independent re-simulation and recomputation")

prop("P25", "Sources release products exactly according to their arrival model",
 """Each source releases products of its product type only, one after each inter-arrival time of its arrival model (or at exactly the scheduled instants), starting from time zero and independently of the load of the system, until the schedule ends or the run is over; products that are due at the same instant are all released at it. Only at a limited output queue that is full a product waits for room, and the next inter-arrival time starts when it has entered.
 Sources do not influence each other, also if they name the same schedule, and a released product starts at the source's output.""",
 ["configurations", "histories"], "Every arrival model, number of sources and load.",
 "Throughput tests with saturated or fixed arrivals cannot see single release instants.",
 ["prodsys/simulation/source.py", "prodsys/factories/source_factory.py", "prodsys/simulation/time_model.py"],
 [("release loop", "simulation/source.py Source.create_product_loop")],
 "release instants per source", "event log (creation events) plus the values delivered by arrival models", "wrapping of time-model sampling from the harness")

prop("P26", "Battery-powered resources recharge in time and do not work while charging",
 """A vehicle or machine whose accumulated working time (planned durations of its jobs) since its last full charge has reached the permitted share (90 %) of its battery life takes no further job before it has charged for one full charging time, and charging begins as soon as its work has ended.
 It neither moves nor carries nor processes anything while charging, charges only when needed, and continues with its waiting jobs afterwards.""",
 ["configurations", "histories", "schedules"], "Every battery life, charging time, journey mix and load.",
 "The charging test fails on the current tree and asserts only aggregate figures.",
 ["prodsys/simulation/state.py", "prodsys/simulation/resources.py", "prodsys/simulation/control.py"],
 [("charging", "simulation/state.py ChargingState"), ("decision", "simulation/resources.py requires_charging/charge")],
 "battery usage per vehicle", "event log (charging and transport events)")

prop("P27", "Reinforcement-learning environments simulate faithfully step by step",
 """The routing environment asks for exactly one decision before each request of a product or auxiliary for a resource, the sequencing environment before each job (batch) its resource takes, and each valid decision is executed exactly as chosen: the requested resource, the destination of the transport before it, the job that is taken; an invalid action is reported as such and replaced by one of the offered choices.
 Stepping advances the same simulation that a policy with those decisions would run in one go; time never moves backwards, and the end is reported as soon as the condition of the user holds.
 A reset starts an independent episode (the same one for the same seed and decisions, also after an abandoned one), and observers report the products in the queues and the jobs at the resource as they are.""",
 ["histories", "configurations"], "Every sequence of actions, seeds and resets.",
 "There is no test of the environments.",
 ["prodsys/control/sequencing_control_env.py", "prodsys/control/routing_control_env.py", "prodsys/simulation/observer.py", "prodsys/simulation/router.py", "prodsys/simulation/control.py"],
 [("stepping", "control/*_env.py step/reset")],
 "decision, log, simulated time", "every step of the environment")

prop("P28", "The data service stores, returns, updates and deletes exactly what was sent",
 """After any sequence of calls the stored projects, configurations, their elements, scenarios and results equal those of a simple key-value model: reads return what was last written, an unknown ID gives not-found, creating or renaming to a used ID is refused, an item with missing fields is refused as invalid, and deletion removes exactly the addressed item with everything belonging to it; a refused call changes nothing.
 A simulation stores exactly the results, figures, events and plots that the stored configuration gives with the requested seed and length, under its own project and ID, and changes nothing else, also if several are requested at once.
 A registered solution of an optimisation is exactly the one asked for, with the scenario of its baseline but independent of it.""",
 ["histories", "inputs"], "Every sequence of calls over few colliding IDs.",
 "The service has no stable tests.",
 ["app/dao/*.py", "app/backends/*.py", "app/routers/*.py"],
 [("in-memory store", "app/backends"), ("element access", "app/dao")],
 "stored projects", "HTTP boundary, history against a sequential model")

prop("P29", "Exports and reports carry the same facts as the event log",
 """Every exported form of a run (event table file, KPI file, event objects, raw and prepared tables) has the same entries with the same values as the event log, one to one and in order.
 Exporting, reporting or computing a KPI never changes the log or other KPIs, whichever is called first or repeatedly.""",
 ["histories", "configurations"], "Every run and every order of export and KPI calls.",
 "Tests call one report after one run.",
 ["prodsys/util/runner.py", "prodsys/util/post_processing.py", "prodsys/models/performance_data.py", "prodsys/simulation/logger.py"],
 [("exports", "util/runner.py save_results_*"), ("tables", "util/post_processing.py")],
 "log, files, tables", "files and returned objects after the run")

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
