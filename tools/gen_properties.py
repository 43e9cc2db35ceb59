"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
S = "prodsys/simulation/"; F = "prodsys/factories/"; O = "prodsys/optimization/"; M = "prodsys/models/"; U = "prodsys/util/"; X = "prodsys/express/"

prop("P01", "A run is reproducible from configuration and seed",
 "Simulating the same configuration with the same seed always gives the same event log: nothing in the simulated behaviour depends on wall-clock time, on hash randomisation, on unseeded random sources or on what ran earlier in the process. Every seeded run draws its random numbers under its own seed, and afterwards the caller's global random generators are exactly in the state they had before, even if the run fails.",
 ["configurations", "histories"], "all configurations, seeds, interpreter hash seeds, and histories of earlier runs in the same process",
 "The tests run each configuration once with PYTHONHASHSEED=0; order dependence on a set or a leaked generator state needs a second process or an interleaving with other runs.",
 [S+"sim.py", U+"runner.py", S+"router.py", S+"proces_models.py", S+"time_model.py", U+"statistical_functions.py", S+"control.py", S+"product.py"],
 [("seeding context manager", S+"sim.py:temp_seed"), ("seeded run", S+"sim.py:Environment.run"), ("seeded set-up", U+"runner.py:Runner.initialize_simulation"), ("set-valued intermediates", S+"router.py, "+S+"proces_models.py")])
prop("P02", "Bounded queues never overfill and promised places balance",
 "A queue with a positive capacity is reported full as soon as the items it holds plus the places promised to items on their way reach its capacity, and a place is never promised beyond it. Every item entering a queue uses up exactly one place promised to it, and every promised place is used by exactly one entering item, on every route an item can take (source output, production input, storage, sink, auxiliary storage).",
 ["schedules", "configurations"], "all configurations (number of queues per resource, capacities incl. unlimited) and all interleavings of routing, transport and production",
 "The tests use a handful of systems whose queues rarely fill; a leaked or missing promise only shows after many parts or for resources with several queues.",
 [S+"store.py", S+"router.py", S+"control.py", S+"resources.py", S+"source.py", F+"auxiliary_factory.py"],
 [("promise/consume/full", S+"store.py:Queue.reserve/unreserve/put/full"), ("promise sites", S+"router.py, "+S+"resources.py, "+S+"source.py"), ("put sites", S+"control.py, "+F+"auxiliary_factory.py")],
 [("pending puts", "places promised to items on their way"), ("items", "items held")])
prop("P03", "Items are moved, never lost or duplicated",
 "Each production or transport step takes exactly the requested item out of its origin queue before the operation starts and puts the same item into the target queue after the operation has ended, waiting for both transfers to take effect. An item's recorded location is the transport resource while it is being carried and the target after it has been delivered, and completion is only announced after delivery.",
 ["schedules", "configurations"], "all layouts, queue fillings and interleavings of parallel operations",
 "Tests compare aggregate throughput of a few systems; a step that announces completion early or takes a different item of the same type keeps those totals.",
 [S+"control.py", S+"product.py", S+"store.py", S+"source.py"],
 [("production step", S+"control.py:ProductionController.start_process"), ("batch step", S+"control.py:BatchController.start_process"), ("transport step", S+"control.py:TransportController.start_process"), ("retrieval / delivery", S+"control.py:get_next_product_for_process, put_product_to_input_queue, put_product_to_output_queue"), ("location", S+"product.py:Product.update_location")])
prop("P04", "Every request is served once within the resource's capacity",
 "Every request accepted by a resource is queued once, taken from the queue exactly once, executed by a free process slot while holding one unit of the resource's capacity, and answered with exactly one completion notice; the booking counters used to judge free capacity return to their old value when it has been taken up. A resource that is full, setting up, or without waiting requests starts nothing, and it always wakes up again when a new request arrives or running work ends.",
 ["schedules", "configurations"], "all configurations and interleavings of arrivals, completions and set-ups",
 "Capacity and wake-up faults need several simultaneous requests at one resource at particular instants; tests sample one seed per system.",
 [S+"control.py", S+"resources.py", S+"sim.py", S+"product.py"],
 [("dispatch loop", S+"control.py:*.control_loop"), ("execution", S+"control.py:*.start_process"), ("free slot search", S+"control.py:wait_for_free_process; "+S+"resources.py:get_free_process"), ("fullness", S+"resources.py:Resource.full"), ("request hand-over", S+"sim.py:Environment.request_process_of_resource; "+S+"product.py:Product.request_process")])
prop("P05", "Interrupted work keeps its remaining time",
 "Work interrupted by a failure resumes only when both the resource and the affected process are available again, and then runs for exactly the part of its sampled duration that had not yet elapsed, however often it is interrupted. An interruption that was not announced is an error, work that has not begun yet is merely delayed, and work is announced as finished exactly once, after its full duration.",
 ["schedules", "fault_sequences"], "all interleavings of failures, repairs, set-ups and work for production, transport, set-up and charging work",
 "Requires failures at specific instants relative to running work, repeatedly; the tests fix a few systems and one seed.",
 [S+"state.py"], [("interruptible work", S+"state.py:ProductionState/TransportState/SetupState/ChargingState.process_state"), ("remaining time", S+"state.py:update_done_in"), ("interruption", S+"state.py:interrupt_process")],
 [("remaining duration", "part of the sampled duration still to run"), ("segment start", "simulation time at which the current uninterrupted segment began")])
prop("P06", "A failed resource or process does no work until repaired",
 "When a resource fails, all its running production and set-up work is interrupted and no work starts until it is repaired; it becomes available again only when none of its overlapping failures is still under repair, and every failure is eventually followed by such an attempt to bring it back. A process failure blocks exactly the states of the configured process (and set-ups) of that resource, which are all made available again after the repair; each repair takes one sampled repair time.",
 ["schedules", "fault_sequences"], "all failure and repair sequences, including overlapping failures of one resource",
 "Overlapping failures of the same resource occur in none of the test systems.",
 [S+"state.py", S+"resources.py", F+"resource_factory.py"],
 [("resource failure", S+"state.py:BreakDownState.process_state"), ("process failure", S+"state.py:ProcessBreakDownState.process_state"), ("block / release", S+"resources.py:Resource.interrupt_states, activate, start_states"), ("affected states", F+"resource_factory.py:adjust_process_breakdown_states")])
prop("P07", "The event log records every state change truthfully",
 "Every start, interruption, resumption and end of production, transport, set-up, charging and failure is logged exactly once, at the current simulation time, under its own resource, state and kind, with the expected end being now plus the remaining duration; creation and completion of products and use of auxiliaries are logged likewise. All states of all resources are observed, and each record carries every field the analysis reads.",
 ["schedules", "configurations"], "all runs of all configurations with any mix of state kinds",
 "Tests look at aggregated KPIs of systems without charging and with few interruptions; a record with the wrong kind or time does not change them.",
 [S+"state.py", S+"logger.py", S+"product.py", S+"auxiliary.py"],
 [("state records", S+"state.py:StateInfo.log_*"), ("product records", S+"product.py:ProductInfo"), ("auxiliary records", S+"auxiliary.py:AuxiliaryInfo"), ("collection", S+"logger.py:EventLogger.observe_*, post_monitor_*")])
prop("P08", "Every accepted option value is implemented",
 "Every value the configuration models accept for a choice (distribution function, distance metric, routing heuristic, control policy, controller, state, process, resource and queue kind, optimisation change, KPI kind) is understood by the component that acts on it, and selects the behaviour of that name. No component tests for a value the configuration can never hold.",
 ["configurations"], "all option values the data models accept",
 "Tests use only a few of the values; a missing or swapped table entry only shows when that value is configured.",
 [M+"resource_data.py", M+"source_data.py", M+"time_model_data.py", M+"scenario_data.py", M+"performance_indicators.py", F+"resource_factory.py", S+"router.py", U+"statistical_functions.py", S+"time_model.py", F+"state_factory.py", O+"adapter_manipulation.py", O+"util.py"],
 [("dispatch tables", F+"resource_factory.py:CONTROLLER_DICT, CONTROL_POLICY_DICT; "+S+"router.py:ROUTING_HEURISTIC; "+U+"statistical_functions.py:FUNCTION_DICT; "+F+"state_factory.py:STATE_DICT"), ("metric comparison", S+"time_model.py:DistanceTimeModel.calculate_distance")])
prop("P09", "Identifiers resolve to exactly the object that carries them",
 "Looking up an object by identifier anywhere in the system (simulation factories, configuration helpers, REST storage) yields exactly the objects whose identifier equals the requested one or is in the requested list, never one whose identifier merely contains or is contained in it, and in the requested order where order carries meaning. Objects of other kinds are left out of kind-specific listings.",
 ["configurations", "inputs"], "all configurations and identifiers, including identifiers that are substrings of one another",
 "The test systems use identifiers that are not substrings of one another or resolve by luck of order.",
 [F+"process_factory.py", F+"resource_factory.py", F+"queue_factory.py", F+"state_factory.py", F+"time_model_factory.py", F+"node_factory.py", F+"sink_factory.py", F+"source_factory.py", F+"product_factory.py", "prodsys/adapters/adapter.py", "app/dao/", O+"util.py"],
 [("factory look-ups", "prodsys/factories/*:get_*"), ("REST look-ups", "app/dao/*_dao.py:get")])
prop("P10", "Dangling references are rejected before a run",
 "Before anything is simulated the configuration is validated: every identifier that one element uses to refer to another (time models, states, processes, queues, product types, capabilities, storages) must exist, and identifiers must be unique per kind; otherwise an error is raised. The validation covers every reference the simulation resolves and every element kind, not only the ones that come first.",
 ["configurations", "inputs"], "all configurations, valid or not",
 "Tests only load valid configurations.",
 ["prodsys/adapters/adapter.py", U+"runner.py"],
 [("reference validators", "prodsys/adapters/adapter.py:ProductionSystemAdapter.check_*"), ("full validation", "prodsys/adapters/adapter.py:validate_configuration"), ("invocation before the run", U+"runner.py:Runner.initialize_simulation")])
prop("P11", "The configuration fingerprint covers behaviour and only behaviour",
 "Two configurations that differ in any setting that influences simulated behaviour have different fingerprints, and configurations that differ only in identifiers, descriptions or the order of their elements have equal ones. Whatever an element references contributes with its own content, so that the optimiser never reuses results of a behaviourally different configuration.",
 ["configurations"], "all pairs of configurations",
 "No test compares fingerprints; covering all settings is a statement about every field of every element kind.",
 [M+"core_asset.py", M+"resource_data.py", M+"processes_data.py", M+"state_data.py", M+"time_model_data.py", M+"queue_data.py", M+"product_data.py", M+"source_data.py", M+"sink_data.py", M+"auxiliary_data.py", M+"node_data.py", "prodsys/adapters/adapter.py"],
 [("element fingerprints", "prodsys/models/*:hash"), ("system fingerprint", "prodsys/adapters/adapter.py:ProductionSystemAdapter.hash"), ("consumer", O+"optimization.py:evaluate")])
prop("P12", "Saving and loading a configuration is lossless",
 "Writing a configuration to a file and reading it back yields every section and every setting again, with the same text encoding on both sides. Scenario and optimisation result files are complete in the same sense.",
 ["configurations", "inputs"], "all configurations, including non-ASCII text and all optional sections",
 "Tests never write and re-read a file.",
 ["prodsys/adapters/json_adapter.py", U+"util.py", "prodsys/adapters/adapter.py"],
 [("reader", "prodsys/adapters/json_adapter.py:JsonProductionSystemAdapter.read_data"), ("writer", "prodsys/adapters/json_adapter.py:write_data, write_scenario_data"), ("file access", "prodsys/adapters/json_adapter.py:load_json")])
prop("P13", "Simulating leaves the configuration untouched",
 "Building and running a simulation never changes the configuration it was given: what the simulation moves, renames, counts or extends at run time is private to that run. The same configuration object can therefore be simulated, saved, fingerprinted or optimised again with the same outcome.",
 ["histories", "configurations"], "all configurations and any number of runs of the same configuration object",
 "Tests build a fresh configuration per run and never compare it before and after.",
 [F+"resource_factory.py", F+"product_factory.py", F+"auxiliary_factory.py", F+"link_transport_process_updater.py", S+"route_finder.py", S+"resources.py", U+"runner.py"],
 [("hand-over of data to simulation objects", "prodsys/factories/*:create_*/add_*"), ("run-time writes to data", S+"resources.py:Resource.set_location; "+F+"product_factory.py:create_product; "+F+"auxiliary_factory.py:add_auxiliary"), ("link graph", S+"route_finder.py:process_links_to_graph_edges")])
prop("P14", "Products follow their process plan and rework rules",
 "A product performs each process of its plan exactly once, a process only after all its predecessors are done, and goes to a sink only when nothing is left to do. A failed process is reworked by a process that is declared to rework it: blocking rework comes before any other process, non-blocking rework before the sink at the latest, each failure is reworked exactly once, and rework itself never needs rework.",
 ["configurations", "schedules"], "all sequential and precedence-graph process plans and all failure outcomes",
 "Precedence graphs with several branches and the two rework modes combine; tests run two rework systems and no graph.",
 [S+"product.py", S+"proces_models.py", F+"product_factory.py", S+"router.py", S+"control.py", S+"process.py"],
 [("plan", S+"proces_models.py:ListProcessModel, PrecedenceGraphProcessModel"), ("next step", S+"product.py:Product.set_next_production_process"), ("rework book-keeping", S+"product.py:Product.add_needed_rework, register_rework"), ("failure draw", S+"control.py:handle_rework_required"), ("life cycle", S+"product.py:Product.process_product")])
prop("P15", "Products are routed only to capable, reachable, non-blocked targets",
 "A process is only requested from a resource that offers a matching process (same identifier or same required capability), that some transport can reach from the product's location, and whose input queues all have a free place at the moment of choice; the place is promised in that moment. If nothing is free the product waits for a change and decides anew on fresh information; if nothing can ever match, an error is raised instead of waiting.",
 ["configurations", "schedules"], "all configurations and all system states at the time of routing",
 "Blocking and unreachable targets only arise in particular layouts and load situations.",
 [S+"router.py", S+"process.py", S+"route_finder.py", S+"resources.py"],
 [("candidate filters", S+"router.py:get_possible_production_requests, get_reachable_production_requests, get_requests_with_non_blocked_resources"), ("choice", S+"router.py:get_routed_production_request, route_transport_resource_for_item, route_product_to_sink, route_product_to_storage"), ("matching", S+"process.py:*.matches_request")])
prop("P16", "Dispatching and routing rules only reorder, by the stated criterion",
 "A control policy or routing heuristic only reorders the waiting requests in place: it never drops, adds or duplicates one, never changes a request, and works for every request kind it can be configured for. First-come rules keep arrival order, shortest-time rules order ascending by expected duration, queue-length rules order by the queue lengths they name, and ties are broken only by seeded randomness or arrival.",
 ["configurations", "schedules"], "all policies, all queue contents",
 "Most policies are not exercised by any reliable test.",
 [S+"control.py", S+"router.py"],
 [("control policies", S+"control.py:*_control_policy"), ("routing heuristics", S+"router.py:*_routing_heuristic")])
prop("P17", "Set-ups precede work on a differently set-up resource",
 "Before a resource works on a request it is brought into the set-up the process needs: if a matching set-up change is configured, it is carried out once, after running set-ups and running work have ended, no other work starts meanwhile, and the resource's set-up is updated afterwards. The reservation made for the change is always released again.",
 ["configurations", "schedules"], "all set-up matrices and request sequences",
 "Only one test system has set-ups, with capacity one.",
 [S+"resources.py", S+"state.py", S+"control.py"],
 [("set-up change", S+"resources.py:Resource.setup"), ("reservation", S+"resources.py:reserve_setup, unreserve_setup, in_setup, full, capacity_current_setup"), ("set-up work", S+"state.py:SetupState.process_state"), ("before work", S+"control.py:*.start_process")])
prop("P18", "Auxiliaries are held by one product and given back",
 "An auxiliary is given to a product only if its kind is required by the product, it supports the request and it is neither reserved nor held by another product; it is then reserved at once. When the product is finished, the auxiliary follows to the place where the product ended, is transported back to its storage and is released exactly once, waking those who wait for it. Every auxiliary starts in the storage it is configured for, in the configured number. If no auxiliary can ever serve a product an error is raised instead of asking again for ever.",
 ["schedules", "configurations"], "all auxiliary configurations and interleavings of competing products",
 "Two small test systems; double reservation needs competing products at the same instant.",
 [S+"auxiliary.py", S+"router.py", S+"product.py", F+"auxiliary_factory.py"],
 [("selection", S+"router.py:get_auxiliary, get_free_auxiliary, get_possible_auxiliaries"), ("reserve / release", S+"auxiliary.py:Auxiliary.reserve, release_auxiliary_from_product"), ("life cycle", S+"product.py:Product.process_product"), ("creation", F+"auxiliary_factory.py:create_auxiliary, place_auxiliaries_in_queues")])
prop("P19", "Transports drive real distances with handling counted once",
 "A transport first drives empty from where the resource is to the item's pick-up point unless it is already there, then loaded along the found route, leg by leg, to the target's drop point; after every leg the resource is where that leg ended. Loading time is spent once at the first loaded leg and unloading time once at the last, never on empty drives, and routes only use configured links.",
 ["configurations", "schedules"], "all layouts, link networks and transport sequences",
 "Tests cover two link networks and compare totals with tolerance.",
 [S+"control.py", S+"state.py", S+"route_finder.py"],
 [("transport", S+"control.py:TransportController.start_process, run_transport, run_process, get_target_location, find_route_to_origin, update_location"), ("duration", S+"state.py:TransportState.process_state"), ("route search", S+"route_finder.py:RouteFinder")])
prop("P20", "Time models give valid, configured durations",
 "A duration drawn from a distribution is never negative (only an exhausted schedule signals its end, and a source then stops producing), and it is computed from the configured parameters: distance divided by speed plus reaction time for distance models, the schedule's entries in order (differences for absolute schedules, repeating if cyclic), the configured samples or distribution otherwise. Missing locations for a distance model raise a proper error.",
 ["configurations", "inputs"], "all time model parameters and any number of draws",
 "Negative draws and exhausted schedules depend on parameters and on the number of draws.",
 [S+"time_model.py", U+"statistical_functions.py", S+"source.py"],
 [("sampling", S+"time_model.py:*.get_next_time, get_expected_time"), ("distributions", U+"statistical_functions.py:FUNCTION_DICT"), ("arrival loop", S+"source.py:Source.create_product_loop")])
prop("P21", "Optimiser candidates are independent copies",
 "Mutating, combining, evaluating or saving a candidate never changes the base configuration, the parent it was derived from, or any other candidate, and two candidates never share changeable parts. The configuration the caller passes in is left as it was by every optimisation method.",
 ["histories", "configurations", "inputs"], "all sequences of optimisation operations on all configurations",
 "Aliasing shows only in later generations; no reliable test runs an optimisation.",
 [O+"evolutionary_algorithm.py", O+"simulated_annealing.py", O+"tabu_search.py", O+"math_opt.py", O+"adapter_manipulation.py", O+"util.py", O+"optimization.py"],
 [("operators", O+"adapter_manipulation.py:mutation, crossover, random_configuration*"), ("drivers", O+"evolutionary_algorithm.py, simulated_annealing.py, tabu_search.py, math_opt.py"), ("evaluation", O+"optimization.py:evaluate")])
prop("P22", "Only admissible candidates are simulated and kept",
 "A candidate is simulated only if it satisfies every scenario constraint that is configured: number of machines, transport resources and processes per machine, distinct and allowed positions, available processes and auxiliaries, and reconfiguration cost; otherwise it receives the penalty value with the sign that makes it worst. Each operator changes only what the scenario allows and leaves a candidate whose queues, failure states and process capacities are consistent again.",
 ["configurations", "inputs"], "all scenarios, candidates and operator sequences",
 "The space of candidates is far larger than any test; violated constraints appear only for some of them.",
 [O+"util.py", O+"optimization.py", O+"adapter_manipulation.py"],
 [("admissibility", O+"util.py:check_valid_configuration"), ("penalty", O+"optimization.py:evaluate"), ("operators", O+"adapter_manipulation.py:mutation, crossover, get_mutation_operations"), ("normalisation", O+"util.py:add_default_queues_to_resources, clean_out_breakdown_states_of_resources, adjust_process_capacities")])
prop("P23", "Recorded fitness belongs to the candidate it is recorded for",
 "The fitness stored for a candidate is computed from a simulation of exactly that candidate or taken from an earlier candidate with the same fingerprint, every objective is weighed with its configured sign and weight in the configured order, and the record, the saved file and the progress log carry the same identity. All optimisation methods record the same fields and start from the base configuration unless another start is given.",
 ["histories", "configurations", "inputs"], "all optimisation runs with any objectives and weights",
 "No reliable test covers any optimisation run.",
 [O+"optimization.py", O+"evolutionary_algorithm.py", O+"simulated_annealing.py", O+"tabu_search.py", O+"math_opt.py", O+"util.py"],
 [("evaluation", O+"optimization.py:evaluate, evaluate_ea_wrapper"), ("weights", O+"util.py:get_weights"), ("records", O+"util.py:document_individual; drivers")])
prop("P24", "Analyses never alter the recorded log or each other",
 "Computing a KPI, table, plot or export never changes the recorded event log or any table another analysis uses; results do not depend on which analyses were requested before or in what order. Selecting rows always applies every condition that the selection states.",
 ["histories", "inputs"], "all logs and all orders of requesting analyses",
 "Tests request a few tables in one fixed order.",
 [U+"post_processing.py", U+"kpi_visualization.py", U+"runner.py"],
 [("cached tables", U+"post_processing.py:PostProcessor.df_*"), ("consumers", U+"kpi_visualization.py; "+U+"runner.py")])
prop("P25", "The warm-up phase is cut off from every reported KPI",
 "If a warm-up phase is to be cut off, every aggregated KPI (throughput, output, throughput time, resource states, WIP, auxiliary WIP) is computed only from events after the end of that phase, and time shares refer to the remaining period; if not, the full log is used. Cutting off never changes the underlying tables.",
 ["inputs", "configurations"], "all logs and both settings of the cut-off",
 "No test enables the cut-off.",
 [U+"post_processing.py"], [("cut-off branches", U+"post_processing.py:PostProcessor.df_aggregated_*"), ("warm-up detection", U+"post_processing.py:PostProcessor.warm_up_cutoff_time")])
prop("P26", "The builder API hands over every setting and every element",
 "A production system assembled from builder objects yields a configuration in which every setting of every builder object has arrived unchanged and in which every element reachable from the system (time models, states, processes, queues, nodes, auxiliaries, stores) appears exactly once. Elements are collected from every kind of builder object that can refer to them.",
 ["configurations"], "all systems that can be assembled",
 "Tests assemble small systems; an element kind reachable only through one other kind is easily left out.",
 [X+"production_system.py", X+"process.py", X+"resources.py", X+"state.py", X+"time_model.py", X+"product.py", X+"source.py", X+"sink.py", X+"queue.py", X+"node.py", X+"auxiliary.py"],
 [("conversion", "prodsys/express/*:to_model"), ("collection", X+"production_system.py:ProductionSystem.to_model")])
prop("P27", "REST requests for missing or duplicate objects are refused",
 "Reading, updating or deleting an object that does not exist is answered with 404 and creating one whose identifier already exists is answered as a conflict, for every element kind, project and adapter; a refused request changes nothing. Every error that is detected is actually returned to the client.",
 ["inputs", "histories"], "all request sequences on all element kinds",
 "No test exercises the REST API.",
 ["app/dao/", "app/backends/in_memory.py", "app/routers/"],
 [("storage access", "app/dao/*_dao.py"), ("project / adapter storage", "app/backends/in_memory.py")])
prop("P28", "A REST write affects exactly the addressed object",
 "A successful create, update or delete changes exactly the addressed object of the addressed adapter of the addressed project, is visible to the next read, and leaves every other object, adapter and project as it was; deleting removes what depends on the deleted object. All element kinds behave alike.",
 ["inputs", "histories"], "all request sequences over several projects and adapters",
 "No test exercises the REST API; cross-talk needs at least two projects or adapters.",
 ["app/dao/", "app/backends/in_memory.py", "app/dependencies.py", "app/routers/"],
 [("element storage", "app/dao/*_dao.py:add, update, delete"), ("project / adapter storage", "app/backends/in_memory.py:InMemoryBackend"), ("run-time registries", "app/dependencies.py")])
prop("P29", "Every REST endpoint can answer what it promises",
 "Each endpoint passes its path and body parameters on to the storage in the storage's order and number, touches only the addressed kind of element, and returns a value of the type it declares. Reading and writing the same object use the same address.",
 ["inputs"], "all endpoints and well-formed requests",
 "No test exercises the REST API.",
 ["app/routers/", "app/dao/", "app/backends/backend.py", "app/backends/in_memory.py"],
 [("endpoints", "app/routers/*.py"), ("storage signatures", "app/dao/*_dao.py, app/backends/backend.py")])
prop("P30", "Learning environments reset and step consistently",
 "Resetting a control environment builds a fresh simulation in which the learning agent decides and returns the first observation; each step applies exactly the agent's choice, runs the simulation until the next decision, and returns observation, reward, termination, truncation and info as the standard interface demands. Counters and pending decisions start anew with every episode.",
 ["histories", "inputs"], "all action sequences over any number of episodes",
 "No reliable test covers the environments.",
 ["prodsys/control/routing_control_env.py", "prodsys/control/sequencing_control_env.py", S+"router.py", S+"control.py"],
 [("routing environment", "prodsys/control/routing_control_env.py:AbstractRoutingControlEnv"), ("sequencing environment", "prodsys/control/sequencing_control_env.py:AbstractSequencingControlEnv"), ("decision hooks", S+"router.py:agent_routing_heuristic; "+S+"control.py:agent_control_policy")])
prop("P31", "Batches are complete and processed together",
 "A batch resource starts only when a full batch of requests is waiting, takes as many items of the product type as the batch size from its input, processes them together for one common duration, delivers all of them and announces each of them as finished exactly once.",
 ["schedules", "configurations"], "all batch sizes and arrival interleavings",
 "One test system with one batch size.",
 [S+"control.py"], [("batch dispatch", S+"control.py:BatchController.control_loop"), ("batch work", S+"control.py:BatchController.start_process, get_next_product_for_process, run_process")])
# not applicable to static analysis
prop("P40", "KPI values equal what the event log implies",
 "Throughput, throughput time, WIP, utilisation and cost figures equal the values that follow from the recorded events by their textbook definitions.",
 ["inputs"], "all event logs", "Tests compare a few figures of a few runs with a tolerance.",
 [U+"post_processing.py"], [("KPI tables", U+"post_processing.py:PostProcessor")])
prop("P41", "Feasible systems never deadlock",
 "In every configuration whose products can all be finished, products keep being finished: no combination of full queues, reservations and waiting transports blocks the system for ever.",
 ["schedules", "configurations"], "all feasible configurations and schedules", "Tests sample a few configurations.",
 [S+"control.py", S+"router.py", S+"store.py"], [("blocking waits", S+"router.py, "+S+"control.py")])
prop("P42", "Sampled durations follow the configured distribution",
 "The durations drawn from a time model are distributed with the configured mean and spread.",
 ["inputs"], "all distributions and parameters", "Tests check throughput within a tolerance.",
 [U+"statistical_functions.py", S+"time_model.py"], [("distributions", U+"statistical_functions.py")])
prop("P43", "Optimisation finds the best admissible configuration",
 "The mathematical optimisation returns an optimum of the stated model and the heuristics return the best candidate they have seen.",
 ["inputs"], "all scenarios", "Tests run no optimisation.",
 [O+"math_opt.py", O+"evolutionary_algorithm.py"], [("optimisers", O+"math_opt.py:MathOptimizer")])
prop("P44", "The detected warm-up end separates transient from steady state",
 "The automatically determined end of the warm-up phase lies after the transient of the throughput-time series.",
 ["inputs"], "all logs", "No test covers it.",
 [U+"warm_up_post_processing.py"], [("truncation", U+"warm_up_post_processing.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
if __name__ == "__main__":
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        n = p["statement"].count(". ") + 1
        if n > 3: print(p["id"], n)
    print(len(P))
