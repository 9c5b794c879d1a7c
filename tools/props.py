SOLVE = "Seeded random networks run with HiGHS, HiGHS in parallel and MicroLP; a recorder captures every node, edge and storage state after every time-step and scenario, and an online checker re-derives the expected state from the specification alone."
NOTE = "Exploration: holds on the executions observed; tolerances of 1e-5..1e-7 around solver feasibility tolerances."

prop("C01", "Water is conserved at every node in every time-step and scenario",
 "In every completed time-step and every scenario, the flow entering a link node equals the flow leaving it, and the volume of a storage node changes by exactly its net inflow multiplied by the length of the time-step. The inflow and outflow reported for a node are the sums of the flows on its edges, edge flows are never negative, and over the whole network the water supplied equals the water delivered plus the change in storage.",
 ["inputs", "configurations", "histories"], "Every network topology, time-step length, parameter input, scenario and solver.",
 "Tests compare a few dozen fixed models with stored results; conservation has to hold for every topology, history of storage states and solver, and a mistake may need a particular edge pattern or step length to show.",
 ["pywr-core/src/state/mod.rs", "pywr-core/src/state/storage.rs", "pywr-core/src/solvers/builder.rs", "pywr-core/src/network.rs"],
 [("mass balance rows and column sharing", "pywr-core/src/solvers/builder.rs create_columns/create_mass_balance_constraints"), ("flow and volume update", "pywr-core/src/state/mod.rs add_flow, complete")],
 ["recorder: node inflow/outflow, edge flow, volume per scenario after each time-step"],
 "runtime trace monitor (conservation)", SOLVE + " " + NOTE,
 state=[("edge flow", "flow on an edge in the current time-step", "NetworkState"), ("storage volume", "volume at the end of the time-step", "StorageState")])

prop("C02", "Flows and volumes stay within the limits in force at that time-step",
 "In every completed time-step and scenario, the flow through each node lies between the node's minimum and maximum flow and the volume of each storage lies between its minimum and maximum volume, where the limits are the values that the constants, profiles, scenario values or parameters defining them have in that time-step and scenario. A catchment delivers exactly its specified flow. The maximum and proportional volumes reported for a storage agree with its volume and its limits.",
 ["inputs", "configurations", "histories"], "Every combination of constant, time-varying, scenario-varying and state-dependent limits, on every node type and network.",
 "A limit may be constant, varying or state dependent, and each takes a different path to the solver; tests sample few combinations and rarely more than one scenario.",
 ["pywr-core/src/node.rs", "pywr-core/src/solvers/builder.rs", "pywr-core/src/metric.rs", "pywr-core/src/state/storage.rs"],
 [("bounds of a node", "pywr-core/src/node.rs get_bounds/get_const_bounds"), ("constant and updated row bounds", "pywr-core/src/solvers/builder.rs create_node_constraints/update_node_constraint_bounds")],
 ["recorder: node flows, volume, max volume, proportional volume"],
 "runtime trace monitor (limits recomputed from the specification)", SOLVE + " " + NOTE)

prop("C03", "Each time-step's allocation is feasible and of least total cost",
 "The flows chosen in each time-step satisfy every constraint of the model, and no other feasible allocation for that time-step has a lower total cost, where the cost is the sum over nodes of the current cost of the node multiplied by its flow (for storage, multiplied by its net inflow), including costs that virtual storage adds to its nodes. A run stops with an error at a time-step only if some scenario has no feasible allocation there.",
 ["inputs", "configurations", "histories"], "Every network, set of costs and limits, storage state and scenario, for each solver.",
 "Test models have expected flows chosen by hand for simple structures; optimality is a statement about all alternative allocations of every reachable state.",
 ["pywr-core/src/edge.rs", "pywr-core/src/solvers/builder.rs", "pywr-core/src/solvers/highs/mod.rs", "pywr-core/src/solvers/microlp/mod.rs", "pywr-core/src/node.rs"],
 [("cost of an edge", "pywr-core/src/edge.rs cost"), ("objective and row update", "pywr-core/src/solvers/builder.rs update"), ("solver wrappers", "pywr-core/src/solvers/{highs,microlp}/mod.rs solve")],
 ["recorder: edge flows and storage volumes; outcome of the run"],
 "runtime trace monitor with an independent LP reference and feasibility certificates", SOLVE + " The reference LP is stated densely from the specification and solved separately; a better allocation counts only with a feasibility certificate. " + NOTE)

prop("C04", "Aggregated nodes enforce their total limits and flow relationships",
 "In every completed time-step and scenario the total flow of the nodes in an aggregated node lies between its minimum and maximum flow, and the flows of the nodes obey the relationship given for them: in the given ratio, in the given proportions of the total, or with the given linear combination equal to the given right-hand side. The limits and factors used are the values they have in that time-step and scenario, whether constant or varying. Factors that are no relationship at a time-step - negative ones, zero (other than the first of a ratio), or proportions that total one or more - stop the run with an error at that time-step.",
 ["inputs", "configurations", "histories"], "Every set of nodes (connected or not), every relationship type, and constant and varying factors and limits.",
 "Constant and varying factors are built into the solver's matrix in different ways, and nodes may share matrix columns; tests only cover isolated nodes and few mixes.",
 ["pywr-core/src/aggregated_node.rs", "pywr-core/src/solvers/builder.rs"],
 [("factor pairs", "pywr-core/src/aggregated_node.rs get_*_factor_pairs"), ("factor rows", "pywr-core/src/solvers/builder.rs create/update_aggregated_node_factor_constraints")],
 ["recorder: node flows"],
 "runtime trace monitor (relationships recomputed from the specification)", SOLVE + " " + NOTE)

prop("C05", "Mutually exclusive nodes never exceed the allowed number of active nodes",
 "In every completed time-step and scenario, the number of nodes with flow in a mutually exclusive group does not exceed the group's maximum number of active nodes and at least the group's minimum number can count as active. A node that is active carries a flow between its minimum and maximum flow at that time-step and one that is inactive carries none, also if a node belongs to several groups or its limits vary.",
 ["inputs", "configurations", "histories"], "Every group composition and overlap, constant and varying limits, and all solvers that support exclusivity.",
 "Existing tests have a single group with constant limits; violations need overlaps, varying limits or minimum flows.",
 ["pywr-core/src/aggregated_node.rs", "pywr-core/src/solvers/builder.rs"],
 [("on/off columns and rows", "pywr-core/src/solvers/builder.rs create_columns, create_node_constraints, create_mutual_exclusivity_constraints")],
 ["recorder: node flows"],
 "runtime trace monitor with enumeration of on/off patterns", SOLVE + " Failures are only blamed on the code if a second solver fails too (HiGHS' MIP presolve is faulty). " + NOTE)

prop("C06", "Virtual storage accounts for use, recovery and resets exactly",
 "The volume of a virtual storage falls in each time-step by the sum of its nodes' flows multiplied by their factors and by the length of the time-step, and, with a rolling window, rises by the volume used one window earlier. It is reset exactly on the specified occasions (first time-step, outside the active season, on the given day of the year, or after the given number of months) to its initial or maximum volume as specified. While active it prevents use beyond the available volume, and its volume always stays within its limits.",
 ["inputs", "histories", "configurations"], "Every reset rule, window, season, factor set, time-step length and history of use.",
 "The volume depends on the complete history of use and resets; tests cover short daily histories with few rules.",
 ["pywr-core/src/virtual_storage.rs", "pywr-core/src/state/mod.rs", "pywr-schema/src/nodes/virtual_storage.rs", "pywr-core/src/solvers/builder.rs"],
 [("reset and recovery", "pywr-core/src/virtual_storage.rs before"), ("history", "pywr-core/src/state/mod.rs VirtualStorageState"), ("constraint", "pywr-core/src/solvers/builder.rs update_virtual_storage_node_constraint_bounds")],
 ["recorder: virtual storage volume and node flows"],
 "runtime trace monitor (reference accounting model)", SOLVE + " " + NOTE,
 state=[("volume", "remaining licence volume", "VirtualStorageState"), ("history", "volumes used in the rolling window", "VirtualStorageHistory"), ("last reset", "time-step of the last reset", "VirtualStorageState")])

PAR = "Seeded random graphs of parameters of every type (shuffled in the file, mixed phases, several scenarios, step lengths from hours to weeks) drive and observe a small water network; every parameter value is recorded in every time-step and compared with a reference evaluator that propagates error bounds and skips comparisons that are too close to call."
PNOTE = "Exploration: holds on the values observed; comparisons within rounding error of a threshold are not judged."

prop("C07", "Parameters compute their documented function of their current inputs",
 "In every time-step and scenario each memoryless parameter (constant, scenario constant, aggregated, aggregated index, min, max, negative, negative min and max, offset, division, polynomial, interpolated, indexed array, arrays by time-step and scenario, discount factor, hydropower target, the control curve family, deficit, difference, apportion, volume between control curves, and Muskingum routing as a function of present inputs) has the value that its documented function gives for the values of its inputs in the same scenario: parameters evaluated before the allocation see this time-step's parameter values and the previous time-step's flows and volumes (initial ones in the first time-step), those evaluated after it see the allocation's results. A run stops with an error, not a value, where the function is undefined.",
 ["inputs", "configurations"], "Every parameter type, configuration, input value, phase and scenario.",
 "Unit tests call functions with sample numbers; here every branch (ends of curves, equal values, index clamps, missing options, phases) is reached in combination with others in a running model. The repository's own core unit tests are not part of the stable suite.",
 ["pywr-core/src/parameters", "pywr-schema/src/parameters", "pywr-core/src/metric.rs"],
 [("parameter calculations", "pywr-core/src/parameters/*.rs before/after/compute"), ("schema to core", "pywr-schema/src/parameters/*.rs add_to_network"), ("values of metrics", "pywr-core/src/metric.rs get_value")],
 ["recorder: every parameter's before, after and keyed values"],
 "runtime trace monitor (reference evaluator with error bounds)", PAR + " " + PNOTE)

prop("C08", "History-dependent parameters follow their input's exact history per scenario",
 "In every time-step and scenario a delay parameter has the value its input had the given number of time-steps earlier (the given initial value before that), a rolling parameter aggregates exactly the last values of its window (the initial value until enough values exist), an asymmetric switch and a ratcheting threshold change state only on their on and off conditions and otherwise keep it, and a threshold compares its input with its limit by the given predicate. Each scenario has its own history, and a new run starts from none.",
 ["inputs", "histories", "configurations"], "Every history of inputs, window or delay length, phase, predicate, ratchet and scenario.",
 "The value depends on the whole history and on the phase in which inputs are stored; tests have short single-scenario histories.",
 ["pywr-core/src/parameters/delay.rs", "pywr-core/src/parameters/rolling.rs", "pywr-core/src/parameters/asymmetric.rs", "pywr-core/src/parameters/threshold.rs", "pywr-core/src/parameters/multi_threshold.rs"],
 [("history", "pywr-core/src/parameters/{delay,rolling}.rs before/after"), ("latches", "pywr-core/src/parameters/{asymmetric,threshold,multi_threshold}.rs")],
 ["recorder: parameter values and flows of every step"],
 "runtime trace monitor (reference history model)", PAR + " " + PNOTE,
 state=[("memory", "queue of past values of a delay or rolling parameter", "internal parameter state"), ("latch", "whether a ratcheting threshold or switch is on", "internal parameter state")])

prop("C09", "Profiles give the value of the calendar date and time of the time-step",
 "In every time-step a daily profile gives its value for the day of the year (366 values, 29 February in its own place in every year), a monthly profile its month's value or the stated linear interpolation within the month, a weekly profile its week's value (the 53rd week as documented) or the stated interpolation, a diurnal profile the hour's value, a uniform drawdown profile the straight line from one on the reset date to the residual at the next reset, with leap years counted as they are, and an RBF profile a smooth curve through its points, periodic over the year. The value depends only on the date and time, whatever the step length or start date.",
 ["inputs", "configurations"], "Every date including leap days, century and year ends, step lengths from hours to weeks, and every profile option.",
 "Calendar edge cases (29 February, 31 December of leap years, resets at year end) are hit on single days of some years; tests run over one or two years.",
 ["pywr-core/src/parameters/profiles", "pywr-core/src/timestep.rs", "pywr-schema/src/parameters/profiles.rs"],
 [("profile values", "pywr-core/src/parameters/profiles/*.rs compute"), ("day of year index", "pywr-core/src/timestep.rs day_of_year_index")],
 ["recorder: profile values at every time-step"],
 "runtime trace monitor (calendar reference)", PAR + " " + PNOTE)

prop("C11", "A model runs exactly the scenarios it specifies, with their own data",
 "The scenarios of a run are the product of the scenario groups (the last group varying fastest), restricted to the subset of each group (slice, indices or labels; kept in the order of the group), or else the listed combinations in the order listed. Each scenario has its label and index in every group as specified, and scenario-dependent inputs (scenario constants, arrays by scenario, timeseries columns of a group) take the data of that index of the full group, whichever subset is run. An invalid specification (duplicate or empty group, wrong number of labels, unknown label, index or slice out of range, combination of the wrong length, subsets together with combinations) is rejected with an error.",
 ["configurations", "inputs"], "Every number and size of groups, labels, subset kinds, combination lists, and invalid variants of them.",
 "The mapping from simulated to specified scenarios differs per kind of subset and per kind of data, and off-by-one or order mistakes only show with particular subsets of several groups.",
 ["pywr-core/src/scenario.rs", "pywr-schema/src/model.rs", "pywr-schema/src/timeseries/mod.rs", "pywr-core/src/parameters/array.rs", "pywr-core/src/parameters/constant_scenario.rs"],
 [("scenario domain", "pywr-core/src/scenario.rs ScenarioDomainBuilder::build"), ("data by scenario", "pywr-core/src/parameters/{array,constant_scenario}.rs, pywr-schema/src/timeseries")],
 ["recorder: scenario indices, labels and the values of scenario-dependent parameters"],
 "runtime trace monitor (reference enumeration)", "Random groups, labels, subsets and combinations with data that identify the scenario they belong to; every value of every scenario is compared with the specification, and invalid specifications must be rejected by an error. Exploration over the specifications generated.")

prop("C12", "The results of a scenario depend only on its own inputs",
 "The flows, volumes and parameter values of a scenario are the same whether it is run with all others, in a subset or in a list of combinations, whether the scenarios run in parallel or one after another, whatever data the other scenarios have, and whether or not a scenario group is added on which nothing depends.",
 ["inputs", "configurations", "histories"], "Every model with several scenarios, including parameters and virtual storage that keep a history, for every solver and thread count.",
 "Leaks between scenarios (a shared solver, memory indexed by the wrong scenario, a value kept from the scenario before) change results only for particular data and orders of evaluation.",
 ["pywr-core/src/network.rs", "pywr-core/src/state/mod.rs", "pywr-core/src/solvers", "pywr-core/src/parameters", "pywr-core/src/virtual_storage.rs"],
 [("step over scenarios", "pywr-core/src/network.rs step, step_par"), ("state per scenario", "pywr-core/src/state/mod.rs")],
 ["recorder: all flows, volumes and parameter values of two runs"],
 "runtime differential monitor (pairs of runs)", "Random networks and parameter graphs are run in full and again restricted to a subset or combinations, with other scenarios' data changed, or with an unrelated group; the common scenarios must agree exactly. Exploration over the pairs run.")

prop("C14", "Time-steps cover the specified period with the specified lengths",
 "The first time-step is at the start date, the n-th is n steps (hours, days, or calendar period counted from the start, with months clamped to their last day) after it, and the last is the last that starts no later than the end date. The length of a time-step, used for volumes, is the time to the start of the next, and the model reports a fixed length only if all are equal. A domain without time-steps, a length that is not positive, or one that cannot be parsed is rejected with an error.",
 ["inputs", "configurations"], "Every start and end, in leap years and at month ends, and every step in hours, days, weeks, months, quarters or years.",
 "Month ends, leap days and the last time-step only go wrong for particular start dates and lengths.",
 ["pywr-core/src/timestep.rs", "pywr-schema/src/model.rs", "pywr-core/src/models/mod.rs"],
 [("time-steps", "pywr-core/src/timestep.rs TimeDomainBuilder::build")],
 ["recorder: date, index and length of each time-step, storage volumes, profile values; the time domain of the model"],
 "runtime trace monitor (calendar reference)", "Random starts, ends and step specifications; a reference calendar predicts every time-step, its length and the volume of a storage with constant inflow; invalid specifications must be rejected. Exploration over the domains generated.")

prop("C22", "Composite nodes act as the network of basic nodes they are documented to be",
 "A model with composite nodes (links with soft minimum or maximum, loss links, treatment works, rivers with routing or loss, river gauges and gauges with splits, abstractions, piecewise links and storages, delays, turbines, reservoirs with spill, compensation, leakage, rainfall and evaporation) allocates water in every time-step exactly as the documented network of inputs, links, outputs, storages and relations does: the same sub-nodes and connections, the same limits, costs, loss and split factors, delays and routing, zone volumes, areas and heads, so that the same allocations are feasible and the one chosen is of least cost among them. It fails only where that network has no feasible allocation.",
 ["inputs", "configurations", "histories"], "Every combination of optional settings of each composite node (constant or varying in time), upstream, downstream and next to other composite nodes, over several time-steps.",
 "Each option adds nodes, connections and constraints; tests run one or two settings of each node, so a cost, limit or connection that goes to the wrong sub-node under other settings is not seen.",
 ["pywr-schema/src/nodes", "pywr-core/src/solvers/builder.rs", "pywr-core/src/aggregated_node.rs"],
 [("expansion into sub-nodes", "pywr-schema/src/nodes/*.rs add_to_network"), ("connectors", "pywr-schema/src/nodes/*.rs input_connectors/output_connectors")],
 ["recorder: flows of all edges, volumes of all sub-stores, outcome of the run"],
 "runtime trace monitor with a reference expansion and LP", "Random chains of composite nodes with random options are run and expanded by an independent reference into basic nodes; in every time-step the edge flows have to satisfy the reference problem (built from the observed state before the step) and be of least cost in it, and the sub-nodes and edges have to be those of the reference. " + NOTE,
 state=[("zone volumes", "volumes of the sub-stores", "StorageState"), ("routing history", "past inflows of delays and routed rivers", "delay parameter state")])

prop("C23", "Attributes and components of nodes mean the flows they are documented to be",
 "For every node type each attribute (inflow, outflow, loss, compensation, rainfall, evaporation, abstraction, deficit, power, volume, maximum and proportional volume, and the default one) reports in every time-step the documented flow, volume or derived value of the node, or zero where the optional part is absent, and each component used in an aggregated node or virtual storage stands for exactly the documented flows of the node: limits, factors and use of licence apply to all of them and nothing else, with the factor given for that reference.",
 ["inputs", "configurations"], "Every attribute and component of every node type under every combination of the node's optional settings.",
 "An attribute is computed from a set of sub-nodes which differs with the node's options; tests record a few attributes of single settings.",
 ["pywr-schema/src/nodes", "pywr-core/src/metric.rs", "pywr-core/src/aggregated_node.rs", "pywr-core/src/virtual_storage.rs"],
 [("attributes", "pywr-schema/src/nodes/*.rs create_metric"), ("components", "pywr-schema/src/nodes/*.rs nodes_for_flow_constraints"), ("factors of references", "pywr-schema/src/nodes/virtual_nodes/*.rs")],
 ["recorder: parameters reading every attribute after the allocation, edge flows, volumes, virtual storage volumes"],
 "runtime trace monitor (reference expansion)", "The models of C22 with a parameter reading every attribute of every node, and aggregated nodes and virtual storages over random components; values, limits and volumes are derived from the flows of the documented sub-nodes. " + NOTE)

prop("C15", "Outputs hold every recorded value exactly once, correctly labelled",
 "After a completed run a CSV output (long: one row per value; wide: one row per time and one column per scenario and metric), HDF5 output and in-memory output hold, for each of their metric sets, exactly one value for every metric, scenario and time-step (or period of the set's aggregator), in order of time: the value which the metric had at the end of that time-step in that scenario, under its own name and attribute, scenario number and label, and start (and end) time. Values are exact, except that long CSVs round to the decimal places asked for and wide ones to two; a metric set contains its listed metrics in order followed by those of its filters that are not listed already.",
 ["inputs", "configurations"], "Every metric set (nodes, edges, virtual nodes, parameters before and after the allocation, filters), time-step, scenario domain, names with any characters, and combination of outputs.",
 "The mapping from state to rows, columns and datasets is indexed by scenario, metric set, metric and time; tests compare a few files with one metric set and plain names.",
 ["pywr-core/src/recorders/csv.rs", "pywr-core/src/recorders/hdf.rs", "pywr-core/src/recorders/memory.rs", "pywr-core/src/recorders/metric_set.rs", "pywr-schema/src/metric_sets", "pywr-schema/src/outputs"],
 [("values of a metric set", "pywr-core/src/recorders/metric_set.rs save/finalise"), ("writers", "pywr-core/src/recorders/{csv,hdf,memory}.rs save/finalise")],
 ["recorder: node, edge, virtual storage and parameter values after every time-step; output files and results after the run"],
 "runtime monitor comparing output files with the recorded trace", "Random models with random metric sets, filters, awkward names, scenario subsets and outputs of every kind; an independent recorder sees the state after every step and every value in the files is matched with it. Exploration over the models generated.")

prop("C16", "Aggregated outputs apply the function to exactly the values of each period",
 "A metric set with an aggregator yields one value for every calendar month, calendar year or consecutive run of the given number of days from the start of the run (or one for the whole run), the last period being cut at the end of the run: the function (sum, mean weighted by duration, product, minimum, maximum, number of non-zero values, any value beyond a tolerance) of the values in that period, where a value lasting over a boundary counts on either side for the time it lasts there; a nested aggregator is applied to the values of its child in the same way. An in-memory output combines its values over metrics, time (means weighted by duration) and scenarios in the specified order with the function given for each dimension; a dimension with a single value needs none, and a missing function, or a period that is not a positive number of days, is refused with an error.",
 ["inputs", "histories", "configurations"], "Every frequency, function and nesting, time-step length not aligned with the periods, start date and run length.",
 "Periods, boundaries, unfinished periods and nesting interact with the length and start of time-steps; tests use daily steps and single levels.",
 ["pywr-core/src/recorders/aggregator/mod.rs", "pywr-core/src/recorders/metric_set.rs", "pywr-core/src/recorders/memory.rs", "pywr-core/src/agg_funcs", "pywr-schema/src/outputs/memory.rs"],
 [("periods", "pywr-core/src/recorders/aggregator/mod.rs append_value/finalise"), ("memory aggregation", "pywr-core/src/recorders/memory.rs aggregated_value")],
 ["recorder: values of every step; output files, data frames and aggregated values after the run"],
 "runtime monitor comparing outputs with a reference aggregation of the recorded trace", "Random step lengths, start dates, run lengths, nested aggregators and memory aggregations; the reference aggregates the values an independent recorder saw. Exploration over the models generated.",
 state=[("period in progress", "values of the unfinished period for each level of aggregation", "aggregator state")])

prop("C17", "In a model of several networks each behaves as it would alone with its transfers",
 "Every network of a multi-network model has in every time-step and scenario the flows, volumes, parameter values and outputs it would have in a model of its own in which the values transferred to it are given as data, whatever the solver and number of threads. A transfer has the value of its metric in the source network in the same scenario, at the end of the current time-step if the source is listed before the receiving network and at the end of the previous time-step if it is listed after it; on the first time-step it has its initial value if it has one, and flows and parameters not calculated yet count as zero. Networks with the same name, transfers with the same name in one network, and transfers from an unknown network, from the network itself, of a metric that does not exist, or referred to but not defined, are rejected with an error.",
 ["inputs", "configurations", "histories"], "Every number and order of networks, kind of transferred metric, chain and cycle of transfers, scenario domain and solver.",
 "Tests have two networks with one constant transfer each, where a value from the wrong time-step, scenario or network goes unnoticed.",
 ["pywr-core/src/models/multi.rs", "pywr-core/src/state/mod.rs", "pywr-schema/src/model.rs", "pywr-schema/src/metric.rs"],
 [("transfers", "pywr-core/src/models/multi.rs compute_inter_network_transfers"), ("order of networks", "pywr-core/src/models/multi.rs step, step_multi_scenario"), ("resolution", "pywr-core/src/models/multi.rs MultiNetworkModelBuilder::build, pywr-schema/src/model.rs")],
 ["recorder in each network: transferred values, flows, volumes, parameters; outputs of each network"],
 "runtime differential monitor (multi-network run against single runs)", "Random networks with random transfers (flows, volumes, edges, parameters of both phases, constants, chains, cycles) in models with two to four networks; transferred values are matched with the source's trace, and each network is run again alone with the recorded values as data and has to agree exactly. Exploration over the models generated.",
 state=[("transfer value", "value given to a receiving network in this time-step", "State inter_network_values")])

prop("C10", "Models that are not well defined are refused when they are built",
 "Building a model fails with an error, and never with a panic, if any reference in it - in an edge, metric, virtual node, parameter, metric set, output or local parameter - is to a node, slot, attribute, component, parameter, value of a phase, virtual node, edge, table, timeseries, scenario group, transfer or metric set that does not exist; if two nodes, virtual nodes, parameters (of any type), metric sets or edges are the same; if parameters depend on each other in a cycle within a phase; if a node is connected to itself, an input receives, an output supplies or a node lacks an edge it needs; if a placeholder remains; or if a metric set is empty or lists a literal, a rolling window is empty, or a field needs another one that is missing. It also fails if the number of values of a profile, a control curve, an interpolation, a threshold or a scenario constant, or of factors of a virtual storage does not fit; a wrong number of factors of a relationship stops the run before its first time-step completes. A model without such a defect is accepted, whatever the order in which its nodes and parameters are listed.",
 ["inputs", "configurations"], "Every model and every single defect of these kinds in any place of it.",
 "There are hundreds of places that refer to something by name, each with its own loading code; a reference that silently resolves to something else, or a cycle that is broken at random, gives wrong results without an error, and tests contain hardly any invalid models.",
 ["pywr-core/src/network.rs", "pywr-core/src/parameters/mod.rs", "pywr-core/src/metric.rs", "pywr-core/src/node.rs", "pywr-schema/src/network.rs", "pywr-schema/src/metric.rs", "pywr-schema/src/edge.rs"],
 [("index maps and duplicates", "pywr-core/src/network.rs NetworkBuilder::build_resolution_map"), ("parameter dependency order", "pywr-core/src/parameters/mod.rs ParameterCollectionBuilder::build"), ("node structure", "pywr-core/src/node.rs NodeBuilder::build"), ("slots", "pywr-schema/src/edge.rs, nodes/*.rs input_connectors/output_connectors")],
 ["outcome of building the model: accepted, error or panic"],
 "runtime monitor of model building with injected defects", "Random models with every node and parameter type are built, then rebuilt with one defect injected at a random place found by walking the model; the monitor demands an error and catches panics, and evidence lists the distinct places. Exploration over the models and places drawn.")

prop("C13", "Running a model again gives exactly the same results",
 "A model gives results that are identical to the last bit - every flow, volume, virtual storage volume and parameter value of every time-step and scenario, and every output - when it is run again: from the same built model, from one built again from the same file, with its parameters, metric sets or outputs listed in another order, with any number of threads, step by step, interleaved with or concurrently to other runs of the same built model. This includes whether and at which time-step a run stops with an error, and models of several networks.",
 ["schedules", "histories", "configurations"], "Every model, schedule of threads and steps, number of threads, and order of listing.",
 "Nothing in a single run shows that its result depends on the iteration order of a hash map, on the schedule of threads or on state left over from another run; it takes repetition under different conditions and comparison of the complete state.",
 ["pywr-core/src/models/simple.rs", "pywr-core/src/models/multi.rs", "pywr-core/src/network.rs", "pywr-core/src/parameters/mod.rs", "pywr-core/src/solvers/mod.rs", "pywr-core/src/state/mod.rs"],
 [("set-up, steps and finalisation", "pywr-core/src/models/simple.rs setup, step, finalise"), ("parallel steps", "pywr-core/src/network.rs step_par, step_multi_scenario"), ("order of parameters", "pywr-core/src/parameters/mod.rs ParameterCollectionBuilder::build")],
 ["recorder and state: all flows, volumes, parameters; output files; aggregated results; outcome"],
 "runtime differential monitor (repeated, interleaved, concurrent and parallel runs)", "Random models of networks, parameters, composites and several networks are run in several ways and their complete traces, CSV files and aggregated results compared bit by bit. Exploration over models and the schedules that occurred; counts of interleavings and thread numbers are in the evidence.")

prop("C20", "Table references give the numbers in the file at the referenced keys",
 "A reference to a table gives exactly the number, or for an array the sequence of numbers, that the file has at the referenced keys, for scalar and array tables with keys in rows, columns or both and any number of keys that the format supports, wherever constants, indices or arrays may be given by a table. A reference is refused when the model is built, with an error and no panic, if its table or key is unknown, has the wrong number or order of keys, or if the entry is not a number, not a whole number that can be represented exactly where an index is needed, or an array of the wrong length. So are two tables of the same name, missing files, contents that do not fit the form of the table and a file that does not match the given checksum.",
 ["inputs", "configurations"], "Every table file, form of table, key and place of use.",
 "Keys and values are taken from positions in a file; a shift by a row or column gives plausible numbers, and the tests have few tables of few forms.",
 ["pywr-schema/src/data_tables/scalar.rs", "pywr-schema/src/data_tables/vec.rs", "pywr-schema/src/data_tables/mod.rs", "pywr-schema/src/digest.rs"],
 [("loading", "pywr-schema/src/data_tables/{scalar,vec}.rs"), ("checksums", "pywr-schema/src/digest.rs"), ("lookup", "pywr-schema/src/data_tables/mod.rs LoadedTableCollection")],
 ["recorder: parameter values defined by table references; outcome of building"],
 "runtime monitor (generated files with known contents)", "Random CSV files in every form are written, all of their entries are referred to in different places and their values in a running model compared with what was written; defects are injected and must be refused. Exploration over the files generated.")

prop("C21", "Timeseries give every time-step the data of its date",
 "In every time-step and scenario a timeseries gives the value of its data for the date of the time-step in the referenced column, or in the column of the scenario's member of the referenced group: the value at the same time if the data have the spacing of the model's time-steps, the mean of the data within the time-step if they are finer, and the most recent value if they are coarser. The order of rows, data before or after the model's period, subsets of scenarios and other columns do not matter, and different references to the same timeseries do not affect each other. Data that do not cover the period, are not evenly spaced, repeat times, lack numbers, do not match the scenario group or the checksum, and references to unknown timeseries, columns or groups give an error, at the latest when the run reaches the time-step, and never other values or a panic.",
 ["inputs", "configurations"], "Every file, spacing of data and time-steps, period, scenario domain and place of use.",
 "Alignment depends on dates, spacing and resampling; a shift by one row still gives plausible flows, and the tests have a single daily series.",
 ["pywr-schema/src/timeseries/mod.rs", "pywr-schema/src/timeseries/align_and_resample.rs", "pywr-schema/src/timeseries/polars_dataset.rs", "pywr-core/src/parameters/array.rs"],
 [("alignment", "pywr-schema/src/timeseries/align_and_resample.rs"), ("references", "pywr-schema/src/timeseries/mod.rs load_column_f64, load_df_f64"), ("values in time", "pywr-core/src/parameters/array.rs")],
 ["recorder: values of parameters which refer to timeseries; outcome of building and running"],
 "runtime monitor (generated files with known contents)", "Random CSV series with known values, spacings, periods and row orders are read by models with different time-steps and scenario domains, and every value is compared with the data of its date; defects are injected. Exploration over the files generated.")

FILES = "Files with every component, field and alternative that the JSON schema of model files lists (a pinned copy) are generated together with a list of the places in them; "

prop("C18", "Model files are read and written without loss, and malformed ones are refused",
 "Reading any valid model file, of one or several networks, and writing it as JSON loses and changes nothing in it (numbers to the last rounding error) and adds nothing but fields with their defaults (null, false, empty, the default format); what is written reads as the same model again, and the form of the text - order of fields, white space, escapes, notation of numbers - makes no difference to what is read or to the results of a run. A file is refused with an error, never a panic, if its text is damaged, a required field is missing, or a value has the wrong type or is no known choice. So is one with an unknown field in a node, virtual node, parameter, metric, constant value, time-step, scenario domain, network, transfer, metric set, aggregator, filter, timeseries or relationship that has fields other than its type; the top level, meta data, edges and their slots, tables and outputs accept unknown fields.",
 ["inputs"], "Every file of every combination of components, optional fields and values.",
 "There are more than a hundred types of components with hundreds of optional fields; a field that is ignored, renamed or left out when written goes unnoticed in the few files that tests read, and silently changes the model a user believes to have.",
 ["pywr-schema/src/model.rs", "pywr-schema/src/network.rs", "pywr-schema/src/nodes", "pywr-schema/src/parameters", "pywr-schema/src/metric.rs", "pywr-schema-macros/src/lib.rs"],
 [("form of the file", "serde attributes of the types in pywr-schema/src"), ("reading", "pywr-schema/src/model.rs from_str/from_path")],
 ["text written after reading; error of reading; trace of a run"],
 "runtime monitor of reading and writing (round trips of generated files, injected defects)", FILES + "each is read, written, read again and compared, and defects are injected at those places. Models that run are run from different texts. Exploration over the files generated.")

prop("C19", "Visitors reach every metric, path and node reference of a model",
 "Visiting the metrics of a model file's schema calls the function exactly once for every metric in it, wherever it is held - in fields, lists, maps and nested types of nodes, virtual nodes, parameters and metric sets -, visiting its paths exactly once for every path (of timeseries, tables, outputs and parameters), and visiting its node references exactly once for every name of a node that stands in an edge, a metric, a virtual node or a parameter. The mutating visitors reach the same places and replace nothing else, so that renaming every node with its references or moving every file with its path gives a model with the same results.",
 ["inputs"], "Every model: every type of component and every place in it.",
 "The visiting code is derived by macros per type, with default implementations that visit nothing; a type that is left out is only noticed in a model that holds something exactly there, and tests visit one model.",
 ["pywr-schema/src/visit.rs", "pywr-schema-macros/src/lib.rs", "pywr-schema/src/metric.rs", "pywr-schema/src/edge.rs", "pywr-schema/src/nodes", "pywr-schema/src/parameters"],
 [("visitors", "pywr-schema/src/visit.rs VisitMetrics, VisitPaths, VisitNodeReferences"), ("derived visitors", "pywr-schema-macros/src/lib.rs")],
 ["arguments of the visiting functions; model written after a mutating visit; trace of the run after renaming or moving"],
 "runtime monitor of visitor calls against recorded places, and differential runs", FILES + "calls of the visitors are matched with that list. Models are renamed or moved with the visitors and run again. Exploration over the files generated.")

prop("C24", "Running models neither corrupts nor leaks memory",
 "Reading, building, running in series or in parallel, and releasing any model, with the HiGHS and MicroLP solvers and with CSV, HDF5 and in-memory outputs, reads and writes only memory that is allocated and has a value, passes only initialised data of sufficient length to the C libraries (HiGHS, HDF5), and releases all memory again when the model and its state are dropped. This holds also for runs that stop with an error, models that are refused, and solvers that are set up again and again.",
 ["inputs", "histories", "schedules"], "Every model, solver, output and outcome.",
 "The solver interface passes raw pointers and lengths to a C library; reading a few bytes too many or losing a solver's memory changes no result of a test.",
 ["pywr-core/src/solvers/highs/mod.rs", "pywr-core/src/solvers/builder.rs", "pywr-core/src/recorders/hdf.rs", "pywr-core/src/models/simple.rs"],
 [("calls of HiGHS", "pywr-core/src/solvers/highs/mod.rs"), ("release", "pywr-core/src/solvers/highs/mod.rs Drop")],
 ["all memory accesses, allocations and releases of the process (memcheck)"],
 "Valgrind memcheck over the workloads of the other monitors", "Cases of twenty other checks run under Valgrind memcheck with leak checking; a report that has pywr code in its stack, or lost memory, is a violation. Exploration over the cases that fit in the time.")

prop("C26", "Values set through the variable API take effect exactly where they are set",
 "Setting the variable values of a parameter in all scenarios or in one (Network::set_f64_parameter_variable_values, set_u32_..., ..._for_scenario) makes that parameter have, from the next calculated time-step on and in exactly those scenarios, the value its definition gives with the values that were set - the activation function applied to the value of a constant or an offset, the new values or days of the points of an RBF profile -, and leaves every other parameter and scenario as it was. What was set reads back unchanged until it is set again, in mid-run also; a wrong number of values is refused with an error and without effect. Sizes and bounds reported for a variable are those of its activation function or of its profile's settings.",
 ["histories", "inputs"], "Every sequence of settings, scenarios and time-steps for every variable parameter.",
 "An optimiser sets variables thousands of times on models with scenarios; state left from an earlier setting or written for another scenario only shows in sequences that no test has.",
 ["pywr-core/src/network.rs", "pywr-core/src/parameters/mod.rs", "pywr-core/src/parameters/constant.rs", "pywr-core/src/parameters/offset.rs", "pywr-core/src/parameters/profiles/rbf.rs", "pywr-core/src/parameters/activation_function.rs"],
 [("setting and getting", "pywr-core/src/network.rs set_f64_parameter_variable_values..."), ("use", "pywr-core/src/parameters/{constant,offset}.rs compute, profiles/rbf.rs set_variables")],
 ["values of the parameters and flows they limit after each time-step; values read back; errors"],
 "runtime monitor (reference model of variables over random histories of settings and steps)", "Random models with variable parameters are stepped while values are set and read in random scenarios; values, flows and what reads back are compared with a reference. Exploration over the histories generated. Known finding: variables of Constant parameters have no effect on runs.",
 state=[("variable values", "values set per parameter and scenario", "ParameterState of each scenario")])

prop("C25", "Pywr 1 models convert to models that give the same results",
 "A Pywr 1 model made of components that can be converted is converted without an error to a model that runs to the flows, volumes and values that its components define in Pywr 1 - those of an equivalent model written directly -: nodes with their limits, costs, factors, losses and slots, virtual storages and aggregated nodes, time-stepping, scenarios and their slices, parameters of every kind, given inline or by name, control curves, profiles, and data read from files. Whatever can not be converted (components, attributes, parameters, tables, references, wrong numbers of values) is reported by an error that names it - each of them, if there are several -, never a panic and never silently dropped or changed, and the rest of the model is converted as it is without it.",
 ["inputs", "configurations"], "Every Pywr 1 model, and every defect or unsupported component in any place of it.",
 "Every component has conversion code of its own, with renamed, inverted and defaulted fields; tests convert a few files and compare the text of the result, not what it computes.",
 ["pywr-schema/src/v1.rs", "pywr-schema/src/model.rs", "pywr-schema/src/network.rs", "pywr-schema/src/nodes", "pywr-schema/src/parameters", "pywr-schema/src/metric.rs", "pywr-schema/src/timeseries", "pywr-schema/src/edge.rs"],
 [("models", "pywr-schema/src/model.rs ModelSchema::from_v1, network.rs from_v1"), ("components", "TryFromV1 / TryIntoV2 of nodes and parameters"), ("data", "pywr-schema/src/v1.rs ConversionData")],
 ["converted schema and the list of errors; values, flows and volumes of a run of the converted model"],
 "runtime differential monitor (converted model against one written directly)", "Random Pywr 1 models are written together with an equivalent version 2 model; both are run and compared step by step, and components with defects are injected, each of which has to be reported without effect on the rest. Exploration over the models generated.")

prop("C27", "Parameters local to a node act as global ones that only this node can see",
 "A parameter defined in a node or virtual node and referred to with LocalParameter, in the fields of that node or in its other local parameters, has the values, and gives the model the flows and outputs, that it would have if it were a global parameter referred to by name, whatever the type of the node, the field and the parameter. Parameters of the same name in other nodes and global ones are separate from it. A reference to it from any other place, to one that is not defined in the node, and two of the same name in a node are refused with an error.",
 ["inputs", "configurations"], "Every type of node and virtual node, field of it, and type and nesting of local parameters.",
 "Each node and parameter type passes the name of its node on in its own loading code; where one does not, a reference finds another parameter of the same name without an error.",
 ["pywr-schema/src/metric.rs", "pywr-schema/src/network.rs", "pywr-schema/src/nodes", "pywr-schema/src/parameters", "pywr-core/src/parameters/mod.rs"],
 [("references", "pywr-schema/src/metric.rs Metric::load, IndexMetric::load"), ("definitions", "pywr-schema/src/nodes add_to_model, parameters add_to_model")],
 ["values of local parameters, flows and volumes of each time-step; errors when building"],
 "runtime differential monitor (local against global parameters)", "Random models in which parameters are local to nodes of every type are run against the same models with global parameters; both must agree bitwise. Exploration over the models generated.")

prop("C28", "Python parameters and functions compute what their code returns",
 "A Python parameter has, in every time-step, phase and scenario, the value that its function, or the method of its class for that phase, returns for its arguments, the time-step, the scenario and the current values of its metrics and indices, as a number, an index or a value per key; it is called exactly once for each of them, with an instance of the class of its own for each scenario and run. An aggregation function in Python (of an aggregated, rolling or index parameter, or a metric set) is given the values to be aggregated in their order and its result is used. An exception, a result of another type, or a missing file, module, object or method is reported as an error, which names the parameter when it happens in a run, and never as a panic.",
 ["inputs", "histories", "configurations"], "Every object, return type, argument, metric and index, with scenarios, both phases and parallel runs, and every fault at any step.",
 "Tests call a constant function and one class in one scenario, where calls that are repeated, skipped, in the wrong scenario or phase, or made with values of another step go unnoticed.",
 ["pywr-core/src/parameters/py.rs", "pywr-core/src/agg_funcs", "pywr-schema/src/parameters/python.rs", "pywr-schema/src/py_utils.rs", "pywr-schema/src/agg_funcs.rs"],
 [("calls", "pywr-core/src/parameters/py.rs before, after, compute"), ("loading", "pywr-schema/src/parameters/python.rs, py_utils.rs"), ("aggregation functions", "pywr-core/src/agg_funcs")],
 ["calls logged by the Python code; values of every parameter, step, phase and scenario; errors"],
 "runtime monitor (reference model of the Python code, call log checker, fault injection)", "Random models with Python parameters of all kinds; every value is compared with a reference of the Python code, the log of calls is checked for exactly-once and order, and exceptions, wrong results and broken files are injected at random steps. Exploration over the models generated. Known finding: an exception in the aggregation function of a metric set is a panic.",
 state=[("instances", "object of the class for each scenario and run", "Python parameter state")])

prop("C29", "The interior-point solver allocates as well as the others or refuses the model",
 "With the interior-point solver, for any number of scenarios (simulated together in groups of four, or one by one), the flows of every completed time-step and scenario satisfy all constraints of that scenario - flow and volume limits and the mass balance of nodes and storages, with the limits and costs of that time-step -, and no feasible allocation has a total cost lower by more than the precision of the method (about 1%). A model with aggregated nodes, virtual storages or mutually exclusive nodes, which this solver does not have, is refused with an error before the first time-step, unless the settings tell to ignore this, and a run in which the method does not find a solution (a few in a hundred) stops.",
 ["inputs", "configurations", "histories"], "Every network without these features, any number of scenarios and threads, time-step length, and limits and costs that vary with time, scenario and state.",
 "Tests run a few models with it and compare flows of one or a few scenarios; matrices, bounds and costs are filled in per lane of four scenarios, and a mistake shows only for some numbers of scenarios, steps of other lengths, or values that differ between lanes.",
 ["pywr-core/src/solvers/ipm_simd/mod.rs", "ipm-simd/src", "pywr-core/src/network.rs", "pywr-core/src/solvers/mod.rs"],
 [("matrix, bounds and costs", "pywr-core/src/solvers/ipm_simd/mod.rs SolverBuilder, BuiltSolver"), ("method", "ipm-simd/src/primal_dual"), ("features", "pywr-core/src/solvers/ipm_simd/mod.rs features, network.rs check_solver_features")],
 ["recorder: edge flows and volumes of every scenario; outcome of the run"],
 "runtime trace monitor (limits, balances and an independent LP reference)", "Seeded random networks with 1 to 13 scenarios are run with the interior-point solver; limits, balances and optimality are judged per step and scenario against a specification and a reference LP solved separately (tolerance 1e-2 relative in cost, 1e-5 in limits). Exploration. Known finding: minimum flows are ignored by this solver without an error.")

prop("C30", "The Python module does what the Rust interface does",
 "Everything the `pywr` Python module does is what the Rust interface does with the same document, data and settings: schema objects read, write and build models as the Rust schema does, `run` with a solver and its keyword arguments gives the results, output files and timings of that solver with those settings (one calculation thread unless `parallel`, at most `threads`), and converting a Pywr 1 model or metric gives its schema and its errors. Wrong input - a document that is no schema, an unknown solver, keyword argument, output or network name, or a model that can not be built or run - raises a Python exception with the reason (KeyError for names in results; RuntimeError otherwise, with the exception of the user's own Python code as its cause if that fails while the model is built), in series and in parallel and never a panic (except where the interior-point method finds no solution). The caller's objects are left as they were.",
 ["inputs", "configurations", "histories"], "Every model (single or several networks), document, solver and keyword arguments, and every fault in them.",
 "Tests of the Python package need a build of it and are no part of the suite; they run a few models with default settings and check hardly any error.",
 ["pywr-python/src/lib.rs", "pywr-python/pywr/__init__.py", "pywr-schema/src/model.rs", "pywr-schema/src/error.rs", "pywr-core/src/models", "pywr-core/src/network.rs", "pywr-core/src/recorders", "pywr-core/src/solvers"],
 [("schemas and conversion", "pywr-schema/src/model.rs pymethods, pywr-python/src/lib.rs convert_*"), ("runs", "pywr-core/src/models pymethods run, solvers/*/settings.rs build_*_settings_py"), ("results", "pywr-core/src/models ModelResult, recorders pymethods"), ("errors", "pywr-schema/src/error.rs, pywr-core errors: From<..> for PyErr")],
 ["results, files and exceptions of Python scripts that use the package; threads that run the user's code; the same through the Rust interface"],
 "runtime differential monitor (Python module against Rust interface, fault injection)", "The module's source is compiled into the monitor and the real package is driven in an embedded interpreter with random models, documents, settings and faults; results, files, reprs and exceptions are compared with the Rust interface. Exploration over the models generated.")
prop("C31", "The command-line program does what its arguments say",
 "`pywr run` and `pywr run-multi` simulate the model of the file with the solver, the number of threads (one by default, and no more than asked for) and the data and output directories given - data come from the directory of the model's file if none is named, outputs go to the working directory - and write exactly the output files that the library writes with these settings; `--ignore-feature-requirements` runs models the solver would refuse. `convert` writes, for a file or for every .json file directly in a directory, under the same name, what converting that Pywr 1 model (with `--network-only`: network) gives; with `--stop-on-error` nothing is written for a file with errors. `export-schema` writes the JSON schema of models. The exit code is zero if all of this has been done, and not zero for wrong arguments, files that can not be read, are no valid document or can not be written, and models that can not be built or run. No file that is read is changed and nothing is written elsewhere.",
 ["inputs", "configurations"], "Every command line, model file, Pywr 1 file and directory, and every fault in them.",
 "The program has no tests.",
 ["pywr-cli/src/main.rs", "pywr-core/src/solvers", "pywr-schema/src/model.rs", "pywr-schema/src/network.rs"],
 [("commands and their arguments", "pywr-cli/src/main.rs Cli, Commands, main"), ("runs", "pywr-cli/src/main.rs run, run_multi; settings of the solvers"), ("conversion", "pywr-cli/src/main.rs convert, v1_to_v2, handle_conversion_errors"), ("schema", "pywr-cli/src/main.rs export_schema")],
 ["exit codes of the program; all files below the directories it is given before and after; threads that run a model's Python parameter"],
 "runtime differential monitor (program against library, fault injection)", "The program's source is compiled into the monitor (with HiGHS in the place of Clp) and started as a process of its own with random commands, options, models, Pywr 1 documents and faults; exit codes and all files are compared with the library. Exploration over the command lines generated.")
