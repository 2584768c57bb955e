# executed by meta.py: P (via prop), NA, NOTES

prop("O01", "Nodal balance at every bus and snapshot",
     "Every feasible point of the optimisation problem balances, at every bus and every optimised snapshot, all active "
     "injections (generators, storage, stores, link outputs with their efficiency, branch inflows) with all withdrawals and "
     "loads (signs, multiplied static or time-varying set points), and no point balancing every bus is rejected by those "
     "constraints.",
     ["inputs", "configurations"], "all component data, all decisions; mixes of components, multi-port links, subsets of "
     "snapshots, investment periods, inactive components", WHY_VAL, [CON, OPT],
     [("nodal balance rows", f"{CON}: define_nodal_balance_constraints")], ["linopy model constraints"])

prop("O02", "Kirchhoff voltage law around every cycle of passive branches",
     "In the optimisation problem, flows on active lines and transformers satisfy: the impedance-weighted sum of flows "
     "around every closed loop of active branches vanishes (with transformer phase shifts and voltage bases), per snapshot "
     "and investment period. No constraint is put on flows beyond that, so trees and inactive branches are unrestricted.",
     ["inputs", "configurations"], "all impedances, tap ratios, phase shifts and flows; graphs of up to 6 buses with parallel "
     "branches, several sub-networks, AC/DC mixes, activity per period", WHY_VAL, [CON, PF],
     [("cycle constraints", f"{CON}: define_kirchhoff_voltage_constraints"), ("cycle basis", f"{PF}: find_cycles")])

prop("O03", "Dispatch and capacity stay within their limits",
     "Every feasible point keeps each active component's dispatch between its per-unit minimum and maximum times its "
     "(fixed, expandable or modular) capacity at each snapshot, and each expandable capacity between its bounds or on its "
     "module grid; every point obeying those limits is admitted. Inactive components are not dispatched.",
     ["inputs", "configurations"], "all bounds, capacities and decisions, static or time-varying; all component types",
     WHY_VAL, [CON, VAR, "pypsa/descriptors.py"],
     [("dispatch bounds", f"{CON}: define_operational_constraints_for_non_extendables / _for_extendables"),
      ("capacity bounds", f"{CON}: define_nominal_constraints_for_extendables")])

prop("O04", "Storage energy is conserved between snapshots",
     "For every feasible point, a storage unit's or store's energy level equals the decayed previous level plus stored "
     "inflows minus withdrawals, weighted by elapsed hours, with the initial level or cyclic condition of the horizon or of "
     "each investment period as configured; spillage never exceeds inflow, and every trajectory obeying this is admitted.",
     ["inputs", "configurations", "histories"], "all efficiencies, losses, inflows, weights and trajectories; all combinations "
     "of cyclic and initial-level switches, 1-3 periods, assets with limited lifetime", WHY_VAL, [CON, VAR],
     [("storage unit balance", f"{CON}: define_storage_unit_constraints"), ("store balance", f"{CON}: define_store_constraints")])

prop("O05", "Unit commitment admits exactly the legal on/off schedules",
     "With integer commitment, an on/off schedule is admitted exactly when it respects minimum up and down times (including "
     "the history before the first optimised snapshot) and dispatch limits while on; start-ups and shut-downs are counted "
     "where the state changes. The linearised variant never excludes a schedule the integer problem admits.",
     ["inputs", "histories", "configurations"], "all status sequences, dispatch limits and dispatch decisions up to 6 snapshots",
     "quantifies over every on/off schedule and history; tests check a handful of optimal schedules", [CON, VAR, ABS],
     [("commitment constraints", f"{CON}: define_operational_constraints_for_committables")])

prop("O06", "Ramp limits bound changes of dispatch",
     "Between consecutive optimised snapshots the dispatch of a ramp-limited component changes by at most its ramp limit "
     "times capacity (start-up and shut-down limits when its commitment state changes), also across the boundary to the "
     "snapshot before a rolling window. Nothing else is restricted.",
     ["inputs", "histories", "configurations"], "all limits (static, time-varying, missing), capacities and dispatch decisions",
     WHY_VAL, [CON], [("ramp rows", f"{CON}: define_ramp_limit_constraints")])

prop("O07", "The objective is the total system cost",
     "For every decision, the objective plus its recorded constant equals operating cost (linear, quadratic, commitment, "
     "start-up, shut-down, spillage, storage) weighted by snapshot and investment-period weights, plus annualised capital "
     "cost of every expandable asset in each period it is active, minus the already built part held in the constant.",
     ["inputs", "configurations"], "all costs, weightings, activity patterns and decisions", WHY_VAL, [OPT],
     [("objective", f"{OPT}: define_objective")])

prop("O08", "Primary energy and operational limits bind the right sum",
     "A global limit on primary energy or operation admits a dispatch exactly when the weighted use over the limited period "
     "(per-carrier intensity over efficiency, net depletion of non-cyclic storage) obeys the limit with its stated sense.",
     ["inputs", "configurations"], "all emission factors, efficiencies, weightings, limits, senses and decisions", WHY_VAL,
     [GLO], [("primary energy", f"{GLO}: define_primary_energy_limit"),
             ("operational limit", f"{GLO}: define_operational_limit")])

prop("O09", "Capacity and expansion limits bind the right sum",
     "Global limits on installed technology capacity, transmission volume or expansion cost, per-bus per-carrier capacity and "
     "carrier growth admit a set of capacities exactly when the stated (weighted, active, per-period) sum obeys the limit "
     "with its sense.",
     ["inputs", "configurations"], "all lengths, costs, limits, capacities; activity per investment period", WHY_VAL, [GLO],
     [("capacity limits", f"{GLO}: define_tech_capacity_expansion_limit, define_transmission_*_limit, "
       "define_nominal_constraints_per_bus_carrier, define_growth_limit")])

prop("O10", "Fixed schedules and energy budgets are honoured",
     "Where a dispatch, state or capacity is fixed by the user it equals the given value in every feasible point, and the "
     "weighted energy of a generator with a minimum or maximum budget stays within it; unset entries are not restricted.",
     ["inputs", "configurations"], "all set values with missing entries, budgets and weightings", WHY_VAL, [CON],
     [("fixed operation", f"{CON}: define_fixed_operation_constraints"),
      ("energy budgets", f"{CON}: define_total_supply_constraints")])

prop("O11", "Loss approximation is a set of tangents of the resistive loss",
     "With loss approximation enabled, the loss variable of each active passive branch is bounded below by tangents of the "
     "quadratic loss at the documented support points in both flow directions, above by the loss at full capacity, half of "
     "it is withdrawn at each end and flows plus losses respect the branch rating.",
     ["inputs", "configurations"], "all resistances, ratings and flows; 1-4 tangents; fixed and extendable branches", WHY_VAL,
     [CON], [("tangents", f"{CON}: define_loss_constraints")])

prop("O12", "A solution is written back faithfully",
     "After solving, the dispatch, states, flows at both ends, optimal capacities, bus prices, angles-free injections and "
     "shadow prices stored on the network equal the solver's primal and dual values (prices divided by the weights used in "
     "the objective), and the stored values again satisfy the nodal balance.",
     ["inputs", "configurations"], "every primal and dual vector a solver may return; component mixes and windows",
     "quantifies over every solver answer; tests check the few optima their solver finds", [OPT],
     [("assignment", f"{OPT}: assign_solution, assign_duals, post_processing")])

prop("O13", "Rolling-horizon windows chain without loss",
     "Rolling optimisation solves consecutive windows covering every snapshot exactly once (beyond the stated overlap), and "
     "each window starts from the storage levels, commitment state and ramping position that the previous one left behind.",
     ["inputs", "histories", "configurations"], "every solution a solver may return per window; horizons and overlaps up to 6",
     "quantifies over all window solutions and horizon/overlap choices", [ABS, CON],
     [("rolling horizon", f"{ABS}: optimize_with_rolling_horizon")])

prop("O14", "Security-constrained dispatch survives every listed outage",
     "In a security-constrained problem the post-outage flow of every remaining branch of the same sub-network stays within "
     "its rating (fixed or extendable) for every contingency, and no dispatch surviving all listed outages is rejected.",
     ["inputs", "configurations"], "all impedances, ratings and flows on meshed graphs up to 5 buses", WHY_VAL, [ABS, PF],
     [("security constraints", f"{ABS}: optimize_security_constrained"), ("outage factors", f"{PF}: calculate_BODF")])

prop("O15", "Near-optimal exploration keeps the cost budget",
     "Searching for near-optimal alternatives optimises the weighted decision asked for over exactly the feasible points of "
     "the original problem whose total system cost is within the allowed slack of the optimum, with every weight applied once to "
     "the decision it names (whatever the others are), and records slack, sense and weights with the network.",
     ["inputs", "configurations"], "all costs, weights, slacks and decisions", WHY_VAL, [ABS],
     [("modelling to generate alternatives", f"{ABS}: optimize_mga")])

prop("O16", "Iterative transmission expansion keeps impedance consistent",
     "In every iteration of transmission expansion the reactance (AC) or resistance (DC) of expandable lines equals the original "
     "one divided by the growth of its capacity up to the previous iteration (typed lines: the circuits of that capacity); "
     "iterations stop at the threshold within the given numbers; the last run has exactly the expandable lines and DC links "
     "fixed at the optimised, whole-unit capacities; afterwards ratings and extendability are as before and nothing else "
     "has changed.",
     ["inputs", "histories"], "every capacity a solver may return per iteration", WHY_VAL, [ABS],
     [("iteration", f"{ABS}: optimize_transmission_expansion_iteratively")])

prop("P01", "Linear power flow obeys Kirchhoff's laws",
     "After a linear power flow, at every bus net injection equals the sum of branch flows leaving it, each branch flow "
     "equals the angle difference (plus phase shift) over its effective reactance, links and active components enter with "
     "their set points, and the slack alone absorbs the imbalance.",
     ["inputs", "configurations"], "all impedances and set points; graphs up to 5 buses, several sub-networks, AC/DC",
     WHY_VAL, [PF], [("linear power flow", f"{PF}: network_lpf, sub_network_lpf, calculate_B_H")])

prop("P02", "Non-linear power flow solves the AC equations",
     "At any converged non-linear power flow, complex branch flows at both ends follow from bus voltages and the branch's "
     "admittance model, injections equal the sum of branch flows and shunt power, and PQ, PV and slack set points are met "
     "(or slack is distributed by the requested weights). The Newton Jacobian equals the derivative of the mismatch.",
     ["inputs", "configurations"], "all voltages, admittances and set points on small graphs", WHY_VAL, [PF],
     [("Newton power flow", f"{PF}: sub_network_pf, newton_raphson_sparse, calculate_Y")])

prop("P03", "Electrical parameters follow from types and bases",
     "Per-unit and effective impedances of lines and transformers follow from their physical data, standard types, number "
     "of parallel circuits, tap positions, voltage base and T- or pi-model, and transforming T to pi model preserves the "
     "two-port behaviour.",
     ["inputs"], "all physical parameters", WHY_VAL, [PF],
     [("types", f"{PF}: apply_line_types, apply_transformer_types, apply_transformer_t_model, calculate_dependent_values")])

prop("P04", "Distribution and outage factors predict flows",
     "Power transfer distribution factors map any balanced injection to the flows of the linear power flow, and outage "
     "distribution factors predict the flows after removing any non-bridge branch exactly as recomputing the flow without it.",
     ["inputs", "configurations"], "all impedances and injections on meshed graphs up to 5 buses", WHY_VAL, [PF, CONT],
     [("factors", f"{PF}: calculate_PTDF, calculate_BODF"), ("contingency", f"{CONT}: network_lpf_contingency")])

prop("P05", "Topology is derived from the active branches",
     "Sub-networks are exactly the connected components of buses under active passive branches, each with one slack bus and "
     "a consistent carrier; the cycle basis has full rank, every cycle closes, and adjacency and incidence tables list every "
     "active branch once with the right signs.",
     ["inputs", "configurations"], "every graph (every branch's activity symbolic) up to 5 buses and 6 branches",
     "quantifies over every graph and outage pattern", [PF, "pypsa/graph.py"],
     [("topology", "pypsa/networks.py: determine_network_topology; pypsa/graph.py"), ("cycles", f"{PF}: find_cycles")])

prop("D01", "Time-varying values override static values, exactly",
     "Wherever a component attribute may be static or time-varying, the value in effect at a snapshot is the time series "
     "entry if that component has a series and the static value otherwise, for every subset and order of components and "
     "snapshots.",
     ["inputs", "configurations"], "all values and subsets", WHY_VAL, ["pypsa/descriptors.py"],
     [("switchable attributes", "pypsa/descriptors.py: get_switchable_as_dense, get_switchable_as_iter, get_extendable_i")])

prop("D02", "Assets are active exactly during their lifetime",
     "An asset is active in an investment period exactly if it is switched on and its build year is not after the period "
     "while its build year plus lifetime is; without periods only the switch counts.",
     ["inputs", "configurations"], "all build years, lifetimes, switches and periods",
     "quantifies over every year arithmetic; tests sample a few", ["pypsa/descriptors.py"],
     [("activity", "pypsa/descriptors.py: get_active_assets, get_activity_mask")])

prop("D03", "Adding and removing components keeps data aligned",
     "After any sequence of adding (single or bulk) and removing components, static and time-series tables hold exactly the "
     "remaining components with the values given (defaults otherwise), and no other component's data changes; invalid "
     "additions are rejected without effect.",
     ["inputs", "histories"], "all values; bounded sequences of operations",
     "quantifies over histories of operations and values", [NET, "pypsa/components.py"],
     [("add/remove", f"{NET}: add, remove")])

prop("D04", "Changing snapshots keeps matching time series",
     "Setting snapshots or investment periods keeps every time-series value and weighting at snapshots that remain, fills new ones "
     "with defaults, and expands series over periods unchanged.",
     ["inputs", "histories"], "all series values and weightings; bounded index changes", WHY_VAL, [NET],
     [("snapshots", f"{NET}: set_snapshots, set_investment_periods")])

prop("D05", "Copies and slices are faithful and independent",
     "A copy equals its source in every static, time-series and weighting value and later changes to either do not affect "
     "the other; a slice by buses or snapshots contains exactly the selected data.",
     ["inputs", "histories"], "all values and selections", WHY_VAL, [NET], [("copy", f"{NET}: copy, __getitem__")])

prop("D06", "Merging networks unites their components",
     "Merging two networks yields exactly the union of their components with each one's own static and time-series values, "
     "and refuses when names or snapshots conflict.",
     ["inputs", "histories"], "all values; component mixes", WHY_VAL, [NET], [("merge", f"{NET}: merge")])

prop("D07", "Exporting and importing returns the same network",
     "Exporting a network and importing it again yields the same components, static attributes, time series, snapshots, "
     "periods and weightings, where values at their default may be omitted from the export.",
     ["inputs", "histories"], "all values through every importer/exporter pair", WHY_VAL, ["pypsa/io.py"],
     [("io", "pypsa/io.py: _export_to_exporter, _import_from_importer, _import_series_from_df")])

prop("D08", "Consistency check flags inconsistent networks",
     "The consistency check reports (or in strict mode raises for) unknown buses and carriers, missing or disordered bounds, "
     "zero impedances, missing values and mismatched series, and reports none of these for a network without them.",
     ["inputs", "configurations"], "all values of the checked attributes", WHY_VAL, ["pypsa/consistency.py"],
     [("checks", "pypsa/consistency.py")])

prop("D09", "Renaming components renames them everywhere",
     "Renaming components gives them the new names in static tables, time series and every reference to them (buses of attached "
     "components, carriers), keeps every value, and changes nothing else.",
     ["inputs", "histories"], "all values, all component kinds, one or several names at once including cycles of names", WHY_VAL,
     [NET, "pypsa/components/abstract.py"],
     [("renaming", "pypsa/components/abstract.py: rename_component_names")])

prop("S01", "Reported expenditure adds up to the objective",
     "For any solved network, the reported capital plus operational expenditure equals the optimisation objective plus its "
     "constant, plus the capital cost of non-expandable assets, for the same dispatch and capacities; installed plus expanded "
     "parts add up.",
     ["inputs", "configurations"], "all costs, weightings, dispatch and capacities", WHY_VAL,
     ["pypsa/statistics/expressions.py", OPT],
     [("statistics", "pypsa/statistics/expressions.py: capex, opex, installed_capex, expanded_capex")])

prop("S02", "Reported energy balance closes per bus carrier",
     "Reported supply, withdrawal and transmission follow the ports' signed energies: supply minus withdrawal is the energy "
     "balance, and for dispatch satisfying nodal balance (and one weighting for all) the energy balance of every bus carrier "
     "sums to zero.",
     ["inputs", "configurations"], "all dispatch series and weightings, multi-port links", WHY_VAL,
     ["pypsa/statistics/expressions.py"],
     [("statistics", "pypsa/statistics/expressions.py: supply, withdrawal, energy_balance, transmission")])

prop("S03", "Derived metrics agree with their definitions",
     "Capacity factor, curtailment, revenue, market value and optimal, installed and expanded capacity agree with their "
     "documented definitions over dispatch, availability, capacity, prices and weightings.",
     ["inputs", "configurations"], "all dispatch, availability, prices, capacities and weightings", WHY_VAL,
     ["pypsa/statistics/expressions.py"],
     [("statistics", "pypsa/statistics/expressions.py: capacity_factor, curtailment, revenue, market_value")])

prop("S04", "Grouping only partitions a metric",
     "For every additive metric, the sum over groups is the same for every grouping, filtering by bus carrier or carrier "
     "selects exactly the matching part, and time aggregation equals aggregating the unaggregated series with weights.",
     ["inputs", "configurations"], "all values and groupings of small networks", WHY_VAL,
     ["pypsa/statistics/abstract.py", "pypsa/statistics/grouping.py"],
     [("aggregation", "pypsa/statistics/abstract.py")])

prop("K01", "Spatial clustering conserves what it aggregates",
     "Clustering buses by any assignment conserves total capacity, demand, inflow, initial energy, cost-relevant weighted "
     "averages and availability-weighted potential of aggregated components, static or over time; keeps components that are not "
     "aggregated as they are; merges the lines between two clusters into one with their parallel impedance and total rating; "
     "maps every port of every component to the cluster of its bus; keeps snapshots, weightings, carriers, line types and "
     "global constraints; and leaves the original network untouched.",
     ["inputs", "configurations"], "all attribute values; assignments of up to 6 buses to 1-4 clusters", WHY_VAL,
     ["pypsa/clustering/spatial.py"], [("clustering", "pypsa/clustering/spatial.py: aggregateoneport, aggregatelines")])

prop("X01", "The external solver returns an optimum of the model it is given",
     "The status, values and duals returned by the external solver are an optimum of the model handed to it.",
     ["inputs"], "every model", "needs every model", [OPT], [("solve", f"{OPT}: optimize")])
prop("X02", "Files on disk survive an interrupted export",
     "Interrupting an export leaves either the old or the new file set readable.", ["crash_points"], "every crash point",
     "needs every crash point", ["pypsa/io.py"], [("export", "pypsa/io.py")])
prop("X03", "Plots and maps show the network's data",
     "Line widths, bus sizes and flow arrows drawn for a network are proportional to the values asked for.", ["inputs"],
     "every value", "images are compared by eye", ["pypsa/plot.py"], [("plot", "pypsa/plot.py")])

PENDING = "check not built yet"
NA = {k: PENDING for k in P}
NA["X01"] = ("the optimum is found by HiGHS, a compiled numeric library outside /repo; its code cannot be encoded, and every "
             "property here is instead stated for all answers the solver may give")
NA["X02"] = ("writing is done inside the netCDF4/HDF5/pandas C libraries and the operating system; crash points lie in code "
             "that is not in /repo and cannot be executed symbolically")
NA["X03"] = ("rendering happens in matplotlib/cartopy/folium C and JavaScript code whose output (pixels) cannot be encoded")

NOTES = {k: "" for k in P}
_COMMON = (" Values are exact reals, all of them symbolic; structure (components, switches, snapshots, periods) is "
           "enumerated as stated in the evidence file's bounds; counterexamples are replayed on the unpatched code.")
NOTES.update({
    "P01": "Kirchhoff's laws are proved from the linear-solve contract B x = p with x unknown, for all impedances and set "
           "points, on every listed structure.",
    "P04": "Factors are characterised by Kirchhoff's laws (which determine them), from the inverse contract of the solve; "
           "divisions by 1 - PTDF are cleared before solving.",
    "P02": "The Newton iteration is taken at its contract (a root of the mismatch it is given, which the solver receives as "
           "an equation); the Jacobian is compared entry by entry with the derivative of that mismatch; all results are then "
           "proved against the complex branch equations in polar form.",
    "P03": "All type data, lengths, ratings and taps symbolic; the T to pi transformation is checked as equality of two-ports; "
           "the shipped type libraries are read as they are.",
    "K01": "All capacities, series, costs, impedances, voltages and ratings symbolic (coordinates concrete); every branch of the "
           "code (zero capacity, static or time-varying result, highest voltage) is followed; totals are compared with sums "
           "over the members.",
    "P05": "Activity and lifetimes are symbolic and every outcome is followed; cycles, incidence and adjacency are decided "
           "against symbolic angles, flows and weights.",
    "D07": "Every value is a token which the solver must find again after a round trip through real files; formatting of "
           "floats is assumed exact (repr round-trips).",
    "D04": "Sequences of changes are enumerated; every value, weight and default weight is symbolic.",
    "D05": "Every subset of buses and snapshots of a small network; tables are compared entry by entry; independence by writing "
           "every cell of one network and comparing the other.",
    "D06": "Every distribution of static, series and absent attributes over two networks with symbolic values.",
    "D08": "Both directions: the check warns and raises exactly under the specified condition, for all values, and names "
           "exactly the faulty elements.",
    "D09": "Table contents before and after are compared entry by entry, values symbolic.",
    "D01": "Values are symbolic tokens: equality with the specified entry is decided for all values at once; component, "
           "snapshot and series subsets are enumerated.",
    "D02": "Build year, lifetime and investment periods are symbolic; every activity pattern is explored by forking.",
    "D03": "Every sequence of operations within the bound is run on symbolic values and the whole table contents are "
           "compared with a model of the tables.",
})
NOTES.update({
    "O01": "Both inclusions: every specified balance row is implied by the model's rows and vice versa.",
    "O02": "Both inclusions, against an angle-based specification.",
    "O03": "Both inclusions, fixed/extendable/committable/modular, all components.",
    "O04": "Both inclusions, per unit, for all switch combinations.",
    "O05": "Status sequences are symbolic Booleans; both directions, plus validity of the linear relaxation.",
    "O06": "Both inclusions, including the step into a later window.",
    "O07": "Polynomial identity of the built objective with the specified cost, all costs and decisions symbolic.",
    "O08": "Both inclusions for each limit row.", "O09": "Both inclusions for each limit row.",
    "O12": "linopy's solve is replaced by one that answers with a symbolic primal and dual point; what is stored is "
           "compared with that point.",
    "O14": "Post-outage flows are specified from Kirchhoff's laws on the network without the branch, not from outage factors; "
           "both inclusions; the impedances and flows are symbolic, the solve and pseudo-inverse are taken at their "
           "contracts.",
    "O15": "Both inclusions for the second problem, with the budget row built from the cost specification at the first "
           "(symbolic) solution.",
    "O16": "Every iteration's answer is symbolic; network data before each solve and each problem are compared with the "
           "specification; the rounding rule is decided for all capacities, with whole numbers as integer variables.",
    "O13": "Every window's answer is symbolic; each later window's problem is compared with the specification that "
           "starts from the state the previous answer left behind.",
    "S01": "The objective is read from the model PyPSA builds and evaluated at a symbolic answer; the reported tables are "
           "compared with it.",
    "S02": "All dispatch symbolic; closure is shown for every dispatch that balances each bus.",
    "S03": "Polynomial (piecewise linear for max/abs) identities with the definitions.",
    "S04": "Every table entry for every grouping, filter and time aggregation is compared with the sum over its members.",
    "O10": "Both inclusions.", "O11": "Both inclusions, 1-4 tangents.",
})
for _k in NOTES:
    NOTES[_k] += _COMMON
