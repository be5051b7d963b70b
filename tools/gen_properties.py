#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that statements stay reviewable)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=None)))


p("C01", "Loading an instance file reproduces its data exactly",
  "For every well-formed instance file (header 'variables, constraints per scenario, scenarios', one objective row, one row per scenario and constraint, one right-hand-side row), the loaded instance has those dimensions, and its objective, its scenario matrices (row i of scenario s is file row 2 + s*m + i) and its right-hand sides (the last row, the same for every scenario) equal the file's entries rounded to one decimal. "
  "Every scenario has probability 1/S, and the variable type flag, the bounds (0 and 1 for continuous variables, no restriction beyond 0/1 for binary ones) and epsilon are the ones asked for.",
  ["inputs"], "every number of variables, constraints and scenarios, and every table of numbers",
  "The tests load one 6x10x5 file and compare two of its matrices; an indexing slip that only shows for other shapes or scenarios passes.",
  ["src/instance/ChanceKnapInstance.py", "src/instance/ChanceInstance.py"],
  [("parsing of header, rows and bounds", "ChanceKnapInstance._parse_indices/_parse_additional_parameters/_parse_model_data"), ("getters", "ChanceInstance.get_*")],
  observe=["the getters of a loaded instance"])

p("C02", "A point is declared feasible exactly when the chance constraint holds",
  "For every point x, a scenario is reported as violated if and only if at least one of its constraints is exceeded by more than 1e-6, and x is declared feasible if and only if the number of violated scenarios is at most epsilon times the number of scenarios. "
  "After a feasibility check, the per-scenario flags, the increasing list of violated scenarios, the mask of satisfied scenarios and the per-scenario maximum of the violations (each divided by the norm of its row unless that is zero) all describe that same x.",
  ["inputs"], "every instance, every epsilon in [0,1) given with at most six decimals and every point x",
  "Tests compare the verdict on three points of one instance; the borderline counts, the 1e-6 tolerance, zero rows and stale results of an earlier check are never exercised.",
  ["src/instance/ChanceKnapInstance.py"],
  [("violation measurement and verdict", "ChanceKnapInstance.is_feasible / _get_scenario_infeasibility"), ("stored summary", "ChanceKnapInstance.check_feasibility / get_feasible_scenarios")],
  state=[("infeasible_scenarios", "indices of scenarios violated by the last checked point", "src/instance/ChanceKnapInstance.py")],
  observe=["is_feasible", "check_feasibility", "get_feasible_scenarios", "get_sum_infeasibility"])

p("C03", "A partitioned instance is the exact aggregation of its scenarios",
  "After a partition is loaded, subset c exposes exactly the constraints of its scenarios, stacked in the order the subset lists them (row k is constraint k mod m of the (k div m)-th listed scenario, in matrix and right-hand side alike). "
  "Subset probabilities are the smallest probability in the subset divided by the sum of those minima (so they sum to one), and epsilon is divided by the same sum, so at most as many subsets may be violated as scenarios in the original problem; the underlying instance is left untouched.",
  ["inputs", "histories"], "every instance, every partition and every sequence of loaded partitions",
  "No test inspects the partitioned instance; it is only exercised through end-to-end runs on two instances with equal probabilities.",
  ["src/instance/PartitionChanceKnapInstance.py"],
  [("aggregation", "PartitionChanceKnapInstance.load_partition / get_matrix_A / get_vector_b / get_proba / get_epsilon")],
  observe=["getters of the partitioned instance"])

p("C04", "Initial partitions assign every scenario exactly once",
  "For every instance and every requested number of subsets n with 1 <= n <= S, both initialisation methods return exactly n subsets, none empty, in which every scenario occurs exactly once overall and whose sizes differ by at most one; more subsets than scenarios are refused. "
  "The cost-based method also deals the scenarios out in decreasing order of their single-scenario cost (subset i gets ranks i, i+n, i+2n, ...) and exposes the list of costs in scenario order.",
  ["inputs"], "every number of scenarios and subsets, every outcome of the random shuffle, every cost vector",
  "Tests use 10 scenarios and 1 to 3 subsets and one seed.",
  ["src/Initializer.py", "src/Evaluator.py"],
  [("random dealing", "Initializer._random_partition"), ("cost ranking", "Initializer._single_scenario_cost_partition"), ("single-scenario costs", "Evaluator.scenario_costs")],
  observe=["create_first_partition"])

p("C05", "Refinement yields a valid, finer partition and leaves its input alone",
  "For every valid partition and every infeasible solution it is called with, refining returns a partition of the same scenarios (each exactly once, no empty subset) in which every new subset is contained in one old subset and no assertion fires on the way. "
  "Subsets not reported as new are unchanged and keep their position, added subsets are appended at the end, and the caller's partition object is not modified.",
  ["inputs", "histories"], "every partition, every set of violated scenarios larger than the tolerance, every random order, both refinement methods",
  "Unit tests split one hand-written subset; integration runs visit a few hundred partitions of two instances and never look at the intermediate ones.",
  ["src/refiner/Refiner.py", "src/refiner/RandomRefiner.py", "src/refiner/CostRefiner.py"],
  [("splitting", "Refiner._split_scenarios_subset / CostRefiner._perform_accurate_split"), ("copy of the input", "Refiner._initialize_refinement")],
  state=[("new_subsets", "indices of subsets changed or created by the last refinement", "src/refiner/Refiner.py")],
  observe=["refine", "new_subsets"])

p("C06", "Refinement always cuts off the last upper-bound solution",
  "Whenever the last solution violates more scenarios than allowed while violating at most the allowed number of subsets, refinement performs exactly as many splits as needed: afterwards the number of subsets containing a violated scenario is exactly floor(epsilon*S)+1, one more than the chance constraint tolerates, and the number of subsets has grown by exactly the number of splits. "
  "Only subsets with at least two violated scenarios are split, each side of a split receives at least one of them, and the lists of feasible and infeasible subsets reported afterwards are correct for the new partition.",
  ["inputs", "histories"], "every partition, epsilon (at most six decimals) and set of violated scenarios, every random order, both refinement methods",
  "Tests check the split count for three hand-picked numbers and never check that the previous solution is excluded.",
  ["src/refiner/Refiner.py", "src/refiner/RandomRefiner.py", "src/refiner/CostRefiner.py"],
  [("number of splits", "Refiner._find_number_of_splits_to_perform"), ("split loop", "Refiner._split_top_mu_subset / _traverse_subsets_and_split"), ("counting violated scenarios", "Refiner._count_infeasible_scenarios / _find_infeasible_subsets")],
  observe=["refine", "feasible_subsets", "infeasible_subsets"])

p("C07", "Merging subsets loses, duplicates and misplaces nothing",
  "Merging a set of candidate subsets replaces exactly those subsets by one subset holding all their scenarios, stored at the smallest candidate index; every other subset keeps its content and its relative order, and the returned number of subsets is the old number minus the number of candidates plus one. "
  "When mu+1 feasible subsets are to be merged, the ones chosen are candidates whose margin (the smallest normalised slack over all their constraints) is not smaller than that of any candidate left out.",
  ["inputs"], "every partition, every candidate list in any order and every solution",
  "Tests merge five two-element subsets at the origin, where all margins are positive, and check only which indices were deleted.",
  ["src/Merger.py"],
  [("merge", "Merger.merge_all / _merge_two_subsets_in_partition / _delete_subsets"), ("margins", "Merger._single_subset_margin / merge_feasible")],
  observe=["merge_all", "merge_feasible"])

p("C08", "Subset costs and solutions always match the current partition",
  "At the end of every split and every merge of the adaptive method, the i-th stored cost and solution are those of the i-th subset of the current partition, there is exactly one of each per subset, and the partitioned instance has that same partition loaded. "
  "A merge happens only when requested and only when every new subset costs at most the current upper bound; it then combines either all feasible subsets with the most expensive infeasible one, or mu+1 feasible ones.",
  ["histories"], "every sequence of splits and merges, every partition, cost vector and bound",
  "Integration tests only compare the final objective; a stale cost merely weakens pruning or merging on most data.",
  ["src/solver/AdaptivePartitioner.py", "src/Merger.py", "src/Evaluator.py"],
  [("cost upkeep after split", "AdaptivePartitioner._split"), ("cost upkeep after merge", "AdaptivePartitioner._post_merge_processing / _merge")],
  state=[("subset_costs/subset_sols", "optimal value and solution of each subset", "src/solver/AdaptivePartitioner.py")],
  observe=["partition, subset_costs, subset_sols after _split and _merge"])

p("C09", "Deterministic models contain exactly the requested scenarios",
  "After any sequence of building, adding and removing scenarios, the deterministic optimisation model accepts exactly the points within the variable bounds and types that satisfy every constraint of every scenario currently included, and maximises the instance's objective. "
  "The cost reported for a scenario or a set of scenarios is the optimal value of exactly that model, reported in the order the scenarios or subsets were given, together with an optimal solution of it.",
  ["inputs", "histories"], "every instance, every scenario set and every sequence of add and remove operations",
  "Tests build models of single scenarios of one instance; incremental removal is only exercised inside end-to-end runs.",
  ["src/optim/DeterModel.py", "src/optim/OptiModel.py", "src/Evaluator.py"],
  [("constraint generation", "DeterModel._add_constraints / add / remove, OptiModel._lhs_constraint"), ("cost evaluation", "Evaluator.subset_cost / scenario_costs / partition_cost")],
  observe=["the built model", "subset_cost, partition_cost"])

p("C10", "The chance-constrained model encodes exactly the stated problem",
  "For every instance, plain or partitioned, the mixed-integer model built with indicator constraints accepts (x, z) exactly when x respects bounds and types, every scenario with z=1 is satisfied and the selected scenarios have total probability at least 1-epsilon. "
  "With big-M constraints the model still enforces every constraint of a selected scenario whose big-M is at least -1e-6, and never cuts off a point whose violation of every constraint of every unselected scenario is at most its big-M (where the excess of the left-hand side over the right-hand side must also be at most the big-M for every constraint whose big-M is below -1e-6, its scenario selected or not); warm starts and lazy flags do not change the accepted set, and pruning only fixes the given indicators to zero.",
  ["inputs", "configurations"], "every instance, partition, big-M table, choice of big-M or indicator, lazy flag, variable type, pruning list and warm start",
  "Tests compare optimal objectives on two instances; a wrong row that happens not to bind there passes.",
  ["src/optim/CCLPModel.py", "src/optim/OptiModel.py", "src/solver/Solver.py"],
  [("indicator and big-M rows", "CCLPModel._add_indicator_constraint, OptiModel._add_bigM_constraint"), ("chance constraint", "OptiModel._add_chance_constraint"), ("pruning", "CCLPModel.fix_z_to_zero / Solver.solve_cclp_model")],
  observe=["the built model", "solve_cclp_model"])

p("C11", "Naive and Belotti big-M values never cut off a feasible point",
  "For nonnegative data, the naive big-M of every constraint is at least the largest violation over all points of the unit box. "
  "The Belotti big-M is at least the violation of the constraint at every point of the unit box (or every binary point) whose objective is at most the given upper bound, and for continuous variables and a nonnegative bound it equals the largest such violation; this holds for every scenario or subset and every constraint, with no entry left over from another one.",
  ["inputs"], "every nonnegative instance, partition, upper bound and point",
  "Tests only check that Belotti and Song values do not exceed the naive ones on seven instances; a value that is too small (and cuts off optima) passes that test.",
  ["src/BigMFinder.py", "src/song_big_m.py", "src/optim/BigMKnapsackModel.py"],
  [("naive values", "BigMFinder._naive_bigM"), ("greedy continuous knapsack", "song_big_m.solve_continuous_knapsack"), ("knapsack MIP", "BigMKnapsackModel.build / initialize_violation_objective"), ("per-partition refresh", "BigMFinder.update_big_M")],
  observe=["bigM / get_vector_big_M after update_big_M or run_belotti_et_al_big_M"])

p("C12", "Song big-M values never cut off a chance-feasible point",
  "For nonnegative data, entry (s, t, i) of the violation table is at least the violation of constraint i of scenario s at every point of the unit box that satisfies all constraints of scenario t; it is the smallest of the single-constraint knapsack values (for s = t also at most zero), as in the reference implementation, up to 1e-5. "
  "The resulting big-M of every scenario or subset constraint is at least its violation at every point of the unit box that violates at most floor(epsilon*S) scenarios or subsets.",
  ["inputs"], "every nonnegative instance, every partition and every chance-feasible point",
  "Tests compare the compiled table with the Python one on random data, and neither with the bound it must provide; the quantile step and the mapping of subset rows to scenarios are not tested at all.",
  ["violations.h", "violations.pyx", "src/song_big_m.py", "src/BigMFinder.py"],
  [("compiled violation table", "violations.h computeAllViolations / compute / update"), ("reference table", "song_big_m.compute_all_violations"), ("quantile and subset aggregation", "BigMFinder.run_song_et_al_big_m / _quantile_big_m")],
  observe=["compute_all_violations", "bigM after run_song_et_al_big_m"])

p("C13", "The quantile bound is a valid and tight upper bound",
  "For every list of scenario costs, probabilities and epsilon, the quantile bound is the smallest scenario cost v such that the scenarios of cost at most v have total probability exceeding epsilon (by the 1e-7 tolerance). "
  "Hence no point that satisfies scenarios of total probability at least 1-epsilon can have an objective above the bound.",
  ["inputs"], "every cost vector (ties included), probability vector and epsilon",
  "No test calls the quantile bound directly; an off-by-one only shows as a slower or slightly wrong run.",
  ["src/UpperBounder.py", "src/solver/MilpSolver.py", "src/solver/AdaptivePartitioner.py"],
  [("quantile", "UpperBounder.ahmed_et_al_bound")],
  observe=["ahmed_et_al_bound"])

p("C14", "Every reported lower bound is attained by a chance-feasible point",
  "The scenarios selected for the projection step have total probability at least 1-epsilon (up to 1e-7), and no scenario left out ranks strictly before a selected one under the chosen index (least normalised violation by the last solution, or most often satisfied). "
  "A candidate solution is accepted as incumbent only if it is feasible for the chance constraint, its objective exceeds the current lower bound and does not exceed the upper bound, and then it is the best such candidate; the bound and solution returned by the projection step are those of the model restricted to the selected scenarios, or a value below every real bound if that model has no solution.",
  ["inputs", "histories"], "every instance, last solution, candidate list, bounds and history of projection steps",
  "Two end-to-end runs on one instance; no test looks at the selected scenarios or at the incumbent search.",
  ["src/LowerBounder.py", "src/solver/AdaptivePartitioner.py"],
  [("ranking and selection", "LowerBounder._get_scenarios_violation_index / _get_selected_scenarios"), ("incumbent search", "LowerBounder._find_best_incumbent / incumbent_bound"), ("incremental model", "LowerBounder._solve_deter_model")],
  observe=["incumbent_bound", "deterministic_bound"])

p("C15", "Partition upper bounds and pruning never exclude a better solution",
  "For every partition into floor(epsilon*S)+1 subsets, the first-iteration bound is the largest subset cost, returned with the solution and indicator of that subset, and for every larger partition the upper bound is that of the partitioned problem in which only subsets of cost at most the lower bound minus 1e-3 are pruned. "
  "In both cases no chance-feasible point better than the current lower bound has an objective above the returned upper bound.",
  ["inputs"], "every instance, valid partition, cost vector, lower bound and chance-feasible point",
  "Tests see the bound only through the final objective of runs on two instances.",
  ["src/UpperBounder.py", "src/solver/AdaptivePartitioner.py", "src/solver/Solver.py"],
  [("first bound", "UpperBounder.first_iteration_bound"), ("partition bound and pruning", "UpperBounder.partition_bound"), ("dispatch and storing", "AdaptivePartitioner._upper_bound")],
  observe=["first_iteration_bound", "partition_bound"])

p("C16", "The adaptive method's bounds always bracket the optimum",
  "Throughout a run of the adaptive method, including when it stops early, the lower bound never decreases and is the objective of the stored, chance-feasible solution, the upper bound never increases (by more than the code's step tolerance 1e-8), and no chance-feasible point has an objective above the upper bound. "
  "When the method stops because its relaxed solution is feasible, lower and upper bound coincide and the stored solution attains them (up to the tolerance 1e-8 with which the solver proves optimality); the reported gap is the distance between the bounds relative to the magnitude of the lower bound.",
  ["histories", "inputs"], "every instance, every sequence of iterations, every interruption between phases",
  "Integration tests compare the final value with the solver's on two instances; intermediate bounds, early stops and other data are not covered.",
  ["src/solver/AdaptivePartitioner.py", "src/solver/Solver.py"],
  [("main loop", "AdaptivePartitioner.solve"), ("bound updates", "AdaptivePartitioner._upper_bound / _lower_bound / _improve_vlb_with_candidate_sols"), ("gap", "Solver._compute_gap")],
  observe=["vLB, vUB, xLB, xUB after solve"])

p("C17", "Warm starts select exactly the surviving previously selected subsets",
  "Given the previous indicator solution and the list of subsets deleted by the last merge, the warm start sets to one exactly the new positions of those previously selected subsets that were not deleted, where the new position of a subset is its old one minus the number of deleted subsets before it; no other indicator is given a start value. "
  "The deletions used are those of the merge that produced the current partition, and none if the last iteration did not merge.",
  ["inputs", "histories"], "every indicator vector, every deletion list in any order, every sequence of iterations with and without merges",
  "One test deletes the last selected subset; shifts by several deletions and runs in which a later iteration does not merge are not covered.",
  ["src/Warmstarter.py", "src/UpperBounder.py", "src/solver/AdaptivePartitioner.py"],
  [("index shift", "Warmstarter.get_z_start"), ("source of deletions", "UpperBounder.partition_bound, AdaptivePartitioner._merge")],
  observe=["get_z_start", "warm start values of the model"])

p("C18", "Result rows can be written, found and read back with the right meaning",
  "For every supported method and configuration, a run that finished or was stopped while solving writes one result row whose columns hold instance name, dimensions, scenario count, variable type, epsilon, settings, run time, lower bound, upper bound and gap in the order the exporter reads them (gap last, time fourth from last, big-M time in column 10 for the extended formulation, iterations sixth from last for the adaptive one). "
  "For every epsilon given in whole percent, the exporter looks for exactly the file name the experiment runner writes, and its summary for a method is the mean time if all runs are solved to the required gap and otherwise the mean gap with the number of solved runs.",
  ["inputs", "configurations"], "every method, configuration, epsilon percentage and table of results",
  "No test covers writing or reading results, main.py or the exporter.",
  ["src/solver/Solver.py", "src/solver/MilpSolver.py", "src/solver/AdaptivePartitioner.py", "src/Informer.py", "src/export/format_results.py", "main.py"],
  [("row layout", "write_all_computation_details, Solver._get_computation_details, Informer.adaptive_details"), ("file name", "main.py, format_results.read_single_experiment"), ("summary", "format_results.format_method")],
  observe=["written csv rows", "read_single_experiment", "format_method"])

p("C19", "Cost-based splits are optimal, reusable and keep both sides infeasible",
  "The split model minimises the larger of two dual bounds over all assignments of the subset's scenarios to two sides, where each scenario goes to exactly one side, each side gets at least one violated scenario, and an unassigned scenario contributes nothing to a side's bound; the two lists read from a solution are exactly that assignment. "
  "A split reused from memory is the one computed for the same scenarios and the same violated scenarios, and the subset chosen is the one with the largest post-split cost not above the upper bound or, if there is none, the one with the smallest post-split cost.",
  ["inputs", "histories"], "every subset, set of violated scenarios, assignment, dual solution and history of earlier splits",
  "No unit test covers the split model or the memory; end-to-end results do not depend on which split is chosen.",
  ["src/optim/AccObjModel.py", "src/refiner/CostRefiner.py"],
  [("split model", "AccObjModel.build / get_subsets"), ("memory", "CostRefiner._evaluate_single_accurate_split"), ("choice", "CostRefiner._perform_accurate_split")],
  observe=["accurate_obj_split", "the built model"])

p("C20", "Remaining time is what is left of the limit and never negative",
  "At every moment the remaining time equals the time limit minus the time elapsed since the method was created, or zero once the limit is exceeded, and the total time is the span between start and finish. "
  "The time limit handed to an optimisation is the remaining time less the time spent building the model (as long as that is positive), and the adaptive method starts no further phase of an iteration once no time remains.",
  ["inputs", "schedules"], "every time limit and every sequence of clock readings that does not go backwards",
  "The only test checks that the value is a float.",
  ["src/TimeManager.py", "src/solver/Solver.py", "src/solver/AdaptivePartitioner.py"],
  [("clock arithmetic", "TimeManager.get_remaining_time / get_total_time"), ("solver limit", "Solver.solve_cclp_model")],
  observe=["get_remaining_time", "TimeLimit parameter"])

p("C21", "The adaptive method reaches an optimal solution in finitely many iterations",
  "Without a time limit, the adaptive method stops after finitely many iterations for every instance, with or without merging.",
  ["histories"], "every instance and every run",
  "Termination quantifies over unbounded runs; tests only observe runs that end.",
  ["src/solver/AdaptivePartitioner.py"],
  [("progress by exclusion of the last solution", "AdaptivePartitioner.solve, Refiner.refine, Merger")],
  observe=["solve returns"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
