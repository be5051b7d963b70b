COMMON = 'Floats as reals; numpy by assumed contracts; executable contracts (bounded) replay the real code for a failing input.'
NOTE = {
 'C01': 'All files: dimensions, rows and cells symbolic. csv.reader and np.round by assumed contracts. ' + COMMON,
 'C02': 'All instances, points and epsilons with at most six decimals. ' + COMMON,
 'C15': 'All partitions, costs and bounds; the solver call by contract (its bound holds for every accepted point, C10). That a chance-feasible point satisfies a whole subset is the pigeonhole argument over C03. ' + COMMON,
 'C17': 'All indicator vectors and deletion lists; the hand-over to the solver call and the deletions kept by the merge step by contracts on partition_bound, _upper_bound and _merge (Merger and solver call by their contracts). ' + COMMON,
 'C13': 'All cost lists, probabilities and epsilons; argsort by its contract; the hand-over of all single-scenario costs to the quantile by contracts on the two callers; sums are independent of the order of terms (trusted lemma, proved in lemmas/Sums.lean). ' + COMMON,
 'C04': 'All instances sizes and numbers of subsets; random.sample and argsort by permutation contracts; arithmetic of positions modulo n by trusted lemmas (lemmas/Sums.lean); the cost of one scenario by the contract of Evaluator.subset_cost (C09). ' + COMMON,
 'C20': 'All clock histories (time.time() readings do not decrease); building and solving the model stand behind contracts that only read the clock; the main loop is proved with an invariant for an arbitrary iteration. ' + COMMON,
 'C09': 'All instances and histories: building, adding and removing are contracts on an arbitrary state of the model satisfying the class invariant (constraints in the model = those of the included scenarios), so any history is covered by induction; Gurobi by an assumed contract (accepted set, objective, optimality; tolerances taken as zero). ' + COMMON,
 'C10': 'All instances, plain and partitioned; Big-M values come from an arbitrary finder (any values; C11 and C12 decide the finders); Gurobi by an assumed contract. ' + COMMON,
 'C14': 'All instances, indices, candidate lists and states of the projection model (its own contracts: C09). argsort and Gurobi by assumed contracts; vLB does not decrease between steps (C16). ' + COMMON,
 'C07': 'All partitions, candidate lists and points: the merging and the deleting loop by invariants over ghost recursions (target size and occurrences, positions after deletions in descending order, proved by induction); margins of one subset for all numbers of constraints; np.sort and sorted by permutation contracts. ' + COMMON,
 'C16': 'All histories: every phase keeps the invariant of the bounds for an arbitrary pre-state, the main loop by an invariant with stops anywhere. The phases rely on the contracts of C03, C06, C09, C10, C14, C15 (stated as preconditions of the stubs); split and merge by frame contracts that assume their indices in range (C08). The tolerance 1e-8 of the code and of the solver is part of the statement. ' + COMMON,
 'C18': 'All instances, bounds, times and settings: every method and configuration is one contract (finite enumeration), rows and file names are compared as symbolic texts; main.py is executed symbolically as it stands, with the operating system, the clock and the two solvers behind contracts; the summary for result tables of any size. export_results.py (the final table) is replayed only. ' + COMMON,
 'C11': 'All nonnegative instances, partitions, bounds and points: the greedy knapsack loop by invariants (at least every point within the capacity; equal to the value of a constructed point), argsort by its permutation contract; the loops over scenarios and constraints with the contracts of the knapsack function and of the knapsack model; Gurobi by an assumed contract (its bound holds for every accepted point). Sums by lemmas proved in Lean (lemmas/Sums.lean). ' + COMMON,
 'C12': 'All instances (nonnegative, with a shared right-hand side), partitions and violation tables: the quantile by the permutation contract of argsort, the table in Python by the contract of the knapsack function (C11), subsets and later partitions by the contract of the quantile. The compiled table: violations.h translated from the AST of clang and violations.pyx without its declarations, on every run; each cell is at least the violation at every point its scenario allows, for all data (std::sort by contract). That a cell is not larger than the smallest knapsack value is a bounded replay only. ' + COMMON,
 'C19': 'All subsets, violated sets, assignments and dual points: the split model is equivalent to the clauses of the statement, its solution is read by an assumed contract of Gurobi; the memory by two evaluations with anything in between; the choice for arbitrary costs. ' + COMMON,
 'C05': 'All partitions, patterns of violated scenarios and random orders: one split, the pass over the subsets (invariant), the rounds (invariant) and refine itself, function by function, with ghost places and origins of the scenarios; random.sample and shuffle by permutation contracts; that S different places hold S scenarios is proved in lemmas/Sums.lean. For the cost refinement the contracts are those of one step (which subset is replaced by which sides); its whole loop is replayed only (bounded). Termination of the rounds is not proved. ' + COMMON,
 'C06': 'All partitions, patterns of violated scenarios, epsilons and random orders: lists of violated subsets, number of splits, one split, pass, rounds and refine function by function, the number of violated subsets as a sum over ghost marks. For the cost refinement: candidates, one step, and the split model with its solution read (each side holds a violated scenario); its whole loop is replayed only (bounded). Termination of the rounds is not proved. ' + COMMON,
 'C08': 'All partitions (subsets are tokens), costs and bounds: the loop over the new subsets by an invariant, deletion of costs by ghost positions, the choice of the subsets to merge; the callees refine, merge_all, merge_feasible and subset_cost by their contracts (C05 to C07, C09). That some subset is not feasible when merging is assumed (the loop stops otherwise, C16). ' + COMMON,
 'C03': 'All instances and partitions, unequal probabilities included. ' + COMMON,
}
NA = {
 'C21': 'termination of the whole run is a liveness property over the history of external MIP solutions; the deductive contracts used here are partial-correctness contracts, and no ranking function is expressible because merging makes the partition coarser again',
}
