"""C06: refinement cuts off the last upper-bound solution"""
from dv.spec import *
from contracts import refining as rf
from contracts import C19

CONTRACTS = [('_find_infeasible_subsets', rf.counted), ('_find_number_of_splits_to_perform', rf.needed), ('_split_scenarios_subset', rf.split_counts),
             ('_traverse_subsets_and_split', rf.traverse), ('_split_top_mu_subset', rf.rounds), ('refine', rf.refined),
             ('CostRefiner._evaluate_accurate_splits', C19.candidates), ('CostRefiner._perform_accurate_split', C19.choice),
             ('AccObjModel.build', C19.model), ('CostRefiner.accurate_obj_split', C19.solved)]
