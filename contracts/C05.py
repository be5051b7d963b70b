"""C05: refinement yields a valid, finer partition and leaves its input alone"""
from dv.spec import *
from contracts import refining as rf
from contracts import C19

CONTRACTS = [('_split_scenarios_subset', rf.split), ('_traverse_subsets_and_split', rf.traverse), ('_split_top_mu_subset', rf.rounds),
             ('_assert_all_scenarios_used_once', rf.used_once), ('refine', rf.refined), ('CostRefiner._perform_accurate_split', C19.choice)]
