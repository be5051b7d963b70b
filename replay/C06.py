"""C06: refinement cuts off the last upper-bound solution"""
import common
import refining

RULE = ("refine of both refiners on random partitions and patterns of violated scenarios (repeated calls on one object, "
        "real and stubbed split models), and every refinement of real runs: number of subsets touched by the violated "
        "scenarios, number of splits, reported lists")


def check(H, inp, old, given, out, rf, S, bad, k):
    nb, part = out
    part = [list(s) for s in part]
    touched = [c for c in range(len(part)) if set(part[c]) & bad]
    inf_old = len([1 for o in old if set(o) & bad])
    if not (len(bad) > k and inf_old <= k):
        return
    H.check(len(touched) == k + 1, 'one subset more than tolerated contains a violated scenario', inp, dict(partition=part, touched=touched), k + 1)
    H.check(len(part) == len(old) + k + 1 - inf_old, 'as many subsets added as splits needed', inp, len(part), len(old) + k + 1 - inf_old)
    H.check(nb == len(part), 'returned number of subsets', inp, nb)
    for i, o in enumerate(old):
        pieces = [c for c in part if set(c) & set(o)]
        if len(pieces) > 1:
            H.check(len(set(o) & bad) >= 2 and all(set(c) & bad for c in pieces), 'each side of a split holds a violated scenario', inp, pieces, o)
    H.check(sorted(rf.infeasible_subsets) == touched, 'reported infeasible subsets', inp, rf.infeasible_subsets, touched)
    H.check(sorted(rf.feasible_subsets) == [c for c in range(len(part)) if c not in touched], 'reported feasible subsets', inp,
            rf.feasible_subsets, touched)


def built(H):
    refining.cases(H, check, 0.5)


def runs(H):
    refining.runs(H, check, 0.9)


PARTS = [built, runs]
