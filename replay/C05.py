"""C05: refinement keeps a partition valid and finer"""
import common
import refining

RULE = ("refine of both refiners on random partitions and patterns of violated scenarios (repeated calls on one object, "
        "real and stubbed split models), and every refinement of real runs: result against the caller's old partition")


def check(H, inp, old, given, out, rf, S, bad, k):
    nb, part = out
    part = [list(s) for s in part]
    H.check(given == old, "the caller's partition is not modified", inp, given, old)
    H.check(nb == len(part), 'returned number of subsets', inp, nb, len(part))
    H.check(all(part), 'no empty subset', inp, part)
    H.check(sorted(s for c in part for s in c) == list(range(S)), 'every scenario exactly once', inp, part)
    H.check(all(any(set(c) <= set(o) for o in old) for c in part), 'every new subset lies in one old subset', inp, part, old)
    new = [int(c) for c in rf.new_subsets]
    H.check(len(set(new)) == len(new) and all(0 <= c < len(part) for c in new), 'new subsets are distinct positions', inp, new)
    for c in range(len(part)):
        if c < len(old):
            if c not in new:
                H.check(part[c] == old[c], 'a subset not reported as new is unchanged and in place', inp, part, old)
            else:
                H.check(set(part[c]) <= set(old[c]), 'a split subset keeps part of its scenarios in place', inp, part, old)
        else:
            H.check(c in new, 'an added subset is reported as new', inp, new, c)


def built(H):
    refining.cases(H, check, 0.5)


def runs(H):
    refining.runs(H, check, 0.9)


PARTS = [built, runs]
