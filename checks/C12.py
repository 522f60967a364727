"""The concentrations allowed in the cells of a size."""
from hypothesis import strategies as st

import cli
from harness import Sub, check, cut

PROPERTY = "C12"
RULE = ("Random sizes, numbers of sites and species, and concentration ranges (own denominator for each species, the "
        "ends in any order, floats as read from a file, sometimes a displaced fraction behind them); the list is "
        "compared as a set with the one found in integer arithmetic. Non-trivial: restricted, and some but not all "
        "concentrations allowed, or more than two species.")


@st.composite
def cases(draw):
    k = draw(st.integers(1, 5))
    nb = draw(st.integers(1, 5))
    n = draw(st.integers(1, max(1, {1: 40, 2: 40, 3: 24, 4: 14, 5: 10}[k]//nb)))
    if draw(st.integers(0, 3)) == 0:
        rng = None
    elif draw(st.booleans()):
        rng = draw(cli.ranges(k, denmax=draw(st.sampled_from([6, 30, 100]))))
    else:
        # around a concentration of the cell, the ends hit exactly
        N = n*nb
        left, rng = N, []
        for i in range(k):
            x = left if i == k-1 else draw(st.integers(0, left))
            left -= x
            m = draw(st.sampled_from([1, 1, 2, 3, 7]))
            rng.append([max(0, x-draw(st.integers(0, 3)))*m, min(N, x+draw(st.integers(0, 3)))*m, N*m])
            if draw(st.booleans()):
                rng[-1][:2] = rng[-1][1::-1]
    return {"k": k, "nb": nb, "n": n, "ranges": rng, "four": draw(st.booleans())}


def run(case, rec):
    from phenum.symmetry import get_concs_for_size
    k, nb, n, rng = case["k"], case["nb"], case["n"], case["ranges"]
    concs = [] if rng is None else [[float(x) for x in r] + ([0.5] if case["four"] else []) for r in rng]
    got = cut(get_concs_for_size, n, k, rng is not None, nb, concs)
    got = [tuple(int(x) for x in c) for c in got]
    want = cli.conc_list(n, nb, k, rng)
    check(len(set(got)) == len(got), "a concentration is listed twice")
    extra, miss = set(got)-set(want), set(want)-set(got)
    check(not extra, "%s is not allowed in a cell of %d sites by %s", sorted(extra)[:3], n*nb, rng)
    check(not miss, "%s is allowed in a cell of %d sites by %s, it is missing", sorted(miss)[:3], n*nb, rng)
    full = len(cli.conc_list(n, nb, k))
    rec.nontrivial(k > 2 or (rng is not None and 0 < len(want) < full))
    rec.tag("restricted=%s" % (rng is not None))
    rec.tag("allowed=%s" % ("none" if not want else "all" if len(want) == full else "some"))


SUBS = [Sub("list", cases(), run, 3000, 60000)]
