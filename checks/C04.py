"""The permutation group of a supercell."""
from copy import deepcopy

from hypothesis import strategies as st

import gen
import ref
from harness import Sub, check, cut

PROPERTY = "C04"
RULE = ("Random crystals and supercells of up to 64 sites (half of the larger ones with a quotient group that "
        "is not cyclic); the site permutations, paired with the arrow "
        "permutations where the rotations permute the axes, are compared as a set with those computed exactly "
        "from the space group operations that keep the superlattice. Non-trivial: the group is larger than the "
        "translations of the supercell.")


@st.composite
def cases(draw):
    arrows = draw(st.booleans())
    c = draw(gen.crystals(arrows=arrows, max_basis=5))
    H = draw(gen.hnfs(max(1, min(8, 24//len(c["b"])))))
    return {"crystal": c, "H": H, "arrows": arrows}


@st.composite
def large(draw):
    arrows = draw(st.booleans())
    c = draw(gen.crystals(arrows=arrows, max_basis=3))
    H = draw(gen.big_hnfs(64//len(c["b"])))
    return {"crystal": c, "H": H, "arrows": arrows}


def inverse(p):
    q = [0]*len(p)
    for i, x in enumerate(p):
        q[x] = i
    return tuple(q)


def run(case, rec):
    from phenum.grouptheory import get_sym_group, SmithNormalForm
    c = gen.crystal(case["crystal"])
    arrows = case["arrows"] and c.axes_ok()
    H = case["H"]
    S, L, R = cut(SmithNormalForm, deepcopy(H))
    sc = ref.Supercell(c, H, [[int(x) for x in r] for r in L], [int(S[i][i]) for i in range(3)])
    check(sc.index_ok(), "the labelling positions are not one to one with the sites")
    A, b = gen.lat_args(c)
    g = cut(get_sym_group, A, b, deepcopy(H), 3, arrows=arrows)
    sites = [tuple(int(x) for x in p) for p in g.perm.site_perm]
    exp = {(inverse(to), ax) for to, ax in sc.ops(arrows=arrows)}
    if arrows:
        ar = [tuple(int(x) for x in p) for p in g.perm.arrow_perm]
        check(len(ar) == len(sites), "%d site and %d arrow permutations", len(sites), len(ar))
        got = list(zip(sites, ar))
    else:
        got = [(p, None) for p in sites]
    for p, _ in got:
        check(sorted(p) == list(range(sc.N)), "%s is not a permutation of the sites", p)
    check(len(set(got)) == len(got), "%d operations are listed more than once", len(got)-len(set(got)))
    miss, extra = exp-set(got), set(got)-exp
    check(not extra, "%d operations are no symmetry of the supercell, e.g. %s", len(extra), sorted(extra)[:1])
    check(not miss, "%d of the %d symmetries of the supercell are missing, e.g. %s", len(miss), len(exp),
          sorted(miss)[:1])
    rec.nontrivial(len(exp) > sc.n)
    rec.tag("arrows=%s" % arrows)
    rec.tag("sites_in_cell=%d" % len(c.basis))


SUBS = [Sub("group", cases(), run, 700, 12000), Sub("large", large(), run, 120, 1500)]
