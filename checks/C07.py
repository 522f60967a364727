"""Full enumeration of displaced atoms (arrows)."""
from fractions import Fraction as F

from hypothesis import strategies as st

import enumcheck as ec
import gen
import ref
from harness import Sub, check, cut

PROPERTY = "C07"
RULE = ("Random crystals whose symmetry permutes the Cartesian axes, supercells of up to 9 sites, 1-4 species, the "
        "atoms of any of them displaced in full or in part (up to 3 arrows); the structures returned are compared "
        "in canonical form (labels and arrows moved together) with those found by brute force. Non-trivial: at "
        "least one arrow, more than one structure and a group larger than the translations.")

FRACS = ["0", "1", "1/2", "1/4", "3/4", "1/5", "2/5", "3/5"]


@st.composite
def cases(draw, nsite=9, limit=4000, max_arrows=3):
    c = draw(gen.crystals(arrows=True, max_basis=4))
    if nsite == 11:
        # the largest cells that are searched to the end
        n = max(1, draw(st.integers(9, 11))//len(c["b"]))
        H = list(map(list, draw(st.sampled_from(ref.all_hnfs(n)))))
    else:
        H = draw(gen.hnfs(max(1, min(8, nsite//len(c["b"])))))
    N = ref.det3(H)*len(c["b"])
    concs = draw(gen.compositions(N, kmax=4, zeros=draw(st.integers(0, 4)) == 0))
    # put the arrows on species one by one, then name the fractions
    na = [0]*len(concs)
    m = draw(st.sampled_from([1, 1, 2, 2, 3, 4]))
    for i in [draw(st.integers(0, len(concs)-1)) for _ in range(m)]:
        if na[i] < concs[i] and sum(na) < max_arrows:
            na[i] += 1

    def work():
        return ref.multinom(ec.split_concs(concs, na)[0])*6**sum(na)
    while work() > limit:
        if sum(na) > 1:
            na[max(range(len(na)), key=lambda j: na[j])] -= 1
        else:
            concs = [concs[0]+concs[1]]+concs[2:]
            na = [na[0]+na[1]]+na[2:]
    fracs = []
    for x, a in zip(concs, na):
        # any fraction whose whole part of x is a
        ok = [f for f in FRACS if int(F(f)*x) == a]
        fracs.append(draw(st.sampled_from(ok + (["%d/%d" % (a, x)] if x else []))))
    return {"crystal": c, "H": H, "concs": concs, "fracs": fracs, "supers": draw(st.booleans())}


def run(case, rec):
    from phenum.phonons import enum_sys
    c, sc, params = ec.setup(case)
    if not c.axes_ok():
        return
    concs, fracs = case["concs"], case["fracs"]
    na = ec.n_arrows(concs, fracs)
    ops = sc.ops(arrows=True)
    exp, nsuper = ec.expected(sc, ops, concs, na, case["supers"])
    sp, arrowed, _ = ec.split_concs(concs, na)
    total = ref.burnside(ops, sp, arrowed)
    configs = cut(enum_sys, None, list(concs), [float(F(f)) for f in fracs], total,
                  list(ref.hnf6(case["H"])), params, case["supers"], None)
    got = ec.judge(sc, ops, configs, concs, na, case["supers"])
    if not any(na):
        rec.tag("no arrows")
    check(got == exp, "%d inequivalent structures returned, there are %d (%d superperiodic ones %s)",
          len(got), len(exp), nsuper, "kept" if case["supers"] else "left out")
    rec.nontrivial(any(na) and len(exp) > 1 and len(ops) > sc.n)
    rec.tag("arrows=%d" % sum(na))
    rec.tag("partial=%s" % any(0 < a < x for a, x in zip(na, concs)))
    rec.tag("species=%d" % len(concs))
    rec.tag("superperiodic=%s" % (nsuper > 0))


SUBS = [Sub("arrows", cases(), run, 1500, 20000), Sub("large", cases(nsite=11), run, 200, 4000)]
