"""Polya counts."""
from math import factorial

from hypothesis import strategies as st

import gen
import ref
from harness import Sub, check, cut

PROPERTY = "C05"
RULE = ("Random permutation groups (closed, up to 10 points and 400 operations, paired with permutations of the "
        "arrow directions, numbered from 0 or 1) and supercells of random crystals, with any concentrations, zeros included, and any "
        "number of the species displaced; compared with exact Burnside counts, and with the orbits counted one "
        "by one where there are few colourings. Large cells (up to 160 points, cyclic groups) test the integer "
        "arithmetic. Non-trivial: at least two species or arrows, and more than one operation.")


@st.composite
def group_cases(draw):
    g = draw(gen.perm_groups(nmin=1, nmax=9, arrows=True))
    concs = draw(gen.compositions(g["n"], kmax=4, zeros=draw(st.integers(0, 3)) == 0))
    na = draw(st.integers(0, len(concs)))
    return {"group": g["group"], "concs": concs, "arrows": na, "none": draw(st.booleans()),
            "order": draw(st.integers(0, 10**6)), "first": draw(st.sampled_from([0, 0, 0, 1]))}


def run_group(case, rec):
    from phenum.polyaburnside import polya
    group, concs, na = case["group"], case["concs"], case["arrows"]
    arrowed = [False]*(len(concs)-na) + [True]*na
    ops = [(tuple(p), tuple(a)) for p, a in group]
    want = ref.burnside(ops, concs, arrowed)
    # the order of the operations does not matter
    r = case["order"] % len(group)
    f = case["first"]       # the points are numbered from 0 or from 1
    given = [[[x+f for x in p], [x+f for x in a]] for p, a in group[r:]+group[:r]]
    if na == 0 and case["none"]:
        got = cut(polya, list(concs), given)
    else:
        got = cut(polya, list(concs), given, arrowings=na)
    check(got == want, "%s arrangements of %s (%d arrowed species) under a group of %d, there are %s",
          got, concs, na, len(group), want)
    narrows = sum(c for c, a in zip(concs, arrowed) if a)
    if ref.multinom(concs)*6**narrows*len(ops) <= 60000:
        seen = ref.orbit_reps(ops, [], concs, arrowed)
        check(len(seen) == got, "%s arrangements counted, %d found one by one", got, len(seen))
        rec.tag("brute")
    rec.nontrivial(len(group) > 1 and (len(concs) > 1 or na > 0))
    rec.tag("arrowed=%d" % min(na, 2))
    rec.tag("numbered from %d" % f)


@st.composite
def big_cases(draw):
    kind = draw(st.sampled_from(["cyclic", "dihedral", "none"]))
    n = draw(st.integers(12, 60))
    if kind != "dihedral" and draw(st.booleans()):
        n = draw(st.integers(60, 160))
    if draw(st.booleans()):
        concs = draw(gen.compositions(n, kmin=2, kmax=5))
    else:
        # the largest numbers have shares of about the same size
        k = draw(st.integers(2, 4))
        concs = [n//k]*k
        for _ in range(draw(st.integers(0, 5))):
            i, j = draw(st.integers(0, k-1)), draw(st.integers(0, k-1))
            if concs[i] > 1:
                concs[i] -= 1
                concs[j] += 1
        concs[draw(st.integers(0, k-1))] += n-sum(concs)
    na = draw(st.integers(0, len(concs)))
    return {"n": n, "concs": concs, "arrows": na, "kind": kind}


def run_big(case, rec):
    from phenum.polyaburnside import polya
    n, concs, na = case["n"], case["concs"], case["arrows"]
    ax4 = (2, 3, 1, 0, 4, 5)
    flip = (0, 1, 2, 3, 5, 4)

    def power(a, k):
        r = tuple(range(6))
        for _ in range(k % 4):
            r = tuple(a[i] for i in r)
        return r
    ops = [(tuple(range(n)), tuple(range(6)))]
    if case["kind"] != "none":
        ops = [(tuple((i+k) % n for i in range(n)), power(ax4, k) if n % 4 == 0 else tuple(range(6)))
               for k in range(n)]
    if case["kind"] == "dihedral":
        # the reflection leaves the directions that the rotations turn in place
        ops = [(p, tuple(range(6))) for p, a in ops]
        ops += [(tuple((k-i) % n for i in range(n)), flip) for k in range(n)]
    arrowed = [False]*(len(concs)-na) + [True]*na
    want = ref.burnside(ops, concs, arrowed)
    got = cut(polya, list(concs), [[list(p), list(a)] for p, a in ops], arrowings=na)
    check(got == want, "%s arrangements of %s (%d arrowed species), there are %s", got, concs, na, want)
    rec.nontrivial(len(ops) > 1)
    rec.tag("digits=%d" % (len(str(want))//10*10))


@st.composite
def crystal_cases(draw):
    arrows = draw(st.booleans())
    c = draw(gen.crystals(arrows=arrows))
    if draw(st.integers(0, 3)) == 0:
        H = draw(gen.big_hnfs(48//len(c["b"])))
    else:
        H = draw(gen.hnfs(max(1, min(8, 16//len(c["b"])))))
    N = ref.det3(H)*len(c["b"])
    concs = draw(gen.compositions(N, kmax=4, zeros=True))
    na = draw(st.integers(0, len(concs))) if arrows else 0
    return {"crystal": c, "H": H, "concs": concs, "arrows": na}


def run_crystal(case, rec):
    from phenum.grouptheory import get_sym_group
    from phenum.polyaburnside import polya
    c = gen.crystal(case["crystal"])
    concs, na = case["concs"], case["arrows"]
    if na and not c.axes_ok():
        na = 0
    A, b = gen.lat_args(c)
    g = cut(get_sym_group, A, b, [list(r) for r in case["H"]], 3, arrows=na > 0)
    agroup = [list(x) for x in zip(g.perm.site_perm, g.perm.arrow_perm)]
    arrowed = [False]*(len(concs)-na) + [True]*na
    sc = ref.Supercell(c, case["H"])
    want = ref.burnside(sc.ops(arrows=na > 0), concs, arrowed)
    got = cut(polya, list(concs), agroup, arrowings=na) if na else cut(polya, list(concs), agroup)
    check(got == want, "%s arrangements of %s (%d arrowed species) in the supercell, there are %s",
          got, concs, na, want)
    rec.nontrivial(len(agroup) > 1 and (len([x for x in concs if x]) > 1 or na > 0))


SUBS = [
    Sub("group", group_cases(), run_group, 1200, 20000),
    Sub("crystal", crystal_cases(), run_crystal, 250, 4000),
    Sub("big", big_cases(), run_big, 300, 4000),
]
