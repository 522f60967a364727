"""Random subsets of an enumeration."""
from fractions import Fraction as F
import random

from hypothesis import strategies as st

import enumcheck as ec
import gen
import ref
from harness import Sub, check, cut
from checks import C07

PROPERTY = "C08"
RULE = ("Random crystals, supercells of up to 12 sites, species, arrows and requests for fewer structures than there "
        "are, with the generator seeded at random: the structures returned must have the right composition, be "
        "inequivalent under the exact symmetry and be as many as were asked for (or all of those that are not "
        "superperiodic, where superperiodic structures are left out). "
        "Non-trivial: at least two structures asked for, of more than three there are.")


@st.composite
def cases(draw):
    base = draw(st.one_of(C07.cases(nsite=8, limit=3000), C07.cases(nsite=6, limit=6000), C07.cases(nsite=11, limit=2000),
                          plain(10)))
    return dict(base, want=draw(st.integers(1, 100)), seed=draw(st.integers(0, 2**31)),
                accept=draw(st.sampled_from([None, None, None, 0.5, 0.9])))


@st.composite
def colour_cases(draw):
    base = draw(plain(12, True))
    return dict(base, want=draw(st.integers(1, 300)), seed=draw(st.integers(0, 2**31)), accept=None,
                supers=draw(st.integers(0, 3)) == 0)


@st.composite
def plain(draw, nsite, even=False):
    c = draw(gen.crystals(max_basis=4))
    nb = len(c["b"])
    H = draw(gen.hnfs(max(1, min(8, nsite//nb))))
    N = ref.det3(H)*nb
    m = draw(st.sampled_from([1, 2, 2, 3])) if even else 1
    if m > 1 and ref.det3(H) % m == 0 and N//m > 1:
        # many superperiodic ones
        concs = [m*x for x in draw(gen.compositions(N//m, kmin=2, kmax=4))]
        while ref.multinom(concs) > 8000:
            concs = [concs[0]+concs[1]] + concs[2:]
        return {"crystal": c, "H": H, "concs": concs, "fracs": ["0"]*len(concs),
                "supers": draw(st.booleans())}
    concs = draw(gen.compositions(N, kmin=2, kmax=4, zeros=draw(st.integers(0, 4)) == 0))
    while ref.multinom(concs) > 8000:
        concs = [concs[0]+concs[1]] + concs[2:]
    return {"crystal": c, "H": H, "concs": concs, "fracs": ["0"]*len(concs),
            "supers": draw(st.booleans())}


def run(case, rec):
    from phenum.phonons import enum_sys
    c, sc, params = ec.setup(case)
    concs, fracs = case["concs"], case["fracs"]
    na = ec.n_arrows(concs, fracs)
    if any(na) and not c.axes_ok():
        return
    ops = sc.ops(arrows=any(na))
    sp, arrowed, _ = ec.split_concs(concs, na)
    total = ref.burnside(ops, sp, arrowed)
    if total < 2:
        return
    want = 1 + case["want"] % (total-1)
    random.seed(case["seed"])
    configs = cut(enum_sys, None, list(concs), [float(F(f)) for f in fracs], want,
                  list(ref.hnf6(case["H"])), params, case["supers"], case["accept"])
    got = ec.judge(sc, ops, configs, concs, na, case["supers"])
    check(len(got) <= want, "%d structures returned, %d asked for", len(got), want)
    if case["accept"] is None:
        if case["supers"] or ec.no_superperiodic(sc, concs, na):
            check(len(got) == want, "%d structures returned of the %d asked for, there are %d",
                  len(got), want, total)
        else:
            exp, nsuper = ec.expected(sc, ops, concs, na, False)
            check(got <= exp, "a structure is not one of the inequivalent ones")
            check(len(got) == min(want, len(exp)), "%d structures returned of the %d asked for, %d of %d are "
                  "superperiodic", len(got), want, nsuper, total)
            rec.tag("superperiodic=%s" % (nsuper > 0))
    rec.nontrivial(want >= 2 and total > 3)
    rec.tag("arrows=%s" % any(na))
    rec.tag("accept=%s" % (case["accept"] is not None))
    rec.tag("supers=%s" % case["supers"])


@st.composite
def displaced_cases(draw):
    """One species, all of its atoms displaced: more arrangements than can be visited."""
    c = draw(gen.crystals(arrows=True, max_basis=4))
    nb = len(c["b"])
    H = draw(gen.hnfs(max(1, min(8, 14//nb))))
    N = ref.det3(H)*nb
    concs, fracs = [N], ["1"]
    if draw(st.integers(0, 3)) == 0:
        concs, fracs = [[N, 0], ["1", draw(st.sampled_from(["0", "1"]))]] if draw(st.booleans()) else [[0, N], ["0", "1"]]
    return {"crystal": c, "H": H, "concs": concs, "fracs": fracs, "supers": draw(st.booleans()),
            "want": draw(st.integers(1, 30)), "seed": draw(st.integers(0, 2**31))}


def run_displaced(case, rec):
    from phenum.phonons import enum_sys
    c, sc, params = ec.setup(case)
    concs, fracs = case["concs"], case["fracs"]
    na = ec.n_arrows(concs, fracs)
    if not c.axes_ok():
        return
    ops = sc.ops(arrows=True)
    sp, arrowed, _ = ec.split_concs(concs, na)
    total = ref.burnside(ops, sp, arrowed)
    want = case["want"]
    if want >= total or (6**sc.N > 10000 and (len(concs) > 1 or 1000*want >= total and sc.N < 12)):
        # as many as there are, or all of them have to be visited
        return
    # no more than this many are superperiodic: they are fixed by some translation
    nsuper = 0 if case["supers"] else sum(
        6**cycles(p) for p in sc.translations() if list(p) != sorted(p))
    random.seed(case["seed"])
    configs = cut(enum_sys, None, list(concs), [float(F(f)) for f in fracs], want,
                  list(ref.hnf6(case["H"])), params, case["supers"], None)
    got = ec.judge(sc, ops, configs, concs, na, case["supers"])
    check(len(got) <= want, "%d structures returned, %d asked for", len(got), want)
    if want + nsuper <= total:
        check(len(got) == want, "%d structures returned of the %d asked for, there are %d", len(got), want, total)
    rec.nontrivial(want >= 2 and total > 3)
    rec.tag("few of many=%s" % (1000*want < total))
    rec.tag("sites=%d" % sc.N)


def cycles(p):
    seen, n = set(), 0
    for i in range(len(p)):
        n += i not in seen
        while i not in seen:
            seen.add(i)
            i = p[i]
    return n


@st.composite
def million_cases(draw):
    """More than a million structures, of which more than a hundred are kept."""
    c = draw(gen.crystals(lattices=["tri"], max_basis=1))
    nb, concs = draw(st.sampled_from([(13, [4, 3, 3, 3]), (16, [6, 5, 5]), (23, [11, 12])]))
    r = random.Random(draw(st.integers(0, 2**31)))
    c = dict(c, b=[["%d/97" % x for x in t] for t in zip(*[r.sample(range(97), nb) for _ in range(3)])])
    return {"crystal": c, "H": [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "concs": concs, "fracs": ["0"]*len(concs),
            "supers": draw(st.booleans()), "want": draw(st.integers(101, 400)), "seed": draw(st.integers(0, 2**31)),
            "accept": None}


def run_million(case, rec):
    from phenum.phonons import enum_sys
    c, sc, params = ec.setup(case)
    ops = sc.ops()
    total = ref.burnside(ops, case["concs"], [0]*len(case["concs"]))
    random.seed(case["seed"])
    configs = cut(enum_sys, None, list(case["concs"]), [0.0]*len(case["concs"]), case["want"],
                  list(ref.hnf6(case["H"])), params, case["supers"], None)
    got = ec.judge(sc, ops, configs, case["concs"], [0]*len(case["concs"]), case["supers"])
    check(len(got) == case["want"], "%d structures returned of the %d asked for, there are %d",
          len(got), case["want"], total)
    rec.nontrivial(total >= 1000000)


SUBS = [Sub("displaced", displaced_cases(), run_displaced, 400, 6000), Sub("subset", cases(), run, 1000, 16000),
        Sub("colours", colour_cases(), run, 800, 12000),
        Sub("million", million_cases(), run_million, 0, 8, alarm=2400, per=1)]
