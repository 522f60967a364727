"""Random structures of cells too large to enumerate."""
from fractions import Fraction as F
import random

from hypothesis import strategies as st

import enumcheck as ec
import gen
import ref
from harness import Sub, Known, check, cut

PROPERTY = "C09"
RULE = ("Random crystals and supercells of 12-24 sites whose colourings number more than 100000, or that carry "
        "arrows on at least one of 12 or more sites, and requests for 1-100 structures: composition, inequivalence "
        "under the exact symmetry, number returned. Non-trivial: at least two structures asked for.")


@st.composite
def plain(draw):
    c = draw(gen.crystals(max_basis=4))
    nb = len(c["b"])
    n = draw(st.integers(-(-12//nb), max(-(-12//nb), 20//nb)))
    H = list(map(list, draw(st.sampled_from(ref.all_hnfs(n)))))
    N = n*nb
    concs = draw(gen.compositions(N, kmin=2, kmax=6))
    # break up the largest species until there are enough colourings
    while ref.multinom(concs) <= 100000:
        i = max(range(len(concs)), key=lambda j: concs[j])
        h = concs[i]//2
        concs = concs[:i]+[h, concs[i]-h]+concs[i+1:]
    if draw(st.booleans()):
        concs = sorted(concs)
    return {"crystal": c, "H": H, "concs": concs, "fracs": ["0"]*len(concs), "supers": draw(st.booleans()),
            "want": draw(st.one_of(st.integers(1, 60), st.sampled_from([90, 99, 100]))), "seed": draw(st.integers(0, 2**31))}


@st.composite
def periodic(draw):
    """Cells of which one in a hundred colourings is superperiodic, many of them asked for."""
    c = draw(gen.crystals(max_basis=3))
    nb = len(c["b"])
    d = draw(st.permutations({1: [2, 2, 6], 2: [2, 2, 3], 3: [2, 2, 2]}[nb]))
    H = [[d[0], 0, 0], [0, d[1], 0], [0, 0, d[2]]]
    for i in range(3):
        for j in range(i):
            if d[i] == 6:
                H[i][j] = 2*draw(st.integers(0, 2))
    concs = draw(st.sampled_from([[6, 18], [8, 16], [6, 18], [2, 2, 20]]))
    return {"crystal": c, "H": H, "concs": concs, "fracs": ["0"]*len(concs), "supers": draw(st.integers(0, 7)) == 0,
            "want": draw(st.integers(60, 100)), "seed": draw(st.integers(0, 2**31))}


@st.composite
def arrows(draw):
    c = draw(gen.crystals(arrows=True, max_basis=4))
    nb = len(c["b"])
    n = draw(st.integers(-(-12//nb), max(-(-12//nb), 16//nb)))
    H = list(map(list, draw(st.sampled_from(ref.all_hnfs(n)))))
    N = n*nb
    few = draw(st.integers(0, 2)) == 0
    if few:
        # hardly any arrangements: a single displaced atom, or two
        k = draw(st.integers(1, 2))
        concs, na = [N-k, k], [0, draw(st.integers(1, k))]
        if draw(st.booleans()):
            concs, na = concs[::-1], na[::-1]
    else:
        concs = draw(gen.compositions(N, kmax=4))
        na = [0]*len(concs)
        for i in draw(st.lists(st.integers(0, len(concs)-1), min_size=1, max_size=8)):
            if na[i] < concs[i]:
                na[i] += 1
    fracs = [("%d/%d" % (a, x)) if x else "0" for x, a in zip(concs, na)]
    return {"crystal": c, "H": H, "concs": concs, "fracs": fracs, "supers": draw(st.booleans()),
            "want": draw(st.one_of(st.integers(1, 60), st.sampled_from([90, 99, 100]))), "seed": draw(st.integers(0, 2**31))}


def run(case, rec):
    from phenum.phonons import enum_sys
    c, sc, params = ec.setup(case)
    concs, fracs = case["concs"], case["fracs"]
    na = ec.n_arrows(concs, fracs)
    if any(na) and not c.axes_ok():
        return
    if not any(na) and ref.multinom(concs) <= 100000:
        return
    ops = sc.ops(arrows=any(na))
    sp, arrowed, _ = ec.split_concs(concs, na)
    total = ref.burnside(ops, sp, arrowed)
    want = case["want"]
    random.seed(case["seed"])
    configs = cut(enum_sys, None, list(concs), [float(F(f)) for f in fracs], want,
                  list(ref.hnf6(case["H"])), params, case["supers"], None)
    known = None
    if not any(na) and concs != sorted(concs):
        # finding C09-1: the labels of the species come out in the order of
        # their concentrations.  Anything else that is wrong is still judged.
        asc = sorted(concs)
        if configs and all(composition_is(cf, asc) for cf in configs) \
                and not all(composition_is(cf, concs) for cf in configs):
            known = "C09-1"
            concs = asc
    got = ec.judge(sc, ops, configs, concs, na, case["supers"])
    if case["supers"] or ec.no_superperiodic(sc, concs, na):
        check(len(got) == min(want, total), "%d structures returned of the %d asked for, there are %d",
              len(got), want, total)
    else:
        check(len(got) <= want, "%d structures returned, %d asked for", len(got), want)
        if total > 20*want:
            check(len(got) == want, "%d structures returned of the %d asked for, there are %d",
                  len(got), want, total)
    rec.nontrivial(want >= 2)
    rec.tag("arrows=%s" % any(na))
    rec.tag("ascending=%s" % (case["concs"] == sorted(case["concs"])))
    rec.tag("all of them=%s" % (total <= want))
    if known:
        raise Known(known)


def composition_is(cf, concs):
    lab, _ = ec.decode(cf)
    return [lab.count(i) for i in range(len(concs))] == list(concs) and len(lab) == sum(concs)


SUBS = [
    Sub("plain", plain(), run, 240, 4000),
    Sub("arrows", arrows(), run, 400, 6000),
    Sub("periodic", periodic(), run, 40, 800),
]


def known_probe():
    """The request of the finding C09-1, as in tests/enumeration/enum_out/enum.in_guess."""
    from phenum.phonons import enum_sys
    params = {"lat_vecs": [[1., 0, 0], [0, 1., 0], [0, 0, 1.]], "basis_vecs": [[0., 0, 0]], "nspecies": 4}
    random.seed(0)
    configs = cut(enum_sys, None, [3, 5, 2, 2], [0, 0, 0, 0], 10, [1, 0, 2, 2, 0, 6], params, False, None)
    if all(composition_is(cf, [2, 2, 3, 5]) for cf in configs):
        return ["C09-1"]
    return []
