"""From lattice.in to the POSCARs: the two programs one after the other."""
from fractions import Fraction as F

import numpy as np

import cli
import gen
import poscar
import ref
from harness import Sub, casedir, check, cut
from hypothesis import strategies as st
from checks import C11, C19
from checks.C18 import scale_of
from checks.C30 import command
from checks.C34 import make

PROPERTY = "C36"
RULE = ("Random lattice.in files with few enough structures to find them all by brute force; 'enumeration.py -enum' and "
        "'makeStr.py all' are run, and each POSCAR is read as a crystal of its own: its cell gives the superlattice, the "
        "positions the sites and the displacements. Up to symmetry these must be all the structures, each once. "
        "Non-trivial: more than two structures in more than one shape of cell.")


@st.composite
def cases(draw):
    case = draw(C11.cases())
    return dict(case, mink=draw(st.sampled_from([None, "t", "f"])), disp=draw(st.sampled_from([0.1, 0.15, -0.1])))


@st.composite
def many(draw):
    """More than ten species."""
    c = draw(gen.crystals(max_basis=3))
    nb = len(c["b"])
    hi = draw(st.integers(1, max(1, 2//nb)))
    k = draw(st.integers(11, 14))
    rng = None
    if draw(st.booleans()):
        # a few of them
        rng = [[0, draw(st.sampled_from([0, 0, 0, 1])), 1] for _ in range(k-2)]+[[0, 1, 1]]*2
        rng = list(draw(st.permutations(rng)))
    return {"crystal": c, "sizes": [1, hi], "k": k, "ranges": rng, "arrows": False, "fracs": ["0"]*k, "outside": None,
            "supers": draw(st.booleans()), "mink": "t", "disp": 0.1, "config": True}


def run(case, rec):
    c = gen.crystal(case["crystal"])
    k = case["k"]
    use = case["arrows"] and c.axes_ok() and any(F(f) for f in case["fracs"])
    fracs = case["fracs"] if use else ["0"]*k
    all_of_them = C11.wanted(case, c, use, fracs)
    if all_of_them is None:
        return
    want, nshapes, forms = all_of_them
    if not want:
        return
    given = c
    if case["outside"]:
        given = ref.Crystal(c.A, c.G, [[x+o for x, o in zip(b, out)] for b, out in zip(c.basis, case["outside"])])
    unit = scale_of(c)
    disp = float(case["disp"]*unit)
    with casedir():
        cli.write_lattice("lattice.in", given, case["sizes"], k, case["ranges"], use, fracs)
        cut(command, ["-enum"] + (["-super"] if case["supers"] else []))
        cut(make, ["all", "-input", "enum.out"] + (["-mink", case["mink"]] if case["mink"] else []) + (["-displace", repr(disp)] if use else []))
        got = []
        while len(got) <= len(want):
            try:
                got.append(poscar.parse("vasp.%d" % (len(got)+1)))
            except IOError:
                break
        if "config" in case:
            # the atoms of each species in the other kind of file
            cut(make, ["all", "-input", "enum.out", "-config", "t", "-outfile", "x.cfg"])
            cfg = C19.parse("x.cfg")
            check(len(cfg) == len(got), "%d configurations and %d POSCARs", len(cfg), len(got))
            for i, (x, p) in enumerate(zip(cfg, got)):
                check([x["types"].count(j) for j in range(k)] == p["counts"], "structure %d: the types %s of the "
                      "configuration, the counts %s of the POSCAR", i+1, x["types"], p["counts"])
    Ai = np.linalg.inv(np.array(c.A))
    # all that may be added to a site
    steps = [(-1, np.zeros(3))]
    if use:
        steps += [(a, np.array(d, float)*disp @ Ai) for a, d in enumerate(poscar.DIRS[1:])]
    found = {}
    for i, p in enumerate(got):
        H = np.rint((p["slv"] @ Ai).T).astype(int)
        H = ref.hnf_of(tuple(tuple(int(x) for x in r) for r in H))
        poscar.same_lattice(c, H, p["slv"])
        sc = ref.Supercell(c, H)
        check(len(p["pos"]) == sc.N and len(p["counts"]) == k, "structure %d: %d atoms of %d species, the cell has "
              "%d sites", i+1, len(p["pos"]), len(p["counts"]), sc.N)
        lab, arr = [None]*sc.N, [None]*sc.N
        X = p["pos"] @ p["slv"] @ Ai
        for x, j in zip(X, [j for j in range(k) for _ in range(p["counts"][j])]):
            for a, d in steps:
                site = poscar.site_of(c, sc, x-d, tol=1e-3)
                if site is not None:
                    break
            check(site is not None and lab[site] is None, "structure %d: the atom at %s is on no site, or not the "
                  "first one there", i+1, x.tolist())
            lab[site], arr[site] = j, a
        f = forms.form(sc, lab, arr)
        check(f in want, "structure %d (%s %s %s) is none of the %d", i+1, H, lab, arr, len(want))
        check(f not in found, "structures %s and %d are equivalent", found.get(f), i+1)
        found[f] = i+1
    check(len(found) == len(want), "%d of the %d structures have no POSCAR", len(want)-len(found), len(want))
    rec.nontrivial(len(want) > 2 and nshapes > 1)
    rec.tag("arrows=%s" % use)
    rec.tag("sites=%d" % len(c.basis))


SUBS = [Sub("many", many(), run, 24, 600), Sub("poscars", cases(), run, 200, 4000)]
