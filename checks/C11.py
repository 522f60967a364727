"""Full enumeration of a lattice.in, from the command to enum.out."""
from fractions import Fraction as F

from hypothesis import strategies as st

import cli
import enumcheck as ec
import gen
import ref
from harness import Sub, casedir, check, cut

PROPERTY = "C11"
RULE = ("Random lattice.in files (crystal with sites inside or outside of the cell, range of sizes, species, "
        "concentration ranges, displaced fractions), enumerated in full by -enum; each line of enum.out is decoded "
        "on the lattice and basis of its own header and the set of structures, up to symmetry over all shapes, "
        "compared with brute force. Non-trivial: more than two structures and more than one shape or size.")


@st.composite
def cases(draw):
    arrows = draw(st.integers(0, 2)) == 0
    c = draw(gen.crystals(arrows=arrows, max_basis=5))
    nb = len(c["b"])
    k = draw(st.sampled_from([1, 2, 2, 2, 3, 3]))
    top = max(1, min(4, (6 if k < 3 else 5)//nb))
    if arrows:
        top = max(1, min(3, 4//nb))
    hi = max(draw(st.integers(1, top)), draw(st.integers(1, top)))
    lo = min(draw(st.integers(1, hi)), draw(st.integers(1, hi)))
    rng = draw(cli.ranges(k)) if arrows or draw(st.booleans()) else None
    fracs = ["0"]*k
    if arrows:
        fracs[draw(st.integers(0, k-1))] = draw(st.sampled_from(["1", "1/2", "1/3"]))
    out = None
    if draw(st.integers(0, 2)) == 0:
        out = [[draw(st.integers(-1, 1)) for _ in range(3)] for _ in range(nb)]
    return {"crystal": c, "sizes": [lo, hi], "k": k, "ranges": rng, "arrows": arrows, "fracs": fracs,
            "supers": draw(st.booleans()), "outside": out}


def wanted(case, c, use, fracs):
    """All the structures of a lattice.in in canonical form: {form: concentration}."""
    lo, hi = case["sizes"]
    k = case["k"]
    want = {}
    work = 0
    nshapes = 0
    forms = cli.Forms(c, use)
    for n in range(lo, hi+1):
        concs = cli.conc_list(n, len(c.basis), k, case["ranges"])
        orbits = ref.lattice_orbits(ref.all_hnfs(n), c.rotations())
        for conc in concs:
            na = ec.n_arrows(conc, fracs)
            work += ref.multinom(ec.split_concs(conc, na)[0])*6**sum(na)*len(orbits)
    if work > 8000:
        return None
    for n in range(lo, hi+1):
        concs = cli.conc_list(n, len(c.basis), k, case["ranges"])
        for orb in ref.lattice_orbits(ref.all_hnfs(n), c.rotations()):
            H0, (sc, ops) = forms.cell(min(orb))
            nshapes += 1
            for conc in concs:
                exp, _ = ec.expected(sc, ops, list(conc), ec.n_arrows(conc, fracs), case["supers"])
                for e in exp:
                    if use and e and not isinstance(e[0], tuple):
                        e = tuple((x, -1) for x in e)
                    want[(H0, e)] = conc
    return want, nshapes, forms


def run(case, rec):
    from phenum.enumeration import _script_enum
    c = gen.crystal(case["crystal"])
    k = case["k"]
    use = case["arrows"] and c.axes_ok()
    fracs = case["fracs"] if use else ["0"]*k
    lo, hi = case["sizes"]
    all_of_them = wanted(case, c, use, fracs)
    if all_of_them is None:
        return
    want, nshapes, forms = all_of_them
    given = c
    if case["outside"]:
        given = ref.Crystal(c.A, c.G, [[x+o for x, o in zip(b, out)]
                                       for b, out in zip(c.basis, case["outside"])])
    with casedir():
        cli.write_lattice("lattice.in", given, (lo, hi), k, case["ranges"], use, fracs)
        if not want:
            # nothing to enumerate: no file, or no structures in it
            rec.tag("nothing allowed")
            return
        cut(_script_enum, cli.enum_args(enum=True, super=case["supers"]))
        head, lines = cli.parse_enum_out("enum.out")
    # the structures live on the lattice and the sites of the header
    import numpy as np
    check(head["nD"] == len(c.basis) and head["k"] == k and head["sizes"] == [lo, hi] and head["bulk"] == "bulk",
          "bad header: %s", head)
    check(head["restricted"] == (case["ranges"] is not None), "bad header: %s", head)
    check(np.allclose(head["lat"], c.A, rtol=0, atol=1e-6), "the lattice of the header is %s", head["lat"])
    X = np.array(head["basis"]) @ np.linalg.inv(np.array(c.A))
    basis = []
    for x, b in zip(X, c.basis):
        z = np.rint(x - np.array([float(y) for y in b]))
        check(np.allclose(x - z, [float(y) for y in b], rtol=0, atol=1e-5), "a site of the header is not one of "
              "the crystal: %s", x)
        basis.append([y+int(i) for y, i in zip(b, z)])
    hc = ref.Crystal(c.A, c.G, basis)
    hforms = forms if basis == [list(b) for b in c.basis] else cli.Forms(hc, use)
    got = {}
    for i, s in enumerate(lines):
        check(s["n"] == i+1, "structure %d is numbered %d", i+1, s["n"])
        sc, lab, arr = cli.line_structure(hc, s)
        conc = tuple(lab.count(j) for j in range(k))
        if not case["supers"]:
            check(not ref.is_superperiodic(sc.translations(), lab, arr if use else None),
                  "structure %d is superperiodic", i+1)
        if use:
            for l, a in zip(lab, arr):
                check(-1 <= a <= 5, "bad arrow in structure %d", i+1)
        else:
            check(set(arr) <= {-1}, "arrows that were not asked for in structure %d", i+1)
        if hforms is forms:
            f = forms.form(sc, lab, arr)
        else:
            f = forms.form(*shift_sites(c, hc, sc, lab, arr))
        check(f not in got, "structures %s and %d are equivalent", got.get(f), i+1)
        got[f] = i+1
    miss = set(want)-set(got)
    check(not set(got)-set(want), "%d structures should not be there", len(set(got)-set(want)))
    check(not miss, "%d of %d structures are missing", len(miss), len(want))
    rec.nontrivial(len(want) > 2 and nshapes > 1)
    rec.tag("arrows=%s" % use)
    rec.tag("supers=%s" % case["supers"])
    rec.tag("outside=%s" % bool(case["outside"]))


def shift_sites(c, hc, sc, lab, arr):
    """The same pattern described on the in-cell sites of c."""
    sc2 = ref.Supercell(c, sc.H)
    nl, na = [None]*sc.N, [None]*sc.N
    for d in range(sc.nD):
        off = tuple(int(x-y) for x, y in zip(hc.basis[d], c.basis[d]))
        for z in sc.reps:
            w = tuple(z[i]+off[i] for i in range(3))
            nl[sc2.index(d, w)] = lab[sc.index(d, z)]
            na[sc2.index(d, w)] = arr[sc.index(d, z)]
    return sc2, nl, na


SUBS = [Sub("enumerate", cases(), run, 400, 6000)]
