"""The POSCAR of a structure describes that structure."""
import numpy as np
from hypothesis import strategies as st

import cli
import poscar
import ref
from harness import Sub, casedir, check, cut

PROPERTY = "C17"
RULE = ("Made-up enum.out files (crystals of 1-4 sites, inside or outside of the cell, superlattices of up to 24 sites, "
        "random labelings, displacements listed but not applied), with and without reduction of the cell, with and "
        "without species: each atom of the POSCAR is traced back to its site; the cell must span the superlattice, "
        "every site appear once, with the species of the labeling, inside of the cell. Non-trivial: at least two "
        "species present and more than two sites.")


@st.composite
def cases(draw):
    s = draw(poscar.systems(max_n=draw(st.sampled_from([6, 12, 24])), structures=2, arrows=draw(st.booleans())))
    sp = None
    if draw(st.integers(0, 2)) < 2:
        sp = draw(poscar.elements(s["k"]))
    return {"s": s, "mink": draw(st.sampled_from("tf")), "species": sp, "zeros": draw(st.sampled_from("tf"))}


def judge_cell(c, t, p, mink):
    poscar.same_lattice(c, t["H"], p["slv"])
    if mink == "t":
        check(np.linalg.det(p["slv"]) > 0, "the reduced cell is left handed: %s", p["slv"].tolist())
    else:
        want = (np.array(c.A).T @ np.array(t["H"], float)).T
        check(np.allclose(p["slv"], want, rtol=0, atol=1e-6), "the cell was changed: %s", p["slv"].tolist())


def run(case, rec):
    from phenum.phenumStr import run as make
    s, sp = case["s"], case["species"]
    k = s["k"]
    with casedir():
        c = poscar.write("enum.out", s)
        cut(make, cli.str_args(mink=case["mink"], species=sp and list(sp), remove_zeros=case["zeros"]))
        got = [poscar.parse("vasp.%d" % (i+1)) for i in range(len(s["strs"]))]
    for i, (t, p) in enumerate(zip(s["strs"], got)):
        sc = poscar.supercell(c, t)
        judge_cell(c, t, p, case["mink"])
        counts = [t["lab"].count(j) for j in range(k)]
        gone = sp is not None and case["zeros"] == "t"
        check(p["counts"] == [x for x in counts if x or not gone], "structure %d has the counts %s, not %s",
              i+1, p["counts"], counts)
        words = p["title"].split()
        head = [e for e, x in zip(sp, counts) if x or not gone] if sp else []
        check(words[:len(head)] == head and words[len(head):] == s["title"].split()+["str", "#:", str(i+1)],
              "the title is %s", p["title"])
        order = [j for j in range(k) for _ in range(counts[j])]
        check(p["pos"].min() > -1e-6 and p["pos"].max() < 1, "an atom is outside of the cell: %s",
              p["pos"].tolist())
        X = p["pos"] @ p["slv"] @ np.linalg.inv(np.array(c.A))
        seen = set()
        for x, j in zip(X, order):
            site = poscar.site_of(c, sc, x)
            check(site is not None, "an atom at %s is on no site", x.tolist())
            check(site not in seen, "two atoms on the site %d", site)
            check(t["lab"][site] == j, "site %d of %s has species %d", site, t["lab"], j)
            seen.add(site)
        check(len(seen) == sc.N, "%d of the %d sites have an atom", len(seen), sc.N)
        rec.nontrivial(sc.N > 2 and len([x for x in counts if x]) > 1)
    rec.tag("mink="+case["mink"])
    rec.tag("species=%s zeros=%s" % (sp is not None, case["zeros"]))
    rec.tag("sites=%d" % len(c.basis))


@st.composite
def far_cases(draw):
    return {"slv": [[draw(st.integers(-6, 6)) for _ in range(3)] for _ in range(3)],
            "pts": draw(st.lists(st.lists(st.integers(-60, 60), min_size=3, max_size=3), min_size=1, max_size=5)),
            "den": draw(st.sampled_from([1, 2, 3, 4, 7, 10]))}


def run_far(case, rec):
    from phenum.vector_utils import cartesian2direct
    slv = np.array(case["slv"], float)
    if abs(np.linalg.det(slv)) < 0.5:
        return
    pts = [[x/float(case["den"]) for x in p] for p in case["pts"]]
    got = cut(cartesian2direct, slv.tolist(), [list(p) for p in pts], 1e-7)
    check(len(got) == len(pts), "%d positions for %d", len(got), len(pts))
    for g, p in zip(got, pts):
        g = np.array(g, float)
        check(g.min() >= -1.1e-7 and g.max() < 1, "%s is outside of the cell", g.tolist())
        d = g - np.linalg.solve(slv.T, np.array(p))
        check(np.allclose(d, np.rint(d), rtol=0, atol=1e-6), "%s is not the position %s", g.tolist(), p)
    rec.nontrivial()


SUBS = [Sub("poscar", cases(), run, 2500, 40000),
        Sub("direct", far_cases(), run_far, 1500, 20000)]
