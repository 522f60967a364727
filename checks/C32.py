"""The pictures of the cells."""
import os
import re

import numpy as np
from hypothesis import strategies as st

import cli
import gen
import ref
from harness import Sub, casedir, check, cut

PROPERTY = "C32"
RULE = ("Random lattice.in and enum.in files (1-3 rows) drawn with -visualize, with and without -shapes; the points and "
        "lines of each figure that is saved are read back from the figure itself: one atom on each site of the superlattice, "
        "inside of the cell, and with -shapes the twelve edges of a cell of the superlattice. Non-trivial: a cell of "
        "at least two atoms.")


@st.composite
def cases(draw):
    c = draw(gen.crystals(max_basis=3))
    nb = len(c["b"])
    k = draw(st.integers(1, 3))
    rows = []
    for _ in range(draw(st.integers(1, 3))):
        H = draw(gen.hnfs(max(1, 8//nb)))
        N = ref.det3(H)*nb
        rows.append([list(ref.hnf6(H)), [N]+[0]*(k-1)])
    if nb == 1 and draw(st.integers(0, 3)) == 0:
        # two shapes with the same digits one after the other
        r = draw(st.integers(2, 4))
        p = draw(st.integers(0, r-1))
        for h in ([1, 0, 1, 0, p, 10+r], [1, 0, 10, p, 1, r]):
            rows.append([h, [h[2]*h[5]]+[0]*(k-1)])
    return {"crystal": c, "k": k, "rows": rows, "shapes": draw(st.booleans()), "conc": draw(st.booleans()),
            "comment": draw(st.booleans())}


def figures(args):
    """The figures saved by the command: [(file name, points, [segments])]."""
    import phenum.base
    phenum.base.set_testmode(True)     # the back end without a screen
    import phenum.visualize            # noqa (chooses the back end)
    from matplotlib.figure import Figure
    from mpl_toolkits.mplot3d import art3d
    from phenum.enumeration import _script_enum
    out = []

    def save(fig, name, *a, **kw):
        pts, segs = [], []
        for ax in fig.axes:
            for col in ax.collections:
                if isinstance(col, art3d.Path3DCollection):
                    pts += list(np.array(col._offsets3d, float).T)
                elif isinstance(col, art3d.Line3DCollection):
                    for s in col._segments3d:
                        segs += list(zip(s[:-1], s[1:]))
            for l in ax.lines:
                xyz = np.array(l.get_data_3d(), float).T
                segs += list(zip(xyz[:-1], xyz[1:]))
        out.append((str(name), pts, segs))
    real = Figure.savefig
    Figure.savefig = save
    try:
        cut(_script_enum, args)
    finally:
        Figure.savefig = real
    return out


def run(case, rec):
    c = gen.crystal(case["crystal"])
    A = np.array(c.A)
    with casedir():
        cli.write_lattice("lattice.in", c, (1, 8), case["k"])
        with open("rows", "w") as f:
            if case["comment"]:
                f.write("# HNF   Number\n")
            for h, conc in case["rows"]:
                f.write("  %s   %s   1\n" % (" ".join(map(str, h)), " ".join(map(str, conc)) if case["conc"] else ""))
        figs = figures(cli.enum_args(visualize=True, shapes=case["shapes"], input="rows"))
        left = set(os.listdir("."))-{"rows", "lattice.in"}
    check(not left, "files %s", left)
    check(len(figs) == len(case["rows"]), "%d pictures of %d rows", len(figs), len(case["rows"]))
    names = {}
    for (name, pts, segs), (h, conc) in zip(figs, case["rows"]):
        check("".join(re.findall(r"\d", os.path.splitext(name)[0])) == "".join(map(str, h)),
              "the picture of %s was saved to %s", h, name)
        check(names.setdefault(name, h) == h, "the pictures of %s and %s have the same name %s", names[name], h, name)
        H = ref.full_hnf(h)
        sc = ref.Supercell(c, H)
        check(len(pts) == sc.N, "%d atoms in place of %d", len(pts), sc.N)
        seen = set()
        size = np.abs(A).max()
        for p in pts:
            x = p @ np.linalg.inv(A)
            where = None
            for d, b in enumerate(c.basis):
                z = x - np.array([float(y) for y in b])
                r = np.rint(z)
                if np.allclose(z, r, rtol=0, atol=1e-4):
                    where = sc.index(d, tuple(int(i) for i in r))
            check(where is not None, "the atom at %s is on no site", p.tolist())
            check(where not in seen, "the atom at %s is drawn twice", p.tolist())
            seen.add(where)
        if case["shapes"]:
            # the edges of a cell that spans the superlattice
            edges = set()
            key = lambda q: tuple(int(i) for i in np.rint(q/size*1e5))
            pairs = []
            for a, b in segs:
                if np.abs(a-b).max() < 1e-6*size:
                    continue
                pairs.append((np.array(a), np.array(b)))
            check(pairs, "no edges")
            vecs = [b for a, b in pairs if np.abs(a).max() < 1e-6*size] + \
                   [a for a, b in pairs if np.abs(b).max() < 1e-6*size]
            check(len(vecs) == 3, "%d edges meet in the corner", len(vecs))
            V = np.array(vecs)
            U = V @ np.linalg.inv(A) @ np.linalg.inv(np.array(H, float).T)
            check(np.allclose(U, np.rint(U), rtol=0, atol=1e-4) and abs(abs(np.linalg.det(U))-1) < 1e-4,
                  "the edges %s do not span the superlattice", V.tolist())
            want = set()
            for i in range(3):
                j, l = [x for x in range(3) if x != i]
                for o in (0*V[j], V[j], V[l], V[j]+V[l]):
                    want.add(frozenset([key(o), key(o+V[i])]))
            close = lambda e: any(all(min(max(abs(x-y) for x, y in zip(p, q)) for q in w) <= 1 for p in e) for w in want)
            for a, b in pairs:
                e = frozenset([key(a), key(b)])
                check(close(e), "the line from %s to %s is no edge of the cell", a.tolist(), b.tolist())
                edges.add(e)
            check(len(edges) >= 12, "%d edges", len(edges))
            F = np.array(pts) @ np.linalg.inv(V)
            check(F.min() > -1e-4 and F.max() < 1+1e-4, "an atom is outside of the cell")
    rec.nontrivial(any(ref.det3(ref.full_hnf(h))*len(c.basis) > 1 for h, _ in case["rows"]))
    rec.tag("shapes=%s" % case["shapes"])
    rec.tag("sites=%d" % len(c.basis))


SUBS = [Sub("draw", cases(), run, 400, 6000)]
