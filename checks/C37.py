"""Surfaces: only the operations that keep the normal."""
from copy import deepcopy
from fractions import Fraction as F
from math import sqrt

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from harness import Sub, check, cut, must_raise
from checks.C04 import inverse

PROPERTY = "C37"
RULE = ("Random slabs (the first vector along x, square, rectangular, centred, hexagonal and oblique planes, in any basis and "
        "turned in the plane, often as high as wide so that the crystal has more operations than the surface; 1-4 sites): the group "
        "of a supercell and the shapes found with LatDim 2 are compared with those of the exact operations that take "
        "the normal to itself or its opposite; lattices of another form must be refused. Non-trivial: the crystal has "
        "operations that turn the normal away, or the group is larger than the translations.")

# the plane: rows and their Gram matrix
PLANES = {
    "square": (((1, 0), (0, 1)), ((1, 0), (0, 1))),
    "rect": (((1, 0), (0, 2)), ((1, 0), (0, 4))),
    "cent": (((1, 2), (1, -2)), ((5, -3), (-3, 5))),
    "obl": (((2, 0), (1, 3)), ((4, 2), (2, 10))),
    "hex": (((sqrt(2), 0), (sqrt(.5), sqrt(1.5))), ((2, 1), (1, 2))),
}


@st.composite
def slabs(draw, arrows=False):
    name = draw(st.sampled_from(["square"]*3+["rect", "cent", "obl", "hex", "hex"]))
    P, g = PLANES[name]
    h = draw(st.sampled_from([1, 1, 1, 4, 9]))
    if name == "hex":
        h = draw(st.sampled_from([2, 8, 3]))
    elif name in ("cent", "obl"):
        # as long as a vector of the plane
        h = draw(st.sampled_from([1, 4, 16]))
    if name == "square" and draw(st.integers(0, 5)) == 0:
        # almost a cube
        P, g, h = ((1000, 0), (0, 1000)), ((10**6, 0), (0, 10**6)), 1001**2
    A = np.zeros((3, 3))
    A[0, 0] = sqrt(h)*draw(st.sampled_from([1, 1, -1]))
    A[1:, 1:] = P
    G = ((h, 0, 0), (0,)+tuple(g[0]), (0,)+tuple(g[1]))
    if draw(st.integers(0, 4)) == 0:
        basis = [(F(0), F(0), F(0))]
    elif draw(st.booleans()):
        sp = [s for s in sorted(gen.SPECIAL) if len(gen.SPECIAL[s]) <= 4]
        basis = [tuple(F(x) for x in b) for b in gen.SPECIAL[draw(st.sampled_from(sp))]]
    else:
        den = draw(st.sampled_from([2, 3, 4, 5, 6]))
        basis = []
        for _ in range(draw(st.integers(1, 4))):
            p = tuple(F(draw(st.integers(0, den-1)), den) for _ in range(3))
            if p not in basis:
                basis.append(p)
    U = ref.EYE
    for _ in range(draw(st.integers(0, 2))):
        i, j, s = draw(st.sampled_from([x for x in gen.ELEM if x[0] and x[1]]))
        V = [list(r) for r in ref.EYE]
        V[i][j] = s
        W = ref.mm(V, U)
        if gen.lattice_count(gen.gram_times(W, G)) <= 27:
            U = W
    Ui = ref.inv3(U)
    basis = [tuple(sum(b[i]*Ui[i][j] for i in range(3)) % 1 for j in range(3)) for b in basis]
    A = np.array(U, float) @ A
    G = gen.gram_times(U, G)
    x, y = draw(st.sampled_from([(1, 0), (1, 0), (0, 1), (3/5., 4/5.), (5/13., -12/13.)][:3 if arrows else 5]))
    A = A @ np.array([[1, 0, 0], [0, x, y], [0, -y, x]])
    A *= draw(st.sampled_from([1.0, 2.0, 0.3, 40.0]))/(1000 if h > 10**5 else 1)
    c = ref.Crystal(A.tolist(), G, basis)
    if not c.is_primitive():
        basis = basis[:1]
    return {"name": name, "A": A.tolist(), "G": [list(r) for r in G], "b": [[str(x) for x in b] for b in basis]}


def flat(W):
    """The normal goes to itself or its opposite, the plane to itself."""
    return W[0][1] == W[0][2] == W[1][0] == W[2][0] == 0 and abs(W[0][0]) == 1


@st.composite
def groups(draw):
    arrows = draw(st.booleans())
    c = draw(slabs(arrows))
    return {"crystal": c, "H": draw(gen.hnfs(max(1, min(8, 16//len(c["b"]))))), "arrows": arrows}


def run_group(case, rec):
    from phenum.grouptheory import get_sym_group, SmithNormalForm
    c = gen.crystal(case["crystal"])
    H = case["H"]
    S, L, R = cut(SmithNormalForm, deepcopy(H))
    sc = ref.Supercell(c, H, [[int(x) for x in r] for r in L], [int(S[i][i]) for i in range(3)])
    ops = [op for op in sc.fixing_ops() if flat(op[0])]
    arrows = case["arrows"] and all(c.axis_perm(W) is not None for W, _, _, _ in ops)
    A, b = gen.lat_args(c)
    g = cut(get_sym_group, A, b, deepcopy(H), 2, arrows=arrows)
    got = [tuple(int(x) for x in p) for p in g.perm.site_perm]
    if arrows:
        got = list(zip(got, [tuple(int(x) for x in p) for p in g.perm.arrow_perm]))
    else:
        got = [(p, None) for p in got]
    exp = {(inverse(sc.site_map(W, perm, shift, r)), c.axis_perm(W) if arrows else None)
           for W, t, perm, shift in ops for r in sc.reps}
    check(len(set(got)) == len(got), "%d operations are listed more than once", len(got)-len(set(got)))
    miss, extra = exp-set(got), set(got)-exp
    check(not extra, "%d operations are none of the surface, e.g. %s", len(extra), sorted(extra)[:1])
    check(not miss, "%d of the %d symmetries of the surface are missing, e.g. %s", len(miss), len(exp), sorted(miss)[:1])
    rec.nontrivial(len(exp) > sc.n)
    rec.tag("arrows=%s" % arrows)
    rec.tag("turned away=%s" % any(not flat(W) for W in c.rotations()))


def run_shapes(case, rec):
    from phenum.HNFs import get_HNFs
    c = gen.crystal(case["crystal"])
    n = case["n"]
    A, b = gen.lat_args(c)
    got = [tuple(tuple(int(x) for x in r) for r in h) for h in cut(get_HNFs, n, A, b, 2)]
    orbits = ref.lattice_orbits(sorted(ref.all_hnfs(n)), [W for W in c.rotations() if flat(W)])
    owner = {h: i for i, o in enumerate(orbits) for h in o}
    check(all(h in owner for h in got), "not all of them are Hermite normal forms of index %d: %s", n, got)
    hits = [owner[h] for h in got]
    check(len(set(hits)) == len(hits), "two of the shapes returned are equivalent: %s", got)
    check(len(hits) == len(orbits), "%d of the %d inequivalent shapes are missing", len(orbits)-len(hits), len(orbits))
    rec.nontrivial(n > 1 and any(not flat(W) for W in c.rotations()))


def run_refused(case, rec):
    from phenum.grouptheory import get_sym_group
    c = gen.crystal(case["crystal"])
    A, b = gen.lat_args(c)
    size = max(abs(x) for r in A for x in r)
    off = [abs(x)/size for x in (A[0][1], A[0][2], A[1][0], A[2][0])]
    if max(off) < 1e-9:
        cut(get_sym_group, A, b, [[1, 0, 0], [0, 1, 0], [0, 0, 2]], 2, arrows=False)
        return
    must_raise(ValueError, get_sym_group, A, b, [[1, 0, 0], [0, 1, 0], [0, 0, 2]], 2, arrows=False)
    rec.nontrivial(sum(x > 1e-9 for x in off) < 3)


SUBS = [Sub("group", groups(), run_group, 400, 6000),
        Sub("shapes", st.fixed_dictionaries({"crystal": slabs(), "n": st.integers(1, 7)}), run_shapes, 300, 5000),
        Sub("refused", st.fixed_dictionaries({"crystal": gen.crystals(max_basis=2)}), run_refused, 100, 1000)]
