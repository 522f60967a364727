"""Reduction of the cell."""
from math import sqrt
from itertools import product

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from harness import Sub, check, cut, must_raise

PROPERTY = "C20"
RULE = ("Superlattices (index up to 150, as Hermite normal forms and as other bases of the same lattice) of random "
        "lattices: the reduced vectors must span the same lattice, be right handed and as short as the three successive "
        "minima found by enumeration in the integer metric. Non-trivial: the vectors given are not reduced.")


@st.composite
def cases(draw):
    c = draw(gen.crystals(origin_only=True))
    kind = draw(st.sampled_from(["hnf", "hnf", "sheared"]))
    top = draw(st.sampled_from([4, 12, 30]))
    f = draw(st.integers(1, top))
    g = draw(st.integers(1, 5))
    h = draw(st.integers(1, 3))
    d = draw(st.permutations([f, g, h]))
    H = [[d[0], 0, 0], [draw(st.integers(0, d[1]-1)), d[1], 0],
         [draw(st.integers(0, d[2]-1)), draw(st.integers(0, d[2]-1)), d[2]]]
    if kind == "sheared":
        for _ in range(draw(st.integers(1, 4))):
            i, j, s = draw(st.sampled_from(gen.ELEM))
            q = draw(st.integers(1, 3))*s
            for r in H:                 # a column operation
                r[i] += q*r[j]
    return {"crystal": c, "H": H}


def minima(G):
    """The three successive minima (squared) of the integer Gram matrix."""
    G = [list(r) for r in G]
    adj, d = ref.adj3(tuple(map(tuple, G))), ref.det3(tuple(map(tuple, G)))
    top = max(G[i][i] for i in range(3))
    b = [int(sqrt(top*adj[i][i]/float(d))+1e-9) for i in range(3)]
    vs = []
    for v in product(*[range(-x, x+1) for x in b]):
        if any(v):
            l = sum(v[i]*G[i][j]*v[j] for i in range(3) for j in range(3))
            if l <= top:
                vs.append((l, v))
    vs.sort()
    found, out = [], []
    for l, v in vs:
        if np.linalg.matrix_rank(np.array(found+[v])) > len(found):
            found.append(v)
            out.append(l)
            if len(out) == 3:
                return out


def run(case, rec):
    from phenum.vector_utils import _minkowski_reduce_basis
    c = gen.crystal(case["crystal"])
    H = case["H"]
    A = np.array(c.A)
    given = (A.T @ np.array(H, float)).T
    out = np.array(cut(_minkowski_reduce_basis, given.tolist(), 1e-7), float)
    check(out.shape == (3, 3), "the reduced basis has the shape %s", out.shape)
    V = out @ np.linalg.inv(A)               # in parent lattice coordinates
    R = np.rint(V)
    check(np.allclose(V, R, rtol=0, atol=1e-6), "%s is no vector of the lattice", V.tolist())
    B = [[int(x) for x in r] for r in R]
    check(ref.hnf_of(ref.tr(B)) == ref.hnf_of(tuple(map(tuple, H))), "%s spans another lattice than %s", B, H)
    check(np.linalg.det(out) > 0, "the reduced basis is left handed: %s", out.tolist())
    gram = ref.mm(ref.mm(tuple(map(tuple, B)), c.G), ref.tr(B))
    lens = sorted(gram[i][i] for i in range(3))
    want = minima(gram)
    check(lens == want, "the reduced vectors have the squared lengths %s, there are vectors of %s", lens, want)
    first = ref.mm(ref.mm(ref.tr(H), c.G), tuple(map(tuple, H)))
    rec.nontrivial(sorted(first[i][i] for i in range(3)) != lens)
    rec.tag("index=%d" % (abs(ref.det3(H))//25*25))


@st.composite
def flat(draw):
    v = [[draw(st.integers(-5, 5)) for _ in range(3)] for _ in range(2)]
    a, b = draw(st.integers(-3, 3)), draw(st.integers(-3, 3))
    v.append([a*x+b*y for x, y in zip(*v)])
    return {"v": draw(st.permutations(v))}


def run_flat(case, rec):
    from phenum.vector_utils import _minkowski_reduce_basis
    must_raise(ValueError, _minkowski_reduce_basis, [[float(x) for x in r] for r in case["v"]], 1e-7)
    rec.nontrivial(all(any(r) for r in case["v"]))


SUBS = [Sub("reduce", cases(), run, 2000, 40000),
        Sub("dependent", flat(), run_flat, 200, 2000)]
