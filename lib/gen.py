"""Hypothesis strategies for crystals, supercells, concentrations and groups.

Everything is drawn through hypothesis, and a case is a plain JSON value that
holds the numbers handed to the code under test.
"""
import harness  # noqa: F401  (sets sys.path)
from fractions import Fraction as F
from functools import lru_cache
from math import sqrt

import numpy as np
from hypothesis import strategies as st

import ref

S3 = sqrt(3.0)/2

# name: integer rows M (the lattice is M.Z^3 in Cartesian space, scaled)
CUBIC = {
    "sc": ((1, 0, 0), (0, 1, 0), (0, 0, 1)),
    "fcc": ((0, 1, 1), (1, 0, 1), (1, 1, 0)),
    "bcc": ((-1, 1, 1), (1, -1, 1), (1, 1, -1)),
}
OTHER = {
    "tet": ((1, 0, 0), (0, 1, 0), (0, 0, 2)),
    "tet_b": ((2, 0, 0), (0, 2, 0), (0, 0, 3)),
    "bct": ((-1, 1, 2), (1, -1, 2), (1, 1, -2)),
    "ort": ((1, 0, 0), (0, 2, 0), (0, 0, 3)),
    "ortc": ((1, 2, 0), (1, -2, 0), (0, 0, 3)),
    "orti": ((-2, 3, 4), (2, -3, 4), (2, 3, -4)),
    "ortf": ((0, 2, 3), (1, 0, 3), (1, 2, 0)),
    "rho": ((1, 1, 2), (1, 2, 1), (2, 1, 1)),
    "rho_b": ((1, 2, 2), (2, 1, 2), (2, 2, 1)),
    "mon": ((2, 0, 0), (0, 3, 0), (1, 0, 4)),
    "monc": ((1, 2, 0), (1, -2, 0), (1, 0, 3)),
    "tri": ((2, 0, 0), (1, 3, 0), (0, 1, 4)),
}
# almost more symmetric than they are; the distortion is 1/k
NEAR = {
    "sc~": lambda k: ((k, 0, 0), (0, k, 0), (0, 0, k+1)),
    "fcc~": lambda k: ((0, k, k+1), (k, 0, k+1), (k, k, 0)),
    "bcc~": lambda k: ((-k, k, k+1), (k, -k, k+1), (k, k, -k-1)),
    "ort~": lambda k: ((k, 0, 0), (0, k+1, 0), (0, 0, k+3)),
    "mon~": lambda k: ((k, 0, 0), (0, 6*k//5, 0), (1, 0, 3*k//2)),
}
# hexagonal: c^2 = k/2 in units of a
HEXK = {"hex": 8, "hex_s": 3, "hex_id": 5}

ELEM = [(i, j, s) for i in range(3) for j in range(3) if i != j for s in (1, -1)]

# Orthogonal matrices applied to the right (Cartesian rotations).
SIGNED = []
for _p in ((0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (1, 0, 2), (2, 1, 0)):
    for _s in ((1, 1, 1), (-1, 1, 1), (1, -1, 1), (1, 1, -1), (-1, -1, -1)):
        SIGNED.append([[float(_s[i]) if _p[i] == j else 0.0 for j in range(3)] for i in range(3)])
GENERIC = [
    [[2/3., -1/3., 2/3.], [2/3., 2/3., -1/3.], [-1/3., 2/3., 2/3.]],
    [[0.6, -0.8, 0.0], [0.8, 0.6, 0.0], [0.0, 0.0, 1.0]],
    [[1.0, 0.0, 0.0], [0.0, 5/13., 12/13.], [0.0, -12/13., 5/13.]],
]

H, Q, E, T = F(1, 2), F(1, 4), F(1, 8), F(1, 3)
SPECIAL = {
    "org": [(0, 0, 0)],
    "ctr": [(0, 0, 0), (H, H, H)],
    "fac": [(0, 0, 0), (H, H, 0), (H, 0, H), (0, H, H), (H, H, H)],
    "edg": [(H, 0, 0), (0, H, 0), (0, 0, H)],
    "fcs": [(H, H, 0), (H, 0, H), (0, H, H)],
    "edo": [(0, 0, 0), (H, 0, 0), (0, H, 0), (0, 0, H)],
    "tets": [(0, 0, 0), (Q, Q, Q), (3*Q, 3*Q, 3*Q)],
    "dia": [(0, 0, 0), (Q, Q, Q)],
    "dia8": [(E, E, E), (7*E, 7*E, 7*E)],
    "q2": [(Q, Q, Q), (3*Q, 3*Q, 3*Q)],
    "hcp": [(0, 0, 0), (T, T, H)],
    "hcpo": [(T, T, Q), (2*T, 2*T, 3*Q)],
    "gra": [(T, T, 0), (2*T, 2*T, 0)],
    "plane": [(Q, 0, 0), (0, Q, 0), (3*Q, 0, 0), (0, 3*Q, 0)],
    "one_ax": [(0, 0, 0), (0, 0, T)],
    "half_ax": [(0, 0, 0), (H, 0, 0)],
    "oct": [(Q, 0, 0), (3*Q, 0, 0), (0, Q, 0), (0, 3*Q, 0), (0, 0, Q), (0, 0, 3*Q)],
    "screw": [(0, 0, 0), (Q, H, Q), (0, 0, H)],
}


def lattice_count(G):
    """How many lattice vectors are no longer than the longest basis vector."""
    return _lattice_count(tuple(map(tuple, G)))


@lru_cache(maxsize=None)
def _lattice_count(G):
    from itertools import product
    adj, d = ref.adj3(G), ref.det3(G)
    maxlen = max(G[i][i] for i in range(3))
    b = [int(sqrt(maxlen*adj[i][i]/float(d))+1e-9) for i in range(3)]
    n = 0
    for v in product(*[range(-x, x+1) for x in b]):
        l = sum(v[i]*G[i][j]*v[j] for i in range(3) for j in range(3))
        n += l <= maxlen
    return n


def gram_times(U, G):
    return ref.mm(ref.mm(U, G), ref.tr(U))


@st.composite
def crystals(draw, arrows=False, max_basis=4, skew=True, lattices=None, origin_only=False,
             max_count=27):
    """A JSON crystal: A (rows), G (integer Gram matrix), b (fractions), name."""
    if lattices is None:
        names = list(CUBIC) * 2 + list(OTHER) + list(HEXK) * 2 + list(NEAR)
        if arrows:
            names = list(CUBIC) * 3 + ["tet", "tet_b", "bct", "ort", "orti", "ortf", "ortc",
                                       "sc~", "fcc~", "bcc~", "ort~"]
    else:
        names = lattices
    name = draw(st.sampled_from(names))
    if name in HEXK:
        k = HEXK[name]
        A = np.array([[1, 0, 0], [.5, S3, 0], [0, 0, sqrt(k/2.)]])
        G = ((2, 1, 0), (1, 2, 0), (0, 0, k))
    elif name in NEAR:
        k = draw(st.sampled_from([1000, 100000]))
        M = NEAR[name](k)
        A = np.array(M, float)/k
        G = gram_times(M, ref.EYE)
    else:
        M = dict(CUBIC, **OTHER)[name]
        A = np.array(M, float)
        G = gram_times(M, ref.EYE)
    # the sites, in the coordinates of this basis
    kind = draw(st.integers(0, 9))
    sp = [s for s in sorted(SPECIAL) if len(SPECIAL[s]) <= max_basis]
    if origin_only or kind <= 2:
        basis, bname = [(F(0), F(0), F(0))], "org"
    elif kind <= 7:
        bname = draw(st.sampled_from(sp))
        basis = [tuple(F(x) for x in b) for b in SPECIAL[bname]]
        if draw(st.integers(0, 3)) == 0:
            sh = [F(draw(st.integers(0, 7)), 8) for _ in range(3)]
            basis = [tuple(b[i]+sh[i] for i in range(3)) for b in basis]
            bname += "+"
    else:
        m = draw(st.integers(1, max_basis))
        den = draw(st.sampled_from([2, 3, 4, 5, 6, 8]))
        basis = []
        for _ in range(m):
            p = tuple(F(draw(st.integers(0, den-1)), den) for _ in range(3))
            if p not in basis:
                basis.append(p)
        bname = "rnd"
    if len(basis) > 1 and draw(st.integers(0, 9)) == 0:
        # one site just off the symmetric place
        i, j = draw(st.integers(0, len(basis)-1)), draw(st.integers(0, 2))
        d = F(draw(st.sampled_from([1, -1, 3])), draw(st.sampled_from([1000, 100000])))
        basis[i] = tuple(x + (d if k == j else 0) for k, x in enumerate(basis[i]))
        bname += "~"
    # another basis of the same lattice
    U = ref.EYE
    if skew:
        for _ in range(draw(st.integers(0, 2))):
            i, j, s = draw(st.sampled_from(ELEM))
            V = [list(r) for r in ref.EYE]
            V[i][j] = s
            W = ref.mm(V, U)
            if lattice_count(gram_times(W, G)) <= max_count:
                U = W
        p = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
        if p:
            V = [((1, 0, 0), (0, 1, 0), (0, 0, 1)),
                 ((0, 1, 0), (0, 0, 1), (1, 0, 0)),
                 ((0, 1, 0), (1, 0, 0), (0, 0, 1)),
                 ((-1, 0, 0), (0, 1, 0), (0, 0, 1))][p]
            U = ref.mm(V, U)
    Ui = ref.inv3(U)
    basis = [tuple(sum(b[i]*Ui[i][j] for i in range(3)) % 1 for j in range(3)) for b in basis]
    A = np.array(U, float) @ A
    G = gram_times(U, G)
    scale = draw(st.sampled_from([1.0, 1.0, 0.5, 2.0, 3.7, 0.05, 100.0]))
    if draw(st.integers(0, 2)) == 0:
        R = draw(st.sampled_from(SIGNED if arrows else SIGNED + GENERIC * 5))
        A = A @ np.array(R)
    A = A*scale
    c = ref.Crystal(A.tolist(), G, basis)
    if not c.is_primitive():
        basis = basis[:1]
        bname += "!"
    if len(basis) > 1 and draw(st.booleans()):
        basis = list(draw(st.permutations(basis)))
    return {"name": name+"/"+bname, "A": A.tolist(), "G": [list(r) for r in G],
            "b": [[str(x) for x in b] for b in basis]}


@st.composite
def twins(draw, c, arrows=False, max_count=30, nops=4, sizes=(None, None, 0.4, 2.5, 5.64, 361.5)):
    """Another description of a crystal of this module."""
    A, G = np.array(c["A"], float), c["G"]
    b = [[F(x) for x in s] for s in c["b"]]
    U = ref.EYE
    for _ in range(draw(st.integers(0, nops))):
        i, j, s = draw(st.sampled_from(ELEM))
        V = [list(r) for r in ref.EYE]
        V[i][j] = s*draw(st.sampled_from([1, 1, 2, 3]))
        W = ref.mm(V, U)
        if lattice_count(gram_times(W, G)) <= max_count:
            U = W
    p = draw(st.sampled_from([((1, 0, 0), (0, 1, 0), (0, 0, 1)), ((0, 1, 0), (0, 0, 1), (1, 0, 0)),
                              ((0, 1, 0), (1, 0, 0), (0, 0, 1)), ((-1, 0, 0), (0, 1, 0), (0, 0, 1)),
                              ((-1, 0, 0), (0, -1, 0), (0, 0, -1))]))
    U = ref.mm(p, U)
    Ui = ref.inv3(U)
    sh = [F(draw(st.integers(0, 11)), draw(st.sampled_from([1, 2, 7, 12]))) for _ in range(3)]
    b = [[sum((x[i]+sh[i])*Ui[i][j] for i in range(3)) for j in range(3)] for x in b]
    if draw(st.booleans()):
        b = [[x % 1 + draw(st.sampled_from([0, 0, 0, 1, -1, 2])) for x in s] for s in b]
    b = list(draw(st.permutations(b)))
    A = np.array(U, float) @ A
    R = draw(st.sampled_from(SIGNED if arrows else SIGNED + GENERIC*5))
    A = A @ np.array(R)
    size = draw(st.sampled_from(sizes))
    if size is not None:
        A = A*(size/abs(np.linalg.det(A))**(1/3.))
    return {"name": c["name"]+"'", "A": A.tolist(), "G": [list(map(int, r)) for r in gram_times(U, G)],
            "b": [[str(x) for x in s] for s in b]}


_cache = {}


def crystal(case):
    key = (str(case["A"]), str(case["b"]))
    if key not in _cache:
        if len(_cache) > 500:
            _cache.clear()
        _cache[key] = ref.Crystal(case["A"], case["G"], [[F(x) for x in b] for b in case["b"]],
                                  case["name"])
    return _cache[key]


def lat_args(c):
    """Fresh lattice vectors and Cartesian basis, as phenum wants them."""
    return [list(r) for r in c.A], [list(b) for b in c.cart_basis]


@st.composite
def hnfs(draw, nmax, nmin=1):
    sizes = list(range(nmin, max(nmin, nmax)+1))
    # the larger cells more often: they are where the symmetry matters
    n = draw(st.sampled_from([m for i, m in enumerate(sizes) for _ in range(i+1)]))
    return list(map(list, draw(st.sampled_from(ref.all_hnfs(n)))))


@st.composite
def big_hnfs(draw, nmax):
    """Larger cells, many of them with a quotient group that is not cyclic."""
    m = draw(st.sampled_from([x for x in (1, 1, 2, 2, 2, 3, 4) if x**3 <= nmax] or [1]))
    H = draw(hnfs(max(1, nmax//m**3)))
    return [[m*x for x in r] for r in H]


@st.composite
def compositions(draw, total, kmin=1, kmax=4, zeros=False):
    """k counts that add up to total."""
    top = max(kmin, min(kmax, total if not zeros else kmax))
    ks = [k for k in range(kmin, top+1) for _ in range(1 if k == 1 else 3)]
    k = draw(st.sampled_from(ks))
    if zeros:
        k = max(k, min(2, kmax))
        cuts = sorted(draw(st.integers(0, total)) for _ in range(k-1))
    else:
        k = min(k, total)
        cuts = sorted(draw(st.sets(st.integers(1, total-1), min_size=k-1, max_size=k-1))) if k > 1 else []
    return [b-a for a, b in zip([0]+cuts, cuts+[total])]


@st.composite
def perm_groups(draw, nmin=1, nmax=8, arrows=False, max_order=400):
    """A permutation group on up to nmax points (each operation paired with a
    permutation of the six arrow directions), closed by construction."""
    n = draw(st.integers(nmin, nmax))
    ngen = draw(st.integers(0, 3))
    gens = []
    for _ in range(ngen):
        p = tuple(draw(st.permutations(range(n))))
        ax = tuple(draw(st.sampled_from(AXPERMS))) if arrows else tuple(range(6))
        gens.append((p, ax))
    ident = (tuple(range(n)), tuple(range(6)))
    els = {ident: None}
    todo = [ident]
    ok = []
    for g in gens:
        trial = close(ok+[g], n, max_order)
        if trial is not None:
            ok.append(g)
    els = close(ok, n, max_order)
    els = [ident] + sorted(e for e in els if e != ident)
    return {"n": n, "group": [[list(p), list(a)] for p, a in els]}


def close(gens, n, limit):
    ident = (tuple(range(n)), tuple(range(6)))
    seen = {ident}
    todo = [ident]
    while todo:
        p, a = todo.pop()
        for q, b in gens:
            r = (tuple(p[i] for i in q), tuple(a[i] for i in b))
            if r not in seen:
                seen.add(r)
                if len(seen) > limit:
                    return None
                todo.append(r)
    return seen


AXPERMS = []
for _M in SIGNED:
    AXPERMS.append(list(ref.axis_perm_of(np.array(_M))))
