"""Independent exact reference model of derivative superstructures.

Nothing here imports the code under test.  Crystals are held in lattice
coordinates with an integer Gram matrix and a rational basis, so symmetry,
equivalence and periodicity are decided in integer arithmetic; floats appear
only in the Cartesian realisation handed to the code under test.

Conventions (those of the files phenum reads and writes): lattice vectors are
the rows of A; a superlattice is generated by the columns of A^T.H with H a
lower triangular integer matrix; site (d, z) of the supercell is labelled by
position d*n + g0*S1*S2 + g1*S2 + g2 of the labelling, g = L.z mod S.
"""
from fractions import Fraction
from functools import lru_cache
from itertools import product, permutations, combinations
from math import floor, gcd, factorial, comb, sqrt

import numpy as np

EYE = ((1, 0, 0), (0, 1, 0), (0, 0, 1))


# ---------------------------------------------------------------- integers
def mm(a, b):
    return tuple(tuple(sum(a[i][k]*b[k][j] for k in range(3)) for j in range(3)) for i in range(3))


def mv(a, v):
    return tuple(sum(a[i][k]*v[k] for k in range(3)) for i in range(3))


def tr(a):
    return tuple(zip(*a))


def det3(m):
    return (m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1])
            - m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0])
            + m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]))


def adj3(m):
    """Adjugate: m . adj(m) = det(m) I."""
    c = [[0]*3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            r = [k for k in range(3) if k != i]
            s = [k for k in range(3) if k != j]
            minor = m[r[0]][s[0]]*m[r[1]][s[1]] - m[r[0]][s[1]]*m[r[1]][s[0]]
            c[j][i] = (-1)**(i+j)*minor
    return tuple(map(tuple, c))


def inv3(m):
    d = det3(m)
    a = adj3(m)
    return tuple(tuple(Fraction(x) / d for x in row) for row in a)


def is_int_mat(m):
    return all(Fraction(x).denominator == 1 for row in m for x in row)


def hnf_of(m):
    """Canonical lower triangular column HNF of a nonsingular integer matrix:
    same column lattice, positive diagonal, 0 <= entries left of a diagonal < it."""
    cols = [list(c) for c in zip(*m)]
    for r in range(3):
        # gcd-reduce entries of row r in columns r..2
        while True:
            nz = [j for j in range(r, 3) if cols[j][r] != 0]
            if len(nz) <= 1:
                break
            p = min(nz, key=lambda j: abs(cols[j][r]))
            for j in nz:
                if j != p:
                    q = cols[j][r] // cols[p][r]
                    cols[j] = [x-q*y for x, y in zip(cols[j], cols[p])]
        p = nz[0]
        cols[r], cols[p] = cols[p], cols[r]
        if cols[r][r] < 0:
            cols[r] = [-x for x in cols[r]]
        for j in range(r):
            q = cols[j][r] // cols[r][r]
            cols[j] = [x-q*y for x, y in zip(cols[j], cols[r])]
    return tuple(map(tuple, zip(*cols)))


def all_hnfs(n):
    """All sublattices of index n (as canonical HNFs), from divisor chains."""
    out = []
    for a in range(1, n+1):
        if n % a:
            continue
        for c in range(1, n//a+1):
            if (n//a) % c:
                continue
            f = n//a//c
            for b, d, e in product(range(c), range(f), range(f)):
                out.append(((a, 0, 0), (b, c, 0), (d, e, f)))
    return out


def sigma(n):
    return sum(d for d in range(1, n+1) if n % d == 0)


def n_sublattices(n):
    """Number of index n sublattices of Z^3: sum over d|n of d*sigma(d)."""
    return sum(d*sigma(d) for d in range(1, n+1) if n % d == 0)


# ---------------------------------------------------------------- crystals
class Crystal(object):
    def __init__(self, A, G, basis, name=""):
        """A: float rows; G: integer Gram matrix proportional to A A^T;
        basis: list of Fraction triples (lattice coordinates)."""
        self.A = [[float(x) for x in r] for r in A]
        self.G = tuple(tuple(int(x) for x in r) for r in G)
        self.basis = [tuple(Fraction(x) for x in b) for b in basis]
        self.name = name
        An = np.array(self.A)
        AA = An @ An.T
        Gn = np.array(self.G, float)
        s = AA[0, 0]/Gn[0, 0]
        assert np.allclose(AA, s*Gn, rtol=1e-9, atol=1e-9*abs(AA).max()), (A, G)
        self._pg = None
        self._sg = None

    @property
    def cart_basis(self):
        An = np.array(self.A)
        return [(np.array([float(x) for x in b]) @ An).tolist() for b in self.basis]

    def describe(self):
        return {"name": self.name, "lat_vecs": self.A,
                "basis": [[str(x) for x in b] for b in self.basis]}

    def point_group(self):
        if self._pg is None:
            self._pg = point_group(self.G)
        return self._pg

    def space_group(self):
        """List of (W, t, perm, shift): x -> W x + t, basis atom d goes to
        atom perm[d] plus integer lattice vector shift[d].  All sites are the
        same kind (any species may sit on any site)."""
        if self._sg is None:
            out = []
            B = self.basis
            for W in self.point_group():
                Wb = [mv(W, b) for b in B]
                for b in B:
                    t = tuple((b[i]-Wb[0][i]) % 1 for i in range(3))
                    perm, shift = [], []
                    for d in range(len(B)):
                        p = tuple(Wb[d][i]+t[i] for i in range(3))
                        for e, c in enumerate(B):
                            if all((p[i]-c[i]).denominator == 1 for i in range(3)):
                                perm.append(e)
                                shift.append(tuple(int(p[i]-c[i]) for i in range(3)))
                                break
                        else:
                            break
                    if len(perm) == len(B):
                        out.append((W, t, tuple(perm), tuple(shift)))
            self._sg = out
        return self._sg

    def is_primitive(self):
        return sum(1 for W, t, p, s in self.space_group() if W == EYE) == 1

    def rotations(self):
        """Distinct rotational parts of the space group."""
        seen = []
        for W, t, p, s in self.space_group():
            if W not in seen:
                seen.append(W)
        return seen

    def axis_perm(self, W):
        """Permutation of (+x,-x,+y,-y,+z,-z) under the Cartesian rotation, or None."""
        An = np.array(self.A).T
        R = An @ np.array(W, float) @ np.linalg.inv(An)
        return axis_perm_of(R)

    def axes_ok(self):
        return all(self.axis_perm(W) is not None for W in self.rotations())


ARROWS = ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1))


def axis_perm_of(R):
    out = []
    for v in ARROWS:
        w = R @ np.array(v, float)
        for j, u in enumerate(ARROWS):
            if np.allclose(w, u, rtol=0, atol=1e-8):
                out.append(j)
                break
        else:
            return None
    return tuple(out)


@lru_cache(maxsize=None)
def point_group(G):
    """All integer W with W^T G W = G."""
    # bound the integer coefficients of vectors as long as the basis vectors
    adj = adj3(G)
    d = det3(G)
    maxlen = max(G[i][i] for i in range(3))
    bounds = [int(floor(sqrt(maxlen*adj[i][i]/float(d))+1e-9)) for i in range(3)]
    vecs = {}
    for v in product(*[range(-b, b+1) for b in bounds]):
        l = sum(v[i]*G[i][j]*v[j] for i in range(3) for j in range(3))
        vecs.setdefault(l, []).append(v)

    def dot(u, v):
        return sum(u[i]*G[i][j]*v[j] for i in range(3) for j in range(3))
    out = []
    for u in vecs.get(G[0][0], []):
        for v in vecs.get(G[1][1], []):
            if dot(u, v) != G[0][1]:
                continue
            for w in vecs.get(G[2][2], []):
                if dot(u, w) == G[0][2] and dot(v, w) == G[1][2]:
                    out.append(tr((u, v, w)))
    out.sort(key=lambda W: (W != EYE, W))
    return tuple(out)


# ---------------------------------------------------------------- superlattices
def maps_lattice(W, H1, H2):
    """Does W carry the lattice H1 Z^3 onto H2 Z^3 (equal index)?"""
    return hnf_of(mm(W, H1)) == hnf_of(H2)


def lattice_orbits(hnfs, rots):
    """Partition canonical HNFs into orbits under the rotations."""
    left = set(hnfs)
    orbits = []
    for h in hnfs:
        if h not in left:
            continue
        orb = {hnf_of(mm(W, h)) for W in rots}
        orbits.append(orb)
        left -= orb
    return orbits


def hnf6(H):
    return (H[0][0], H[1][0], H[1][1], H[2][0], H[2][1], H[2][2])


def full_hnf(h):
    return ((h[0], 0, 0), (h[1], h[2], 0), (h[3], h[4], h[5]))


class Supercell(object):
    """The sites of a supercell, indexed either by an internal canonical index
    or (if L and S are given) by position in phenum's labelling string."""
    def __init__(self, crystal, H, L=None, S=None):
        self.c = crystal
        self.H = tuple(map(tuple, H))
        self.n = abs(det3(self.H))
        self.nD = len(crystal.basis)
        a, b, c, d, e, f = hnf6(self.H)
        self.tri = (a, b, c, d, e, f)
        self.L, self.S = L, S
        self.reps = [(x, y, z) for x in range(a) for y in range(c) for z in range(f)]
        self.N = self.n*self.nD
        self._pos = {}
        for dd in range(self.nD):
            for z in self.reps:
                self._pos[(dd, z)] = self._index(dd, z)

    def reduce(self, z):
        a, b, c, d, e, f = self.tri
        q = z[0]//a
        z = (z[0]-q*a, z[1]-q*b, z[2]-q*d)
        q = z[1]//c
        z = (z[0], z[1]-q*c, z[2]-q*e)
        q = z[2]//f
        return (z[0], z[1], z[2]-q*f)

    def _index(self, d, z):
        if self.L is None:
            a, b, c, dd, e, f = self.tri
            return d*self.n + (z[0]*c + z[1])*f + z[2]
        g = mv(self.L, z)
        S = self.S
        g = [g[i] % S[i] for i in range(3)]
        return d*self.n + (g[0]*S[1] + g[1])*S[2] + g[2]

    def index(self, d, z):
        return self._pos[(d, self.reduce(z))]

    def index_ok(self):
        """The labelling positions are a bijection and respect the superlattice."""
        if sorted(self._pos.values()) != list(range(self.N)):
            return False
        for col in tr(self.H):
            if self._index(0, col) != self._index(0, (0, 0, 0)):
                return False
        return True

    def site_map(self, W, perm, shift, trans=(0, 0, 0)):
        """to[s] = the position site s moves to under x -> W x + t (+ trans)."""
        to = [0]*self.N
        for d in range(self.nD):
            for z in self.reps:
                w = mv(W, z)
                w = tuple(w[i]+shift[d][i]+trans[i] for i in range(3))
                to[self._pos[(d, z)]] = self.index(perm[d], w)
        return tuple(to)

    def fixing_ops(self):
        """Space group operations whose rotation fixes the superlattice."""
        return [op for op in self.c.space_group() if maps_lattice(op[0], self.H, self.H)]

    def ops(self, arrows=False):
        """All symmetry operations of the supercell as (site map, axis perm)."""
        out = []
        for W, t, perm, shift in self.fixing_ops():
            ax = self.c.axis_perm(W) if arrows else None
            for r in self.reps:
                out.append((self.site_map(W, perm, shift, r), ax))
        return out

    def translations(self):
        perm = tuple(range(self.nD))
        shift = ((0, 0, 0),)*self.nD
        return [self.site_map(EYE, perm, shift, r) for r in self.reps]


def apply_op(op, labels, arrows=None):
    """The structure moved by op: what sat at s now sits at op(s), its arrow rotated."""
    to, ax = op
    nl = [None]*len(labels)
    if arrows is None:
        for s, l in enumerate(labels):
            nl[to[s]] = l
        return tuple(nl)
    for s, l in enumerate(labels):
        a = arrows[s]
        nl[to[s]] = (l, a if a < 0 else ax[a])
    return tuple(nl)


def canonical(ops, labels, arrows=None):
    return min(apply_op(o, labels, arrows) for o in ops)


def is_superperiodic(translations, labels, arrows=None):
    """Some non trivial lattice translation of the cell leaves the structure unchanged."""
    idn = tuple(range(len(labels)))
    for to in translations:
        if to == idn:
            continue
        if all(labels[s] == labels[to[s]] and (arrows is None or arrows[s] == arrows[to[s]])
               for s in range(len(labels))):
            return True
    return False


# ---------------------------------------------------------------- counting
def multiset_perms(concs):
    """All labelings with concs[i] sites of label i."""
    n = sum(concs)
    lab = [None]*n

    def rec(i, free):
        if i == len(concs):
            yield tuple(lab)
            return
        for pick in combinations(free, concs[i]):
            for p in pick:
                lab[p] = i
            ps = set(pick)
            for x in rec(i+1, [q for q in free if q not in ps]):
                yield x
    return rec(0, list(range(n)))


def multinom(concs):
    r = factorial(sum(concs))
    for c in concs:
        r //= factorial(c)
    return r


def perm_cycles(p):
    seen = [False]*len(p)
    out = []
    for i in range(len(p)):
        if not seen[i]:
            l, j = 0, i
            while not seen[j]:
                seen[j] = True
                j = p[j]
                l += 1
            out.append(l)
    return out


def fixed_colorings(cycles_w, concs, arrowed):
    """Number of colourings fixed by an operation: cycles_w is a list of
    (cycle length, number of arrow directions fixed by that power of the
    operation); every site of colour i carries an arrow if arrowed[i]."""
    state = {tuple(concs): 1}
    for l, w in cycles_w:
        new = {}
        for left, v in state.items():
            for i in range(len(left)):
                if left[i] >= l:
                    k = left[:i] + (left[i]-l,) + left[i+1:]
                    new[k] = new.get(k, 0) + v*(w if arrowed[i] else 1)
        state = new
    return state.get((0,)*len(concs), 0)


def axis_fixed(ax, l):
    """How many of the axis directions the l-th power of ax leaves in place."""
    c = 0
    for i in range(len(ax)):
        j = i
        for _ in range(l):
            j = ax[j]
        c += (j == i)
    return c


def burnside(ops, concs, arrowed=None):
    """Exact number of orbits of colourings (with arrows on the arrowed colours)."""
    arrowed = arrowed or [False]*len(concs)
    tot = 0
    cache = {}
    for to, ax in ops:
        cyc = perm_cycles(to)
        cw = tuple(sorted((l, axis_fixed(ax, l) if any(arrowed) else 1) for l in cyc))
        if cw not in cache:
            cache[cw] = fixed_colorings(cw, concs, arrowed)
        tot += cache[cw]
    assert tot % len(ops) == 0
    return tot // len(ops)


def orbit_reps(ops, translations, concs, arrowed=None):
    """All orbits by brute force: returns {canonical form: superperiodic?}."""
    arrowed = arrowed or [False]*len(concs)
    any_arrow = any(arrowed)
    seen = set()
    out = {}
    for lab in multiset_perms(concs):
        spots = [s for s in range(len(lab)) if arrowed[lab[s]]]
        for dirs in product(range(6), repeat=len(spots)) if any_arrow else [()]:
            arr = None
            key = lab
            if any_arrow:
                arr = [-1]*len(lab)
                for s, a in zip(spots, dirs):
                    arr[s] = a
                key = tuple(zip(lab, arr))
            if key in seen:
                continue
            orb = {apply_op(o, lab, arr) for o in ops}
            seen |= orb
            out[min(orb)] = is_superperiodic(translations, lab, arr)
    return out
