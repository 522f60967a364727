"""Files and arguments of the two command line programs, written and read
independently of the code under test."""
from fractions import Fraction as F
from itertools import product

from hypothesis import strategies as st

import gen
import ref
from harness import check

ENUM_ARGS = {"profile": None, "savedist": False, "verbose": None, "outfile": None, "enum": False,
             "lattice": "lattice.in", "acceptrate": None, "examples": False, "sizes": None, "debug": False,
             "input": None, "polya": False, "super": False, "distribution": None, "seed": None,
             "filter": None, "visualize": False, "shapes": False, "show": False}

STR_ARGS = {"structures": ["all"], "displace": 0.0, "input": "enum.out", "mink": "t", "species": None,
            "species_mapping": None, "outfile": "vasp.{}", "rattle": 0.0, "config": "f",
            "remove_zeros": "f", "examples": False, "verbose": None, "debug": False, "action": "print"}


def enum_args(**kw):
    return dict(ENUM_ARGS, **kw)


def str_args(**kw):
    return dict(STR_ARGS, **kw)


def write_lattice(path, c, sizes, nspecies, ranges=None, arrows=False, fracs=None):
    """lattice.in; ranges: None or [(min, max, denominator)] for each species."""
    L = ["# cell sizes", "%d %d" % tuple(sizes), "bulk"]
    L += [" ".join(repr(float(x)) for x in r) for r in c.A]
    L += ["# species", str(nspecies), str(len(c.basis))]
    L += [" ".join(repr(float(x)) for x in b) for b in c.cart_basis]
    if ranges is None:
        L += ["# concentrations", "F"]
    else:
        L += ["T", "T" if arrows else "F"]
        for i, r in enumerate(ranges):
            L.append("%d %d %d" % tuple(r) + (" %r" % float(F(fracs[i])) if arrows else ""))
    with open(path, "w") as f:
        f.write("\n".join(L)+"\n")


def conc_list(n, nb, nspecies, ranges=None):
    """All the concentrations allowed in a cell of n*nb sites, exactly."""
    N = n*nb
    out = []

    def rec(i, left, acc):
        if i == nspecies-1:
            cand = [left]
        else:
            cand = range(left+1)
        for x in cand:
            if ranges is not None:
                lo, hi, den = ranges[i]
                lo, hi = min(lo, hi), max(lo, hi)
                if not (lo*N <= x*den <= hi*N):
                    continue
            if i == nspecies-1:
                out.append(tuple(acc+[x]))
            else:
                rec(i+1, left-x, acc+[x])
    rec(0, N, [])
    return out


@st.composite
def ranges(draw, nspecies, denmax=6):
    """Concentration ranges, wide enough often enough for something to be allowed."""
    out = []
    for _ in range(nspecies):
        den = draw(st.integers(1, denmax))
        a, b = draw(st.integers(0, den)), draw(st.integers(0, den))
        if draw(st.integers(0, 2)) == 0:
            a, b = 0, den
        out.append([a, b, den])
    return out


def parse_polya(path):
    """(concentrations, {hnf: counts}, row totals, column totals)"""
    with open(path) as f:
        lines = f.read().split("\n")
    check(lines[-1] == "", "%s does not end with a new line", path)
    lines = lines[:-1]
    head = lines[0].split()
    check(head[0] == "#" and head[1] == "HNF" and head[-1] == "Total", "bad heading of %s: %s", path, lines[0])
    concs = [tuple(int(x) for x in h.split(":")) for h in head[2:-1]]
    check(lines[-2].startswith("# --"), "no separator in %s", path)
    rows = {}
    rtot = {}
    for l in lines[1:-2]:
        v = [int(x) for x in l.split()]
        check(len(v) == 7+len(concs), "a row of %d numbers for %d concentrations", len(v), len(concs))
        h = tuple(v[:6])
        check(h not in rows, "%s is listed twice", h)
        rows[h] = v[6:-1]
        rtot[h] = v[-1]
    last = [int(x) for x in lines[-1].split()]
    check(last[:6] == [0]*6 and len(last) == 7+len(concs), "bad totals in %s: %s", path, last)
    return concs, rows, rtot, last[6:]


def parse_enum_out(path):
    """The header and the structures of an enum.out file."""
    with open(path) as f:
        lines = f.read().split("\n")
    check(lines[-1] == "", "%s does not end with a new line", path)
    lines = lines[:-1]
    h = {"title": lines[0], "bulk": lines[1].strip(),
         "lat": [[float(x) for x in l.split()] for l in lines[2:5]], "nD": int(lines[5])}
    nD = h["nD"]
    h["basis"] = [[float(x) for x in l.split()] for l in lines[6:6+nD]]
    h["k"] = int(lines[6+nD].split("-")[0])
    h["sizes"] = [int(x) for x in lines[7+nD].split()]
    # whoever reads the file counts the lines of the header
    check(lines[13+nD].split()[:1] == ["start"], "the headings of the structures are not in line %d but: %s",
          14+nD, lines[13+nD])
    check(lines[10+nD].strip() in ("T", "F"), "restricted or not? %s", lines[10+nD])
    h["restricted"] = lines[10+nD].strip() == "T"
    out = []
    for l in lines[14+nD:]:
        v = l.split()
        check(len(v) == 28, "a structure line of %d fields: %s", len(v), l)
        out.append({"n": int(v[0]), "degen": [int(x) for x in v[1:5]], "idx": int(v[5]), "size": int(v[6]),
                    "pg": int(v[7]), "S": [int(x) for x in v[8:11]], "hnf": tuple(int(x) for x in v[11:17]),
                    "L": tuple(tuple(int(x) for x in v[17+3*i:20+3*i]) for i in range(3)),
                    "lab": v[26], "arr": v[27]})
    return h, out


def line_structure(c, s):
    """A structure line as (supercell, labels, arrows), its numbers checked."""
    H = ref.full_hnf(s["hnf"])
    check(H in set(ref.all_hnfs(s["size"])), "%s is no Hermite normal form of index %d", H, s["size"])
    S, L = s["S"], s["L"]
    check(abs(ref.det3(L)) == 1 and S[0]*S[1]*S[2] == s["size"], "bad transform %s of %s", L, S)
    sc = ref.Supercell(c, H, L, S)
    check(sc.index_ok(), "L and SNF do not belong to the HNF: %s %s %s", L, S, H)
    check(len(s["lab"]) == sc.N and len(s["arr"]) == sc.N, "labelings of %d sites have %d and %d characters",
          sc.N, len(s["lab"]), len(s["arr"]))
    return sc, [int(x) for x in s["lab"]], [int(x)-1 for x in s["arr"]]


class Forms(object):
    """Canonical forms of structures over all the shapes of a crystal: two
    structures get the same form exactly if a symmetry of the crystal maps one
    (as an infinite periodic pattern given on its superlattice) to the other."""
    def __init__(self, c, arrows):
        self.c, self.arrows = c, arrows
        self.cells = {}
        self.home = {}

    def cell(self, H):
        """A representative of the shape, its supercell and operations."""
        if H not in self.home:
            orb = sorted({ref.hnf_of(ref.mm(W, H)) for W in self.c.rotations()})
            for h in orb:
                self.home[h] = orb[0]
        H0 = self.home[H]
        if H0 not in self.cells:
            sc = ref.Supercell(self.c, H0)
            self.cells[H0] = (sc, sc.ops(arrows=self.arrows))
        return H0, self.cells[H0]

    def form(self, sc, labels, arr):
        H0, (sc0, ops) = self.cell(sc.H)
        for W, t, perm, shift in self.c.space_group():
            if ref.hnf_of(ref.mm(W, sc.H)) == H0:
                break
        ax = self.c.axis_perm(W) if self.arrows else None
        nl = [None]*sc.N
        na = [-1]*sc.N
        for d in range(sc.nD):
            for z in sc.reps:
                w = ref.mv(W, z)
                w = tuple(w[i]+shift[d][i] for i in range(3))
                to = sc0.index(perm[d], w)
                fr = sc.index(d, z)
                nl[to] = labels[fr]
                if self.arrows:
                    a = arr[fr]
                    na[to] = a if a < 0 else ax[a]
        check(None not in nl, "the sites of two equivalent shapes do not match")
        return H0, ref.canonical(ops, nl, na if self.arrows else None)
