"""enum.out files made up for the structure program, and its output read back."""
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from harness import check

# cubic Angstrom per atom, the values of the original program (lead corrected, see known_findings.json)
VOLUME = {"H": 37.2958, "He": 32.1789, "Li": 21.2543, "Be": 8.49323, "B": 7.24205, "C": 5.68741, "N": 46.6002,
          "O": 22.2802, "F": 17.0258, "Ne": 21.7346, "Na": 23.2596, "Mg": 23.3928, "Al": 16.6075, "Si": 7.8511,
          "P": 9.1459, "S": 17.1672, "Cl": 35.2074, "Ar": 36.3829, "K": 71.5278, "Ca": 43.4353, "Sc": 25.6478,
          "Ti": 18.1565, "V": 13.7718, "Cr": 11.9439, "Mn": 19.3207, "Fe": 11.82, "Co": 11.1838, "Ni": 10.9036,
          "Cu": 11.7615, "Zn": 13.311, "Ga": 18.4496, "Ge": 19.3638, "As": 20.427, "Se": 58.6173, "Br": 33.317,
          "Kr": 46.7873, "Rb": 87.3384, "Sr": 56.1889, "Y": 33.0792, "Zr": 23.8327, "Nb": 17.9685, "Mo": 15.6279,
          "Tc": 14.5458, "Ru": 13.9206, "Rh": 13.718, "Pd": 14.716, "Ag": 17.1045, "Cd": 18.7161, "In": 26.6861,
          "Sn": 29.3238, "Sb": 27.1733, "Te": 62.3227, "I": 24.3807, "Xe": 59.582, "Cs": 110.723, "Ba": 63.253,
          "Hf": 23.1748, "Ta": 18.1323, "W": 15.7772, "Re": 14.8694, "Os": 14.5485, "Ir": 14.1558, "Pt": 15.0591,
          "Au": 16.9793, "Hg": 27.6914, "Tl": 29.2949, "Pb": 30.3218, "Bi": 31.2849}
ELEMENTS = sorted(VOLUME)


def elements(k):
    return st.lists(st.sampled_from(ELEMENTS), min_size=k, max_size=k, unique=True)


TITLE = "Random structure enumeration: 2017-07-19 12:00:00"

DIRS = [(0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]


def snf(H):
    """(L, S): a unimodular L and the Smith form diagonal, L.H.R = diag(S)."""
    A = [list(r) for r in H]
    L = [list(r) for r in ref.EYE]

    def rowop(i, j, q):
        A[i] = [x-q*y for x, y in zip(A[i], A[j])]
        L[i] = [x-q*y for x, y in zip(L[i], L[j])]
    for t in range(3):
        while True:
            nz = [(abs(A[i][j]), i, j) for i in range(t, 3) for j in range(t, 3) if A[i][j]]
            v, i, j = min(nz)
            A[t], A[i] = A[i], A[t]
            L[t], L[i] = L[i], L[t]
            for r in A:
                r[t], r[j] = r[j], r[t]
            for i in range(t+1, 3):
                rowop(i, t, A[i][t]//A[t][t])
            for j in range(t+1, 3):
                q = A[t][j]//A[t][t]
                for r in A:
                    r[j] -= q*r[t]
            if any(A[i][t] for i in range(t+1, 3)) or any(A[t][j] for j in range(t+1, 3)):
                continue
            bad = [(i, j) for i in range(t+1, 3) for j in range(t+1, 3) if A[i][j] % A[t][t]]
            if not bad:
                break
            rowop(t, bad[0][0], -1)
    for i in range(3):
        if A[i][i] < 0:
            A[i] = [-x for x in A[i]]
            L[i] = [-x for x in L[i]]
    return L, [A[i][i] for i in range(3)]


@st.composite
def systems(draw, max_n=12, max_basis=4, structures=3, arrows=True, kmax=4, dense=True):
    """{"crystal", "k", "strs": [{"H", "lab", "arr"}], "outside"}"""
    c = draw(gen.crystals(max_basis=max_basis))
    nb = len(c["b"])
    k = draw(st.integers(1, kmax))
    strs = []
    for _ in range(draw(st.integers(1, structures))):
        H = draw(gen.hnfs(max(1, max_n//nb)))
        N = ref.det3(H)*nb
        lab = [draw(st.integers(0, k-1)) for _ in range(N)]
        arr = [draw(st.integers(0, 6)) for _ in range(N)] if arrows else [0]*N
        strs.append({"H": H, "lab": lab, "arr": arr})
    out = None
    if draw(st.integers(0, 2)) == 0:
        out = [[draw(st.integers(-1, 1)) for _ in range(3)] for _ in range(nb)]
    return {"crystal": c, "k": k, "strs": strs, "outside": out,
            "title": draw(st.sampled_from([TITLE]*4 + ["Full enumeration", "fcc binary: a test", "x"]))}


def given(sysd):
    """The crystal as the header of the file describes it."""
    c = gen.crystal(sysd["crystal"])
    if sysd["outside"]:
        c = ref.Crystal(c.A, c.G, [[x+o for x, o in zip(b, out)] for b, out in zip(c.basis, sysd["outside"])])
    return c


def header(c, k, sizes, title=TITLE, bulk="bulk"):
    L = [title, bulk]
    L += [" "+"       ".join("%.10f" % x for x in r) for r in c.A]
    L.append("    %d" % len(c.basis))
    L += ["  "+"       ".join("%.10f" % x for x in b) for b in c.cart_basis]
    L += [" %d-nary case" % k, "   %d   %d" % tuple(sizes), " 1e-7", "Concentration check:", "    F",
          "full list of labelings (including incomplete labelings) is used ",
          "Equivalency list: 1 #Not used in the random enumeration algorithm ",
          "start   #tot      HNF     Hdegn   labdegn   Totdegn   #size idx    pg    SNF             HNF"
          "                 Left transform                          labeling                 directions"]
    return L


COUNTS = ("strN", "hnfN", "hnf_degen", "lab_degen", "tot_degen", "sizeN")


def counts(i):
    """The numbers a line starts with (all but the first are never used)."""
    return [i+1, 3*i+2, i % 4+3, 5*i+1, 11*i+4, 2*i+1]


def write(path, sysd):
    c = given(sysd)
    ns = [ref.det3(s["H"]) for s in sysd["strs"]]
    L = header(c, sysd["k"], (min(ns), max(ns)), sysd["title"])
    for i, s in enumerate(sysd["strs"]):
        T, S = snf(s["H"])
        nums = counts(i) + [ns[i]] + [7*i+2] + S + list(ref.hnf6(s["H"])) + [x for r in T for x in r]
        L.append(" ".join("%9d" % x for x in nums) + "    %s    %s" % ("".join(map(str, s["lab"])),
                                                                      "".join(map(str, s["arr"]))))
    with open(path, "w") as f:
        f.write("\n".join(L)+"\n")
    return c


def parse(path, tail_ok=False):
    with open(path) as f:
        lines = f.read().split("\n")
    check(lines[-1] == "", "%s does not end with a new line", path)
    lines = lines[:-1]
    check(len(lines) >= 8, "%s has %d lines", path, len(lines))
    p = {"title": lines[0], "scale": lines[1].strip(),
         "slv": np.array([[float(x) for x in l.split()] for l in lines[2:5]]),
         "counts": [int(x) for x in lines[5].split()], "mode": lines[6].strip()}
    check(p["mode"] == "D", "coordinates of kind %s", p["mode"])
    p["pos"] = np.array([[float(x) for x in l.split()] for l in lines[7:]])
    check(p["pos"].shape == (sum(p["counts"]), 3), "%s positions for the counts %s", p["pos"].shape, p["counts"])
    return p


def same_lattice(c, H, slv, tol=2e-5):
    """The rows of slv span the superlattice H of the crystal."""
    A = np.array(c.A)
    want = (A.T @ np.array(H, float)).T            # rows
    U = slv @ np.linalg.inv(want)
    R = np.rint(U)
    check(np.allclose(U, R, rtol=0, atol=tol*10), "the cell %s is not of the superlattice", slv.tolist())
    check(abs(abs(np.linalg.det(R))-1) < 1e-6, "the cell %s spans another lattice", slv.tolist())


def site_of(c, sc, x, tol=1e-4):
    """The labelling position of the atom at x (lattice coordinates), or None."""
    for d, b in enumerate(c.basis):
        z = x - np.array([float(y) for y in b])
        r = np.rint(z)
        if np.allclose(z, r, rtol=0, atol=tol):
            return sc.index(d, tuple(int(i) for i in r))
    return None


def supercell(c, s):
    T, S = snf(s["H"])
    sc = ref.Supercell(c, s["H"], [tuple(r) for r in T], S)
    assert sc.index_ok()
    return sc
