"""Displaced atoms in the POSCAR."""
import random

import numpy as np
from hypothesis import strategies as st

import cli
import gen
import poscar
import ref
from harness import Sub, casedir, check, cut

PROPERTY = "C18"
RULE = ("Made-up enum.out files with displacement directions on the sites, a displacement and a rattle: each atom of "
        "the POSCAR must sit at its own site plus the displacement along its own Cartesian direction (any displacement "
        "without rattle, by comparison of the whole set of positions; small ones with rattle, within the bounds, and "
        "drawn anew for each atom from the whole range). "
        "Non-trivial: displaced atoms of at least two directions, or displaced and undisplaced ones.")


@st.composite
def cases(draw):
    s = draw(poscar.systems(max_n=draw(st.sampled_from([4, 8, 16])), structures=2))
    rattle = draw(st.sampled_from([0, 0, 0.1, 0.25, 0.5, 1.0]))
    disp = draw(st.sampled_from([0.02, 0.05, -0.03] if rattle else [0.5, 0.3, 1.0, 0.125, 2.5, 0.05, -0.25]))
    sp = draw(poscar.elements(s["k"])) if draw(st.booleans()) else None
    return {"s": s, "mink": draw(st.sampled_from("tf")), "disp": disp, "rattle": rattle, "species": sp,
            "seed": draw(st.integers(0, 10**6))}


def often(case, disp=0.04):
    """The same structures again and again, for enough random numbers."""
    strs = case["s"]["strs"]
    while len(strs) < 60 and sum(sum(a != 0 for a in t["arr"]) for t in strs) < 50:
        strs = strs + case["s"]["strs"]
    return dict(case, rattle=case["rattle"] or 0.5, disp=disp, s=dict(case["s"], strs=strs))


def scale_of(c):
    """The length of the shortest distance between two sites, about."""
    key = id(c)
    A = np.array(c.A)
    best = 1e9
    P = [np.array([float(x) for x in b]) for b in c.basis]
    R = np.array([[i, j, k] for i in range(-3, 4) for j in range(-3, 4) for k in range(-3, 4)])
    for p in P:
        for q in P:
            d = np.linalg.norm((R + (q-p)) @ A, axis=1)
            d = d[d > 1e-6]
            best = min(best, d.min())
    return best


def lattice_positions(c, slv, pos):
    return pos @ slv @ np.linalg.inv(np.array(c.A))


def reduce_to(H, x):
    """x (parent lattice coordinates) brought into the cell of H, as a rounded key."""
    y = np.linalg.solve(np.array(H, float), x)
    y = y - np.floor(y + 1e-6)
    return y


def run(case, rec):
    from phenum.phenumStr import run as make
    s = case["s"]
    k = s["k"]
    gc = gen.crystal(s["crystal"])
    unit = scale_of(gc)
    # a displacement measured with the distances of the crystal
    disp = case["disp"]*unit
    random.seed(case["seed"])
    with casedir():
        c = poscar.write("enum.out", s)
        cut(make, cli.str_args(mink=case["mink"], displace=disp, rattle=case["rattle"], species=case["species"]))
        got = [poscar.parse("vasp.%d" % (i+1)) for i in range(len(s["strs"]))]
    factors = []
    for i, (t, p) in enumerate(zip(s["strs"], got)):
        sc = poscar.supercell(c, t)
        poscar.same_lattice(c, t["H"], p["slv"])
        counts = [t["lab"].count(j) for j in range(k)]
        check(p["counts"] == counts, "bad counts %s", p["counts"])
        order = [j for j in range(k) for _ in range(counts[j])]
        X = lattice_positions(c, p["slv"], p["pos"])
        factors += check_positions(c, sc, t, X, order, disp, case["rattle"])
        rec.nontrivial(len(set(t["arr"])) > 1)
    check_rattle(factors, case["rattle"], rec)
    rec.tag("mink=%s rattle=%s" % (case["mink"], bool(case["rattle"])))
    rec.tag("far=%s" % (abs(case["disp"]) > 0.4))


def check_rattle(factors, rattle, rec):
    """The displacements are drawn from the whole range, independently: what is judged here happens with a
    probability below 1E-12 when they are."""
    if not factors or not rattle:
        return
    u = [(f-1)/rattle for f, slack in factors]
    e = max(slack for f, slack in factors)/rattle
    n = len(u)
    if (2*e)**n < 1e-12:
        check(max(map(abs, u)) > e, "none of the %d displacements is changed by the rattle", n)
        rec.tag("rattled")
    if n > 1 and (4*e)**(n-1) < 1e-12:
        check(max(u)-min(u) > 2*e, "all of the %d displacements are changed by the same", n)
    if n > 42 and e < 0.1:
        # each holds for half of the draws
        check(min(u) < e and max(u) > -e, "all of the %d displacements are changed the same way", n)
        check(max(map(abs, u)) > 0.5-e, "none of the %d displacements is changed by more than half of the rattle", n)
        rec.tag("many rattled")


def check_positions(c, sc, t, X, order, disp, rattle, tol=2e-4):
    A = np.array(c.A)
    sites = [(d, z) for d in range(sc.nD) for z in sc.reps]
    if not rattle:
        want = []
        for d, z in sites:
            site = sc.index(d, z)
            x = np.array([float(y) for y in c.basis[d]]) + np.array(z, float)
            x = x + np.linalg.solve(A.T, disp*np.array(poscar.DIRS[t["arr"][site]], float))
            want.append((t["lab"][site], x))
        Hf = np.array(t["H"], float)
        left = list(range(len(want)))
        W = np.array([w[1] for w in want])
        for x, j in zip(X, order):
            dl = np.linalg.solve(Hf, (W - x).T).T
            dl = dl - np.rint(dl)
            err = np.linalg.norm((dl @ Hf.T) @ A, axis=1)
            near = [m for m in left if err[m] < tol*max(1.0, np.abs(A).max()) and want[m][0] == j]
            check(near, "no atom of species %d belongs at %s (displaced by %s along the directions %s)", j, x.tolist(),
                  disp, t["arr"])
            left.remove(near[0])
        check(not left, "%d atoms are missing", len(left))
        return []
    seen = set()
    factors = []
    for x, j in zip(X, order):
        best = None
        for d, b in enumerate(c.basis):
            z = x - np.array([float(y) for y in b])
            r = np.rint(z)
            v = (z-r) @ A
            if best is None or np.linalg.norm(v) < best[0]:
                best = (np.linalg.norm(v), d, tuple(int(y) for y in r), v)
        size, d, r, v = best
        site = sc.index(d, r)
        check(site not in seen, "two atoms near the site %d", site)
        seen.add(site)
        check(t["lab"][site] == j, "site %d has an atom of species %d", site, j)
        dr = np.array(poscar.DIRS[t["arr"][site]], float)*disp
        ee = tol*abs(disp) + 1e-6*np.abs(A).max()*max(map(max, t["H"]))
        n2 = float(dr @ dr)
        if n2 == 0:
            check(size < ee, "the undisplaced atom of site %d moved by %s", site, v.tolist())
            continue
        f = float(v @ dr)/n2
        check(np.linalg.norm(v-f*dr) < ee, "the atom of site %d moved by %s, not along %s", site, v.tolist(), dr.tolist())
        slack = ee/abs(disp)
        check(1-rattle-slack <= f <= 1+rattle+slack, "the displacement of site %d is %s times the one asked for",
              site, f)
        factors.append((f, slack))
    return factors


SUBS = [Sub("displace", cases(), run, 2000, 30000),
        Sub("rattle", cases().map(often), run, 60, 1500)]
