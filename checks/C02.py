"""The symmetry operations found for a crystal are exactly its space group."""
import numpy as np
from hypothesis import strategies as st

import gen
import ref
from harness import Sub, check, cut

PROPERTY = "C02"
RULE = ("Random crystals (18 Bravais families, skewed / rotated / scaled cells, 1-5 sites, one or two kinds of "
        "atoms); the operations returned are compared, as a set, with the space group found in integer "
        "arithmetic from the Gram matrix and rational sites. Non-trivial: the crystal has a symmetry other than "
        "the identity and more than one site, or more than two operations.")


@st.composite
def cases(draw):
    c = draw(gen.crystals())
    types = [draw(st.sampled_from([1, 1, 1, 2])) for _ in c["b"]]
    shift = draw(st.booleans())
    return {"crystal": c, "types": types, "latt": draw(st.integers(0, 4)) == 0,
            "outside": [[draw(st.integers(-1, 1)) for _ in range(3)] if shift else [0, 0, 0]
                        for _ in c["b"]]}


@st.composite
def skewed(draw):
    """Long thin cells, of any size."""
    c = draw(gen.crystals(origin_only=True))
    return {"crystal": draw(gen.twins(c, max_count=60, nops=7, sizes=(None, 1e-3, 0.03, 5.64, 43.0, 1e3)))}


def to_lattice(An, R):
    """The Cartesian operation R as an integer matrix on lattice coordinates."""
    M = np.linalg.inv(An.T) @ np.array(R, float) @ An.T
    W = np.rint(M).astype(int)
    check(np.allclose(M, W, rtol=0, atol=1e-5), "a rotation does not preserve the lattice: %s", R)
    return tuple(tuple(int(x) for x in r) for r in W)


def run_point(case, rec):
    from phenum.symmetry import get_lattice_pointGroup
    c = gen.crystal(case["crystal"])
    A, _ = gen.lat_args(c)
    ops = cut(get_lattice_pointGroup, A)
    An = np.array(c.A)
    got = [to_lattice(An, R) for R in ops]
    check(len(set(got)) == len(got), "an operation of the point group is listed twice")
    exp = set(c.point_group())
    check(set(got) == exp, "the lattice has %d point operations, %d were found, %d of them right",
          len(exp), len(got), len(set(got) & exp))
    rec.nontrivial(len(exp) > 2)
    rec.tag("order=%d" % len(exp))


def run_space(case, rec):
    from phenum.symmetry import get_spaceGroup
    c = gen.crystal(case["crystal"])
    types = case["types"]
    A, b = gen.lat_args(c)
    An = np.array(c.A)
    # the sites may be given in any cell
    lat = [[float(x)+o for x, o in zip(p, out)] for p, out in zip(c.basis, case["outside"])]
    if case["latt"]:
        rots, shifts = cut(get_spaceGroup, A, list(types), lat, 1E-10, True)
    else:
        rots, shifts = cut(get_spaceGroup, A, list(types), (np.array(lat) @ An).tolist(), 1E-10)
    check(len(rots) == len(shifts), "rotations and translations do not pair up")
    exp = [(W, t) for W, t, perm, s in c.space_group()
           if all(types[d] == types[perm[d]] for d in range(len(types)))]
    left = list(exp)
    for R, f in zip(rots, shifts):
        W = to_lattice(An, R)
        t = np.array(f, float) @ np.linalg.inv(An)
        for e in left:
            d = t - np.array([float(x) for x in e[1]])
            if e[0] == W and np.allclose(d, np.rint(d), rtol=0, atol=1e-5):
                left.remove(e)
                break
        else:
            check(False, "%s + %s is no symmetry of the crystal, or is listed twice", W, t.tolist())
    check(not left, "%d of the %d symmetries were not found, e.g. %s", len(left), len(exp),
          left[:1])
    rec.nontrivial(len(exp) > 1 and (len(types) > 1 or len(exp) > 2))
    rec.tag("sites=%d" % len(types))
    rec.tag("kinds=%d" % len(set(types)))


SUBS = [
    Sub("space", cases(), run_space, 700, 12000),
    Sub("skewed", skewed(), run_point, 1200, 20000),
    Sub("point", st.fixed_dictionaries({"crystal": gen.crystals(origin_only=True)}), run_point, 300, 4000),
]
