"""Supercell shapes: complete and irredundant."""
from hypothesis import strategies as st

import gen
import ref
from harness import Sub, check, cut

PROPERTY = "C01"
RULE = ("Random crystals (18 Bravais families, skewed / rotated / scaled cells, 1-5 sites) and an index n; "
        "the shapes returned are compared with the orbits of all the sublattices of index n under the exact "
        "space group. Non-trivial: n > 1 and some symmetry class holds more than one sublattice.")


def shapes_case():
    return st.fixed_dictionaries({"crystal": gen.crystals(), "n": st.integers(1, 8)})


def run_shapes(case, rec):
    from phenum.HNFs import get_HNFs
    c = gen.crystal(case["crystal"])
    n = case["n"]
    A, b = gen.lat_args(c)
    got = cut(get_HNFs, n, A, b, 3)
    valid = set(ref.all_hnfs(n))
    got = [tuple(tuple(int(x) for x in r) for r in h) for h in got]
    for h in got:
        check(h in valid, "%s is not a Hermite normal form of index %d", h, n)
    orbits = ref.lattice_orbits(sorted(valid), c.rotations())
    owner = {h: i for i, o in enumerate(orbits) for h in o}
    hits = [owner[h] for h in got]
    check(len(set(hits)) == len(hits), "two of the shapes returned are equivalent: %s", got)
    check(len(hits) == len(orbits), "%d of the %d inequivalent shapes are missing: %s",
          len(orbits)-len(hits), len(orbits),
          [sorted(o)[0] for i, o in enumerate(orbits) if i not in hits][:3])
    rec.nontrivial(n > 1 and any(len(o) > 1 for o in orbits))
    rec.tag("rotations=%d" % len(c.rotations()))
    rec.tag("sites=%d" % len(c.basis))


def run_all(case, rec):
    from phenum.HNFs import find_all_HNFs
    n = case["n"]
    got = [tuple(tuple(int(x) for x in r) for r in h) for h in cut(find_all_HNFs, n)]
    check(len(got) == len(set(got)), "a sublattice is listed twice for n=%d", n)
    check(len(got) == ref.n_sublattices(n), "n=%d: %d sublattices listed, there are %d",
          n, len(got), ref.n_sublattices(n))
    valid = set(ref.all_hnfs(n))
    check(set(got) == valid, "n=%d: not the canonical sublattices", n)
    rec.nontrivial(n > 1)


SUBS = [
    Sub("shapes", shapes_case(), run_shapes, 800, 12000),
    Sub("all", st.fixed_dictionaries({"n": st.integers(1, 60)}), run_all, 60, 200),
]
