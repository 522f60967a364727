"""The polya tables written for a lattice.in."""
from fractions import Fraction as F
import random

from hypothesis import strategies as st

import cli
import enumcheck as ec
import gen
import ref
from harness import Sub, casedir, check, cut

PROPERTY = "C10"
RULE = ("Random lattice.in files (crystal, range of sizes, species, concentration ranges, displaced fractions); the "
        "tables written by -polya are read back and every shape, concentration, count and total compared with exact "
        "Burnside counts. Non-trivial: at least two shapes or concentrations with a count above one.")


@st.composite
def cases(draw):
    arrows = draw(st.integers(0, 2)) == 0
    c = draw(gen.crystals(arrows=arrows, max_basis=3))
    nb = len(c["b"])
    k = draw(st.integers(1, 3))
    top = max(1, min(5, 10//nb))
    hi = draw(st.integers(1, top))
    lo = draw(st.integers(1, hi))
    rng = draw(cli.ranges(k)) if arrows or draw(st.booleans()) else None
    fracs = [draw(st.sampled_from(["0", "1", "1/2", "1/3", "3/4"])) for _ in range(k)] if arrows else ["0"]*k
    return {"crystal": c, "sizes": [lo, hi], "k": k, "ranges": rng, "arrows": arrows, "fracs": fracs}


def expected(c, n, k, rng, fracs, use_arrows):
    """{orbit of shapes: {conc: count}}"""
    concs = cli.conc_list(n, len(c.basis), k, rng)
    out = []
    for orb in ref.lattice_orbits(ref.all_hnfs(n), c.rotations()):
        sc = ref.Supercell(c, min(orb))
        ops = sc.ops(arrows=use_arrows)
        row = {}
        for conc in concs:
            na = ec.n_arrows(conc, fracs)
            sp, arrowed, _ = ec.split_concs(conc, na)
            row[conc] = ref.burnside(ops, sp, arrowed)
        out.append((orb, row))
    return concs, out


def run(case, rec):
    from phenum.enumeration import _script_enum
    c = gen.crystal(case["crystal"])
    use = case["arrows"] and c.axes_ok() and any(F(f) for f in case["fracs"])
    fracs = case["fracs"] if use else ["0"]*case["k"]
    lo, hi = case["sizes"]
    with casedir():
        cli.write_lattice("lattice.in", c, (lo, hi), case["k"], case["ranges"], use, fracs)
        cut(_script_enum, cli.enum_args(polya=True))
        big = 0
        for n in range(lo, hi+1):
            concs, rows, rtot, tot = cli.parse_polya("polya.out.%d" % n)
            want_c, want = expected(c, n, case["k"], case["ranges"], fracs, use)
            check(len(set(concs)) == len(concs), "size %d: a concentration is listed twice", n)
            check(set(concs) == set(want_c), "size %d: the concentrations are %s, they should be %s", n,
                  concs[:10], want_c[:10])
            check(len(rows) == len(want), "size %d: %d shapes, there are %d", n, len(rows), len(want))
            for orb, row in want:
                mine = [h for h in rows if ref.full_hnf(h) in orb]
                check(len(mine) == 1, "size %d: %d rows for the shape %s", n, len(mine), min(orb))
                for conc, v in zip(concs, rows[mine[0]]):
                    check(v == row[conc], "size %d, shape %s, concentration %s: %d arrangements, there are %d",
                          n, mine[0], conc, v, row[conc])
                    big += v > 1
                check(rtot[mine[0]] == sum(row.values()), "size %d: the total of %s is %d, not %d", n, mine[0],
                      rtot[mine[0]], sum(row.values()))
            for i, conc in enumerate(concs):
                check(tot[i] == sum(r[conc] for o, r in want), "size %d: the total of %s is %d", n, conc, tot[i])
            check(tot[-1] == sum(sum(r.values()) for o, r in want), "size %d: the grand total is %d", n, tot[-1])
        import os
        extra = [f for f in os.listdir(".") if f.startswith("polya.out.") and
                 not lo <= int(f.split(".")[-1]) <= hi]
        check(not extra, "tables for sizes that were not asked for: %s", extra)
    rec.nontrivial(big >= 2 or tot[-1] >= 10**40)
    rec.tag("digits=%d0-%d9" % ((len(str(tot[-1]))//10,)*2))
    rec.tag("arrows=%s" % use)
    rec.tag("restricted=%s" % (case["ranges"] is not None))


@st.composite
def wide_cases(draw):
    """Counts of some fifty digits, and more."""
    c = draw(gen.crystals(lattices=["tri", "ort"], max_basis=1, arrows=True))
    k = draw(st.integers(1, 2))
    nb = draw(st.integers(60, 72)) if k == 1 else draw(st.integers(50, 64))
    r = random.Random(draw(st.integers(0, 2**31)))
    c = dict(c, b=[["%d/97" % x for x in t] for t in zip(*[r.sample(range(97), nb) for _ in range(3)])])
    if k == 1:
        rng = [[1, 1, 1]]
    else:
        x = draw(st.integers(0, nb//3))
        rng = [[x, x+draw(st.integers(0, 5)), nb], [0, nb, nb]]
    return {"crystal": c, "sizes": [1, 1], "k": k, "ranges": rng, "arrows": True, "fracs": ["1"]*k}


SUBS = [Sub("wide", wide_cases(), run, 16, 300, per=2), Sub("table", cases(), run, 300, 5000)]
