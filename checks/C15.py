"""The rows of an enum.in are honoured."""
from fractions import Fraction as F
import os
import random

from hypothesis import strategies as st

import cli
import enumcheck as ec
import gen
import ref
from harness import Sub, casedir, check, cut

PROPERTY = "C15"
RULE = ("Random lattice.in and enum.in files (1-5 rows of a shape, a concentration and a number, in any order, none, more "
        "or fewer structures than there are), run by -enum with and without a seed; each structure of enum.out is "
        "decoded and assigned to its row: the numbers, the validity and inequivalence within a row, the order and "
        "the numbering are judged. Sub long: cells of 100 or more, whose numbers have three digits, read by makeStr as "
        "well. Non-trivial: at least two rows and three structures, with long two structures.")


@st.composite
def cases(draw):
    arrows = draw(st.integers(0, 3)) == 0
    c = draw(gen.crystals(arrows=arrows, max_basis=5))
    nb = len(c["b"])
    k = draw(st.integers(1, 3))
    fracs = ["0"]*k
    if arrows:
        fracs[draw(st.integers(0, k-1))] = draw(st.sampled_from(["1", "1/2", "1/3"]))
    rows, seen = [], set()
    for _ in range(draw(st.integers(1, 5))):
        H = draw(gen.hnfs(max(1, min(5, (4 if arrows else 8)//nb))))
        N = ref.det3(H)*nb
        cuts = sorted(draw(st.integers(0, N)) for _ in range(k-1))
        conc = [b-a for a, b in zip([0]+cuts, cuts+[N])]
        key = (tuple(ref.hnf6(H)), tuple(conc))
        if key in seen:
            continue
        seen.add(key)
        rows.append([list(key[0]), conc, draw(st.one_of(st.integers(0, 4), st.integers(1, 40)))])
    return {"crystal": c, "k": k, "arrows": arrows, "fracs": fracs, "rows": rows, "supers": draw(st.booleans()),
            "seed": draw(st.one_of(st.none(), st.integers(0, 10**6))), "rnd": draw(st.integers(0, 10**6)),
            "comment": draw(st.booleans())}


def run(case, rec):
    from phenum.enumeration import _script_enum
    c = gen.crystal(case["crystal"])
    k = case["k"]
    use = case["arrows"] and c.axes_ok()
    fracs = case["fracs"] if use else ["0"]*k
    cells = {}
    top = max(ref.det3(ref.full_hnf(h)) for h, _, _ in case["rows"])
    work = sum(ref.multinom(ec.split_concs(conc, ec.n_arrows(conc, fracs))[0])*6**sum(ec.n_arrows(conc, fracs))
               for h, conc, m in case["rows"])
    if work > 10000:
        return
    random.seed(case["rnd"])
    with casedir():
        cli.write_lattice("lattice.in", c, (1, top), k, [[0, 1, 1]]*k if use else None, use, fracs)
        with open("my.in", "w") as f:
            if case["comment"]:
                f.write("# HNF   Conc.   Number\n")
            for h, conc, m in case["rows"]:
                f.write("  %s   %s   %d\n" % (" ".join(map(str, h)), " ".join(map(str, conc)), m))
        cut(_script_enum, cli.enum_args(enum=True, super=case["supers"], input="my.in", outfile="my.out",
                                        seed=case["seed"]))
        head, lines = cli.parse_enum_out("my.out")
    found = {}
    last, idx = None, 0
    for i, s in enumerate(lines):
        check(s["n"] == i+1, "structure %d is numbered %d", i+1, s["n"])
        sc, lab, arr = cli.line_structure(c, s)
        idx = idx+1 if s["size"] == last else 1
        check(s["idx"] == idx, "structure %d is number %d of its size, not %d", i+1, idx, s["idx"])
        check(last is None or s["size"] >= last, "structure %d is not in the order of the sizes", i+1)
        last = s["size"]
        key = (s["hnf"], tuple(lab.count(j) for j in range(k)))
        found.setdefault(key, []).append((sc, lab, arr))
    rows = {(tuple(h), tuple(conc)): m for h, conc, m in case["rows"]}
    for key in found:
        check(key in rows, "structures of %s were not asked for", key)
    for (h, conc), m in rows.items():
        got = found.get((h, conc), [])
        na = ec.n_arrows(conc, fracs)
        sc = got[0][0] if got else ref.Supercell(c, ref.full_hnf(h))
        ops = sc.ops(arrows=any(na))
        sp, arrowed, _ = ec.split_concs(conc, na)
        total = ref.burnside(ops, sp, arrowed)
        configs = [[[a, l+1] for a, l in zip(arr, lab)] for _, lab, arr in got]
        ec.judge(sc, ops, configs, list(conc), na, case["supers"])
        if case["supers"] or ec.no_superperiodic(sc, conc, na):
            check(len(got) == min(m, total), "%d structures of %s %s, %d were asked for and there are %d",
                  len(got), h, conc, m, total)
        else:
            exp, nsuper = ec.expected(sc, ops, list(conc), na, False)
            check(len(got) == min(m, len(exp)), "%d structures of %s %s, %d were asked for, there are %d of "
                  "which %d are superperiodic", len(got), h, conc, m, total, nsuper)
    rec.nontrivial(len(rows) > 1 and len(lines) > 2)
    rec.tag("arrows=%s" % use)
    rec.tag("rows=%d" % len(rows))


@st.composite
def long(draw):
    """Cells so large that the numbers of their HNF have three digits."""
    c = draw(gen.crystals(lattices=["tri", "tri", "mon", "monc", "ort", "rho"], max_basis=1))
    n = draw(st.integers(100, 118))
    a = draw(st.sampled_from([x for x in range(1, n+1) if n % x == 0]))
    d = draw(st.sampled_from([x for x in range(1, n//a+1) if n//a % x == 0]))
    f = n//a//d
    if f < 100:
        # at least one of the numbers
        a, d, f = 1, 1, n
    H = [a, draw(st.integers(0, d-1)), d, draw(st.integers(0, f-1)), draw(st.integers(0, f-1)), f]
    k = draw(st.integers(2, 3))
    few = [draw(st.integers(1, 3)) for _ in range(k-1)]
    conc = list(draw(st.permutations(few+[n-sum(few)])))
    if draw(st.booleans()):
        cuts = sorted(draw(st.integers(1, n-1)) for _ in range(k-1))
        conc = [y-x for x, y in zip([0]+cuts, cuts+[n])]
    if ref.multinom(conc) > 100000:
        # known finding C09-1: the species are exchanged unless in this order
        conc = sorted(x for x in conc if x)
    return {"crystal": c, "H": H, "conc": conc, "m": draw(st.integers(1, 4)), "seed": draw(st.integers(0, 10**6))}


def run_long(case, rec):
    from phenum.enumeration import _script_enum
    from phenum.phenumStr import run as make
    c = gen.crystal(case["crystal"])
    conc, k = case["conc"], len(case["conc"])
    h = tuple(case["H"])
    none = [0]*k
    with casedir():
        cli.write_lattice("lattice.in", c, (1, 120), k)
        with open("my.in", "w") as f:
            f.write("%s %s %d\n" % (" ".join(map(str, h)), " ".join(map(str, conc)), case["m"]))
        sc = ref.Supercell(c, ref.full_hnf(h))
        supers = not ec.no_superperiodic(sc, conc, none)
        cut(_script_enum, cli.enum_args(enum=True, super=supers, input="my.in", outfile="my.out", seed=case["seed"]))
        head, lines = cli.parse_enum_out("my.out")
        cut(make, cli.str_args(input="my.out"))
        made = len([x for x in os.listdir(".") if x.startswith("vasp.")])
    got = []
    for i, s in enumerate(lines):
        check(s["n"] == i+1 and s["idx"] == i+1 and s["hnf"] == h, "structure %d: %s", i+1, s)
        sc, lab, arr = cli.line_structure(c, s)
        check(set(arr) == {-1}, "structure %d has arrows", i+1)
        got.append((sc, [[-1, l+1] for l in lab]))
    ops = got[0][0].ops() if got else sc.ops()
    total = ref.burnside(ops, conc, [])
    check(len(got) == min(case["m"], total), "%d structures, %d were asked for and there are %d", len(got), case["m"],
          total)
    check(made == len(got), "%d POSCARs of %d structures", made, len(got))
    ec.judge(got[0][0], ops, [x for _, x in got], conc, none, supers)
    rec.nontrivial(len(got) > 1)
    rec.tag("sites=%d" % sc.N)


SUBS = [Sub("long", long(), run_long, 10, 300), Sub("rows", cases(), run, 500, 8000)]
