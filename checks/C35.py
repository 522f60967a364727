"""The same crystal described in another way gives the same numbers."""
from collections import Counter
from fractions import Fraction as F

from hypothesis import strategies as st

import cli
import enumcheck as ec
import gen
import ref
from harness import Sub, casedir, check, cut
from checks.C30 import command

PROPERTY = "C35"
RULE = ("Random crystals, each written to two lattice.in files: as drawn, and with another basis of the lattice, another "
        "origin, the sites in another order and moved by lattice vectors, turned, scaled, and the species in another order. "
        "The tables of -polya (larger cells than a brute force search reaches) must hold the same rows, and -enum must write "
        "as many structures of each size, concentration and number of displaced atoms. Non-trivial: a cell of more than one "
        "site, and a row of more than one arrangement.")


@st.composite
def cases(draw, sites, top):
    arrows = draw(st.integers(0, 2)) == 0
    c = draw(gen.crystals(arrows=arrows, max_basis=4))
    nb = len(c["b"])
    k = draw(st.integers(2, 3)) if top < 8 else draw(st.sampled_from([2, 2, 2, 3]))
    hi = max(1, min(top, sites//nb))
    hi = draw(st.sampled_from([hi, hi, max(1, hi-1), max(1, hi-2)]))
    rng = draw(cli.ranges(k)) if arrows or draw(st.integers(0, 2)) == 0 else None
    fracs = [draw(st.sampled_from(["0", "1", "1/2", "1/3"])) for _ in range(k)] if arrows else ["0"]*k
    return {"crystal": c, "twin": draw(gen.twins(c, arrows)), "sizes": [1 if top < 8 else hi, hi], "k": k, "ranges": rng,
            "arrows": arrows, "fracs": fracs, "order": list(draw(st.permutations(range(k)))), "supers": draw(st.booleans())}


def two(case, words, read):
    """What is read after the command, for both descriptions, the species in the order of the first."""
    c, d = gen.crystal(case["crystal"]), gen.crystal(case["twin"])
    if not c.is_primitive():
        return None
    use = case["arrows"] and c.axes_ok() and any(F(f) for f in case["fracs"])
    k, order = case["k"], case["order"]
    out = []
    for x, o in ((c, list(range(k))), (d, order)):
        fracs = case["fracs"] if use else ["0"]*k
        rng = case["ranges"]
        with casedir():
            cli.write_lattice("lattice.in", x, case["sizes"], k, rng and [rng[i] for i in o], use, [fracs[i] for i in o])
            cut(command, words)
            # species j of the file is species o[j] of the first description
            out.append(read(lambda conc: tuple(conc[o.index(i)] for i in range(k))))
    return out


def run_tables(case, rec):
    lo, hi = case["sizes"]

    def read(back):
        got = {}
        for n in range(lo, hi+1):
            concs, rows, rtot, tot = cli.parse_polya("polya.out.%d" % n)
            names = [back(x) for x in concs]
            got[n] = Counter(tuple(sorted(zip(names, r))) for r in rows.values())
        return got
    got = two(case, ["-polya"], read)
    if got is None:
        return
    for n in range(lo, hi+1):
        a, b = got[0][n], got[1][n]
        check(a == b, "size %d: described in another way the crystal has other rows: %s, and not %s", n,
              [dict(r) for r in list((b-a))[:2]], [dict(r) for r in list((a-b))[:2]])
    rec.nontrivial(hi*len(case["crystal"]["b"]) > 1 and any(v > 1 for r in got[0][hi] for _, v in r))
    rec.tag("sites=%d" % (hi*len(case["crystal"]["b"])))
    rec.tag("arrows=%s" % case["arrows"])


def run_enum(case, rec):
    nb = len(case["crystal"]["b"])
    c = gen.crystal(case["crystal"])
    use = case["arrows"] and c.axes_ok()
    work = 0
    for n in range(1, case["sizes"][1]+1):
        for conc in cli.conc_list(n, nb, case["k"], case["ranges"]):
            na = ec.n_arrows(conc, case["fracs"]) if use else [0]*case["k"]
            work += len(ref.all_hnfs(n))*ref.multinom(ec.split_concs(conc, na)[0])*6**sum(na)
    if work > 6000:
        rec.tag("left out")
        return

    def read(back):
        h, structs = cli.parse_enum_out("enum.out")
        got = Counter()
        for s in structs:
            lab = [int(x) for x in s["lab"]]
            arr = [int(x) for x in s["arr"]]
            got[s["size"], back([lab.count(i) for i in range(case["k"])]),
                back([sum(1 for x, y in zip(lab, arr) if x == i and y) for i in range(case["k"])])] += 1
        return got
    words = ["-enum", "-seed", 1] + (["-super"] if case["supers"] else [])
    got = two(case, words, read)
    if got is None:
        return
    a, b = got
    check(a == b, "described in another way the crystal has other structures: %s, and not %s", dict(b-a), dict(a-b))
    rec.nontrivial(case["sizes"][1]*nb > 1 and any(v > 1 for v in a.values()))
    rec.tag("arrows=%s" % use)
    rec.tag("structures>=%d" % (10**(len(str(sum(a.values())))-1)))


SUBS = [Sub("tables", cases(12, 8), run_tables, 60, 2000), Sub("enum", cases(6, 4), run_enum, 60, 2000)]
