"""A run that samples: lattice.in, distribution, sizes and filter to enum.out."""
import random

from hypothesis import strategies as st

import cli
import enumcheck as ec
import gen
import ref
from harness import Sub, casedir, check, cut

PROPERTY = "C31"
RULE = ("Random lattice.in files (crystal, sizes, species, concentration ranges, displaced fractions) and a number of "
        "structures, with or without -sizes, -filter, -super and a seed, run by -enum -distribution with nothing but "
        "lattice.in there; every structure of enum.out is decoded and compared with the others up to the symmetry of the "
        "crystal, with the limits asked for, the exact counts and the enum.in that was made. Non-trivial: at least two structures and not all.")


@st.composite
def cases(draw):
    arrows = draw(st.integers(0, 3)) == 0
    c = draw(gen.crystals(arrows=arrows, max_basis=3))
    nb = len(c["b"])
    k = draw(st.sampled_from([1, 2, 2, 2, 3]))
    top = max(1, min(5, (4 if arrows else 7)//nb))
    hi = max(draw(st.integers(1, top)), draw(st.integers(1, top)))
    lo = min(draw(st.integers(1, hi)), draw(st.integers(1, hi)))
    rng = draw(cli.ranges(k)) if arrows or draw(st.integers(0, 2)) == 0 else None
    fracs = ["0"]*k
    if arrows:
        fracs[draw(st.integers(0, k-1))] = draw(st.sampled_from(["1", "1/2", "1/3"]))
    sizes = None
    if draw(st.integers(0, 2)) == 0:
        a, b = draw(st.integers(lo, hi)), draw(st.integers(lo, hi))
        sizes = [min(a, b), max(a, b)+1]
    return {"crystal": c, "sizes": [lo, hi], "k": k, "ranges": rng, "arrows": arrows, "fracs": fracs, "only": sizes,
            "filter": draw(st.sampled_from([None, None, "shape", "conc"])),
            "keep": draw(st.lists(st.booleans(), min_size=1, max_size=6)),
            "n": draw(st.one_of(st.integers(2, 9), st.none(), st.integers(1, 60))),
            "supers": draw(st.booleans()), "seed": draw(st.one_of(st.none(), st.integers(0, 10**6))),
            "rnd": draw(st.integers(0, 10**6))}


def run(case, rec):
    from phenum.enumeration import _script_enum
    c = gen.crystal(case["crystal"])
    k = case["k"]
    use = case["arrows"] and c.axes_ok()
    fracs = case["fracs"] if use else ["0"]*k
    lo, hi = case["sizes"]
    forms = cli.Forms(c, use)
    table, rows = {}, []
    keep, i = case["keep"], 0
    chosen = set()
    work = 0
    for n in range(lo, hi+1):
        concs = cli.conc_list(n, len(c.basis), k, case["ranges"])
        for j, conc in enumerate(concs):
            if case["filter"] == "conc" and keep[j % len(keep)]:
                chosen.add(conc)
                rows.append("  %d  %s  1" % (n, " ".join(map(str, conc))))
        for orb in ref.lattice_orbits(ref.all_hnfs(n), c.rotations()):
            i += 1
            if case["filter"] == "shape":
                if not keep[i % len(keep)]:
                    continue
                # whichever of them stands for the class
                rows += ["  %s  1" % " ".join(map(str, ref.hnf6(h))) for h in sorted(orb)]
            if case["only"] and not case["only"][0] <= n < case["only"][1]:
                continue
            H0, (sc, ops) = forms.cell(min(orb))
            for conc in concs:
                if case["filter"] == "conc" and conc not in chosen:
                    continue
                na = ec.n_arrows(conc, fracs)
                sp, arrowed, _ = ec.split_concs(conc, na)
                work += ref.multinom(sp)*6**sum(na)
                table[(H0, conc)] = ref.burnside(ops if any(na) else sc.ops(), sp, arrowed)
    total = sum(table.values())
    if total == 0 or work > 20000:
        return
    m = total if case["n"] is None else min(case["n"], total)
    random.seed(case["rnd"])
    with casedir():
        cli.write_lattice("lattice.in", c, (lo, hi), k, case["ranges"], use, fracs)
        with open("keep", "w") as f:
            f.write("\n".join(["# listed"]+rows)+"\n")
        cut(_script_enum, cli.enum_args(
            enum=True, super=case["supers"], seed=case["seed"], sizes=case["only"],
            distribution=["all", "all" if case["n"] is None else str(case["n"])],
            filter=[case["filter"], "keep"] if case["filter"] else None))
        head, lines = cli.parse_enum_out("enum.out")
        asked = {}
        with open("enum.in") as f:
            for l in f:
                if not l.startswith("#"):
                    v = [int(x) for x in l.split()]
                    asked[(tuple(v[:6]), tuple(v[6:-1]))] = v[-1]
    check(sum(asked.values()) == m, "%d structures were distributed, not %d", sum(asked.values()), m)
    got, per, byrow = {}, {}, {}
    for i, s in enumerate(lines):
        check(s["n"] == i+1, "structure %d is numbered %d", i+1, s["n"])
        sc, lab, arr = cli.line_structure(c, s)
        conc = tuple(lab.count(j) for j in range(k))
        na = ec.n_arrows(conc, fracs)
        check(ec.composition_ok(lab, arr, conc, na), "structure %d has %s displaced", i+1, arr)
        if not case["supers"]:
            check(not ref.is_superperiodic(sc.translations(), lab, arr if use else None),
                  "structure %d is superperiodic", i+1)
        f = forms.form(sc, lab, arr)
        check(f not in got, "structures %s and %d are equivalent", got.get(f), i+1)
        got[f] = i+1
        key = (f[0], conc)
        check(key in table, "structure %d has the shape %s and the concentration %s, which was not asked for", i+1,
              s["hnf"], conc)
        per[key] = per.get(key, 0)+1
        byrow[(s["hnf"], conc)] = byrow.get((s["hnf"], conc), 0)+1
    for key, v in per.items():
        check(v <= table[key], "%d structures of %s, there are %d", v, key, table[key])
    if case["supers"]:
        check(len(lines) == m, "%d structures in place of %d (there are %d)", len(lines), m, total)
        check(byrow == asked, "structures %s for the distribution %s", byrow, asked)
    else:
        for (h, conc), v in asked.items():
            na = ec.n_arrows(conc, fracs)
            H0, (sc, ops) = forms.cell(ref.full_hnf(h))
            exp, _ = ec.expected(sc, ops, list(conc), na, False)
            check(byrow.get((h, conc), 0) == min(v, len(exp)), "%d structures of %s %s, %d were asked for and %d "
                  "are not superperiodic", byrow.get((h, conc), 0), h, conc, v, len(exp))
        check(set(byrow) <= set(asked), "structures of %s were not asked for", sorted(set(byrow)-set(asked))[:3])
    rec.nontrivial(1 < len(lines) < total)
    rec.tag("arrows=%s" % use)
    rec.tag("filter=%s" % case["filter"])
    rec.tag("supers=%s" % case["supers"])
    rec.tag("sizes=%s" % bool(case["only"]))


SUBS = [Sub("sample", cases(), run, 240, 5000)]
