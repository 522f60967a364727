"""Groups from generators, and from a file."""
import random

from hypothesis import strategies as st

import cli
import enumcheck as ec
import gen
import groups
import ref
from harness import Sub, casedir, check, cut

PROPERTY = "C29"
RULE = ("Random generators (permutations of up to 8 sites, paired with permutations of the directions), groups of "
        "translations with rotations that keep them, and the groups of supercells written in the layout of the "
        "rot_perms files (any line length): the group made or read must hold each product exactly once, and the "
        "enumeration with the file must be that with the group. Non-trivial: more than two operations.")


@st.composite
def gen_cases(draw):
    n = draw(st.sampled_from([2, 3, 4, 5, 6, 7, 8]))
    gens = []
    for _ in range(draw(st.sampled_from([2, 1, 3]))):
        p = tuple(draw(st.permutations(range(n))))
        a = tuple(draw(st.sampled_from(gen.AXPERMS))) if draw(st.booleans()) else tuple(range(6))
        if groups.close([tuple(map(tuple, g)) for g in gens]+[(p, a)], n, 6, 150) is not None:
            gens.append([list(p), list(a)])
    if not gens:
        gens = [[list(range(1, n))+[0], list(range(6))]]
    return {"n": n, "gens": gens, "one": draw(st.booleans())}


def as_set(els):
    out = [(tuple(int(x) for x in p), tuple(int(x) for x in a)) for p, a in els]
    check(len(set(out)) == len(out), "%d operations, %d of them different", len(out), len(set(out)))
    return set(out)


def run_gen(case, rec):
    from phenum.grouptheory import a_group_gen
    from phenum.polyaburnside import group as site_group
    n, gens = case["n"], case["gens"]
    # the products in the convention of phenum: (p, a) then (q, b) is p.q, a.b
    want = gen.close([(tuple(p), tuple(a)) for p, a in gens], n, 10**6)
    got = as_set(cut(a_group_gen, [list(range(n))], [[list(p), list(a)] for p, a in gens]))
    check(got == want, "%d operations from the generators %s, there are %d", len(got), gens, len(want))
    ps = [list(p) for p, a in gens]
    sites = {p for p, a in gen.close([(tuple(p), tuple(range(6))) for p in ps], n, 10**6)}
    res = cut(site_group, [[x+1 for x in p] for p in ps] if case["one"] else ps)
    res = [tuple(int(x) for x in p) for p in res]
    check(len(set(res)) == len(res) and set(res) == sites, "%d permutations from the generators %s, there are %d",
          len(res), ps, len(sites))
    rec.nontrivial(len(want) > 2)
    rec.tag("generators=%d" % len(gens))


@st.composite
def cell_cases(draw):
    arrows = draw(st.booleans())
    c = draw(gen.crystals(arrows=arrows, max_basis=3))
    nb = len(c["b"])
    H = draw(gen.hnfs(max(1, min(8, 8//nb))))
    concs = draw(gen.compositions(ref.det3(H)*nb, kmin=2, kmax=3))
    return {"crystal": c, "H": H, "concs": concs, "supers": draw(st.booleans()), "arrows": arrows,
            "width": draw(st.integers(1, 12)), "seed": draw(st.integers(0, 1000))}


def run_cell(case, rec):
    from phenum.grouptheory import a_group
    from phenum.io_utils import read_group
    from phenum.phonons import enum_sys
    c, sc, params = ec.setup(case)
    use = case["arrows"] and c.axes_ok()
    ops = sc.ops(arrows=use)
    trans = sc.translations()
    ops = [(tuple(p), tuple(a or range(6))) for p, a in ops]
    # rotations that represent the group modulo its translations
    left, rots = list(ops), []
    random.Random(case["seed"]).shuffle(left)
    seen = set()
    for p, a in left:
        if (p, a) not in seen:
            rots.append((p, a))
            seen |= {(tuple(p[i] for i in t), a) for t in trans}
    got = as_set(cut(a_group, [list(t) for t in trans], [[list(p), list(a)] for p, a in rots]))
    check(got == set(ops), "%d operations from %d translations and %d rotations, there are %d", len(got), len(trans),
          len(rots), len(ops))
    # the same through a file, the translations first
    plain = sorted({p for p, a in ops}-set(map(tuple, trans)))
    group = [list(t) for t in trans]+[list(p) for p in plain]
    group.sort(key=lambda p: (tuple(p) not in set(map(tuple, trans)), p))
    with casedir():
        with open("group.out", "w") as f:
            f.write("The integer vectors\nin the columns\nof each\npermutation\nlisting\n"
                    "Number of permutations: %4d\n" % len(group))
            for i, p in enumerate(group):
                w = case["width"]
                rows = [p[j:j+w] for j in range(0, len(p), w)]
                f.write("Perm #: %5d Perm: %s\n" % (i+1, "".join("%5d" % (x+1) for x in rows[0])))
                for r in rows[1:]:
                    f.write("".join("%5d" % (x+1) for x in r)+"\n")
        back = cut(read_group, "group.out")
        check([[int(x) for x in p] for p in back] == group, "the group of %d permutations was read as %s", len(group),
              back)
        if ref.multinom(case["concs"]) > 3000:
            return
        sc_ops = [(tuple(p), tuple(range(6))) for p in group]
        exp, _ = ec.expected(sc, sc_ops, case["concs"], [0]*len(case["concs"]), case["supers"])
        total = ref.burnside(sc_ops, case["concs"])
        configs = cut(enum_sys, "group.out", list(case["concs"]), [0]*len(case["concs"]), total,
                      list(ref.hnf6(case["H"])), params, case["supers"])
    got = ec.judge(sc, sc_ops, configs, case["concs"], [0]*len(case["concs"]), case["supers"])
    check(got == exp, "%d structures with the group of the file, there are %d", len(got), len(exp))
    rec.nontrivial(len(ops) > 2)
    rec.tag("arrows=%s" % use)


SUBS = [Sub("generators", gen_cases(), run_gen, 800, 10000),
        Sub("cell", cell_cases(), run_cell, 300, 4000)]
