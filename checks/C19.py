"""MTP configurations."""
import random

import numpy as np
from hypothesis import strategies as st

import cli
import gen
import poscar
import ref
from harness import Sub, casedir, check, cut
from checks.C18 import check_positions, check_rattle, often, scale_of

PROPERTY = "C19"
RULE = ("Made-up enum.out files written as MTP configurations, with and without species, species mapping, displacement, "
        "rattle "
        "and reduction of the cell, in one or two runs that append to the same file: the cell and positions, in units of the "
        "lattice parameter from Vegard's law, must be those of the structures, in order. Non-trivial: at least two "
        "species present.")


@st.composite
def cases(draw):
    s = draw(poscar.systems(max_n=draw(st.sampled_from([3, 8])), structures=3, kmax=3))
    k = s["k"]
    sp = mp = None
    kind = draw(st.sampled_from(["mapping", "species", "none", "mapping", "species"]))
    if kind != "none":
        sp = draw(poscar.elements(k))
        if kind == "mapping":
            more = draw(st.integers(1, 3))
            sp = draw(poscar.elements(k+more))
            mp = draw(st.permutations(range(k+more)))[:k]
    rattle = draw(st.sampled_from([0, 0, 0.2, 0.9]))
    return {"s": s, "mink": draw(st.sampled_from("tf")), "species": sp, "mapping": mp,
            "disp": draw(st.sampled_from([0.05, 0.1, -0.08] if rattle else [0.0, 0.0, 0.1, 0.5, -0.2])),
            "rattle": rattle,
            "split": draw(st.booleans())}


def parse(path):
    with open(path) as f:
        toks = [l.split() for l in f.read().split("\n")]
    toks = [t for t in toks if t]
    out, i = [], 0
    while i < len(toks):
        check(toks[i] == ["BEGIN_CFG"], "a configuration starts with %s", toks[i])
        check(toks[i+1] == ["Size"], "%s where the size belongs", toks[i+1])
        n = int(toks[i+2][0])
        check(toks[i+3] == ["SuperCell"], "%s where the cell belongs", toks[i+3])
        cell = np.array([[float(x) for x in t] for t in toks[i+4:i+7]])
        check(toks[i+7] == ["AtomData:", "id", "type", "cartes_x", "cartes_y", "cartes_z"], "bad heading %s", toks[i+7])
        rows = toks[i+8:i+8+n]
        check(all(len(r) == 5 for r in rows), "bad atoms %s", rows)
        check([int(r[0]) for r in rows] == list(range(1, n+1)), "the atoms are numbered %s", [r[0] for r in rows])
        i += 8+n
        check(toks[i][:2] == ["Feature", "conf_id"] and len(toks[i]) >= 3, "bad feature %s", toks[i])
        check(toks[i+1] == ["END_CFG"], "%s ends a configuration", toks[i+1])
        out.append({"cell": cell, "types": [int(r[1]) for r in rows],
                    "pos": np.array([[float(x) for x in r[2:]] for r in rows]), "id": toks[i][-1]})
        i += 2
    return out


def vegard(c, counts, species):
    if species is None:
        return 1.0
    vol = abs(np.linalg.det(np.array(c.A)))/len(c.basis)
    return sum(x*(poscar.VOLUME[e]/vol)**(1/3.) for x, e in zip(counts, species))/sum(counts)


def run(case, rec):
    from phenum.phenumStr import run as make
    s, sp, mp = case["s"], case["species"], case["mapping"]
    k = s["k"]
    m = len(s["strs"])
    random.seed(1)
    # with a rattle the sites are found as the nearest ones: the displacement is measured with the distances
    disp = case["disp"]*(scale_of(gen.crystal(s["crystal"])) if case["rattle"] else 1)
    with casedir():
        c = poscar.write("enum.out", s)

        def go(sel):
            cut(make, cli.str_args(structures=sel, mink=case["mink"], species=sp and list(sp), config="t",
                                   species_mapping=mp and list(mp), displace=disp, rattle=case["rattle"],
                                   outfile="my.cfg"))
        if case["split"] and m > 1:
            go(["1"])
            go(["2", str(m)])
        else:
            go(["all"])
        got = parse("my.cfg")
    check(len(got) == m, "%d configurations for %d structures", len(got), m)
    els = sp if mp is None or sp is None else [sp[i] for i in mp]
    factors = []
    for i, (t, p) in enumerate(zip(s["strs"], got)):
        sc = poscar.supercell(c, t)
        counts = [t["lab"].count(j) for j in range(k)]
        a = vegard(c, counts, els)
        check(p["id"].split("_")[-1] == str(i+1), "structure %d is called %s", i+1, p["id"])
        poscar.same_lattice(c, t["H"], p["cell"]/a, tol=1e-4)
        if case["mink"] == "f":
            want = (np.array(c.A).T @ np.array(t["H"], float)).T*a
            check(np.allclose(p["cell"], want, rtol=0, atol=2e-6), "the cell was changed: %s", p["cell"].tolist())
        else:
            check(np.linalg.det(p["cell"]) > 0, "the reduced cell is left handed")
        back = list(range(k)) if mp is None else list(mp)
        check(set(p["types"]) <= set(back), "types %s of the mapping %s", p["types"], back)
        order = [back.index(x) for x in p["types"]]
        check([order.count(j) for j in range(k)] == counts, "the types %s do not have the counts %s", p["types"], counts)
        X = p["pos"]/a @ np.linalg.inv(np.array(c.A))
        factors += check_positions(c, sc, t, X, order, disp, case["rattle"], tol=3e-4)
        rec.nontrivial(len([x for x in counts if x]) > 1)
    check_rattle(factors, case["rattle"], rec)
    rec.tag("species=%s mapping=%s" % (sp is not None, mp is not None))
    rec.tag("displaced=%s" % bool(case["disp"]))


SUBS = [Sub("config", cases(), run, 1500, 20000),
        Sub("rattle", cases().map(lambda x: often(x, 0.08)), run, 60, 1500)]
