"""Reading enum.out and selecting structures."""
import os

from hypothesis import strategies as st

import cli
import poscar
import ref
from harness import Sub, casedir, check, cut

PROPERTY = "C16"
RULE = ("Made-up enum.out files (1-12 structures on crystals of 1-4 sites) and a selection (all, one number, a range, "
        "partly or wholly outside of the file); the files written, their names and the composition of each must be "
        "those of the selected structures; all fields of the records read must be those of the file. Non-trivial: "
        "at least three structures and some but not all selected, or all of at least three.")


@st.composite
def cases(draw):
    s = draw(poscar.systems(max_n=4, structures=12, max_basis=4))
    m = len(s["strs"])
    kind = draw(st.sampled_from(["all", "one", "range", "range"]))
    if kind == "all":
        sel = [draw(st.sampled_from(["all", "ALL", "All"]))]
    elif kind == "one":
        sel = [str(draw(st.integers(1, m+1)))]
    else:
        a, b = draw(st.integers(1, m+1)), draw(st.integers(1, m+2))
        sel = [str(min(a, b)), str(max(a, b))]
    return {"s": s, "sel": sel, "out": draw(st.sampled_from(["vasp.{}", "vasp", "s_{}_x", "run2", "v.3", "10-{}.0", "{}"])),
            "input": draw(st.sampled_from(["enum.out", "struct_enum.out"]))}


def run(case, rec):
    from phenum.phenumStr import run as make
    s = case["s"]
    m = len(s["strs"])
    sel = case["sel"]
    if sel[0].lower() == "all":
        want = list(range(1, m+1))
    elif len(sel) == 1:
        want = [int(sel[0])]
    else:
        want = list(range(int(sel[0]), int(sel[1])+1))
    want = [x for x in want if x <= m]
    with casedir():
        c = poscar.write(case["input"], s)
        cut(make, cli.str_args(structures=list(sel), input=case["input"], outfile=case["out"]))
        names = {x: (case["out"].format(x) if "{}" in case["out"] else "%s.%d" % (case["out"], x)) for x in want}
        files = set(os.listdir("."))-{case["input"]}
        check(files == set(names.values()), "structures %s of %d: files %s in place of %s", sel, m, sorted(files),
              sorted(names.values()))
        for x in want:
            p = poscar.parse(names[x])
            t = s["strs"][x-1]
            check(p["counts"] == [t["lab"].count(i) for i in range(s["k"])],
                  "structure %d was written with the counts %s", x, p["counts"])
            check(p["title"].split()[-1] == str(x), "structure %d has the title %s", x, p["title"])
            poscar.same_lattice(c, t["H"], p["slv"])
    rec.nontrivial(m > 2 and len(want) > 0)
    rec.tag("selected=%s" % ("none" if not want else "all" if len(want) == m else "some"))


@st.composite
def record_cases(draw):
    s = draw(poscar.systems(max_n=12, structures=6, max_basis=4))
    m = len(s["strs"])
    return {"s": s, "sel": draw(st.one_of(st.none(), st.lists(st.integers(1, m), min_size=1, unique=True)))}


def run_records(case, rec):
    from phenum.io_utils import read_enum_out
    import numpy as np
    s = case["s"]
    with casedir():
        c = poscar.write("enum.out", s)
        system, data = cut(read_enum_out, {"structures": None if case["sel"] is None else list(case["sel"]),
                                           "input": "enum.out"})
    check(np.allclose(np.array(system["plattice"], float), np.array(c.A).T, rtol=0, atol=1e-8), "bad lattice")
    check(np.allclose(np.array(system["dvecs"], float), c.cart_basis, rtol=0, atol=1e-8), "bad sites")
    check(system["nD"] == len(c.basis) and system["k"] == s["k"] and system["title"] == s["title"]
          and system["bulksurf"] == "bulk" and system["eps"] == 1e-7, "bad system: %s", system)
    want = list(range(1, len(s["strs"])+1)) if case["sel"] is None else sorted(case["sel"])
    check([d["strN"] for d in data] == want, "structures %s were read, not %s", [d["strN"] for d in data], want)
    for d in data:
        t = s["strs"][d["strN"]-1]
        T, S = poscar.snf(t["H"])
        check([d[k] for k in poscar.COUNTS] == poscar.counts(d["strN"]-1) and d["pgOps"] == 7*(d["strN"]-1)+2,
              "the numbers of line %d were read as %s", d["strN"], [d[k] for k in poscar.COUNTS]+[d["pgOps"]])
        num = {k: np.array(d[k]).tolist() for k in ("HNF", "diag", "L")}
        check(num["HNF"] == [list(r) for r in t["H"]] and num["diag"] == list(S) and num["L"] == [list(r) for r in T]
              and d["labeling"] == "".join(map(str, t["lab"])) and d["directions"] == "".join(map(str, t["arr"]))
              and d["n"] == ref.det3(t["H"]), "structure %d was read as %s", d["strN"], d)
    rec.nontrivial(len(s["strs"]) > 1)


SUBS = [Sub("select", cases(), run, 1000, 12000),
        Sub("records", record_cases(), run_records, 1000, 12000)]
