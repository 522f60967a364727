"""Requests that make no sense are refused."""
import os

from hypothesis import strategies as st

import cli
import gen
import poscar
import tables
from harness import Sub, casedir, check, must_raise

PROPERTY = "C28"
RULE = ("Random valid surroundings (polya tables, lattice.in, enum.out, groups) and a request with one mistake in it "
        "(unknown distribution or filter, missing tables or files, wrong number of arguments, structures that are no "
        "numbers, concentrations that do not add up, matrices without Smith form, a rate above one): it must be "
        "refused with the documented error and leave no output file. Non-trivial: every case.")

WORDS = st.text(alphabet="abcdefghijklmnopqrstuvwxyz_", min_size=1, max_size=8)


@st.composite
def dist_cases(draw):
    t = draw(tables.tables(zero=False))
    ns = [s["n"] for s in t["sizes"]]
    what = draw(st.sampled_from(["kind", "filter", "sizes", "few", "many", "rate"]))
    args = {"distribution": [draw(st.sampled_from(["all", "size", "shape", "conc"])), draw(st.sampled_from(["all", "3"]))]}
    if what == "kind":
        args["distribution"][0] = draw(WORDS.filter(lambda w: w not in ("all", "size", "shape", "conc")))
    elif what == "filter":
        args["filter"] = [draw(WORDS.filter(lambda w: w not in ("shape", "conc"))), "keep.in"]
    elif what == "sizes":
        gone = draw(st.sampled_from([n for n in range(1, 12) if n not in ns]))
        lo = draw(st.integers(1, gone))
        args["sizes"] = [lo, draw(st.integers(gone+1, 13))]
        args["decoys"] = draw(st.booleans())
    elif what == "few":
        args["distribution"] = args["distribution"][:1]
    elif what == "many":
        args["distribution"] += ["3"]
    else:
        args["acceptrate"] = draw(st.sampled_from([1.5, 2.0, 1.0001, 100.0]))
    return {"t": t, "what": what, "args": args, "save": draw(st.booleans())}


def run_dist(case, rec):
    from phenum.enumeration import _script_enum
    with casedir():
        tables.write(case["t"], "polya.out")
        with open("keep.in", "w") as f:
            f.write("# HNF Number\n  %s  3\n" % " ".join(map(str, case["t"]["sizes"][0]["hnfs"][0])))
        if case["args"].get("decoys"):
            # names that only look like that of the missing table
            for n in range(1, 12):
                for name in ("polya.out.%d.old", "my.polya.out.%d", "polya.out.%d00", "polya.out.0%d"):
                    if not os.path.exists(name % n):
                        open(name % n, "w").close()
        before = sorted(os.listdir("."))
        must_raise(ValueError, _script_enum, cli.enum_args(savedist=case["save"], **{k: v for k, v in case["args"].items()
                                                                                     if k != "decoys"}))
        check(sorted(os.listdir(".")) == before, "a refused request left the files %s", sorted(os.listdir(".")))
    rec.nontrivial()
    rec.tag(case["what"])


@st.composite
def str_cases(draw):
    s = draw(poscar.systems(max_n=3, structures=3))
    bad = draw(st.one_of(st.none(), st.lists(WORDS.filter(lambda w: w != "all"), min_size=1, max_size=1),
                         st.lists(st.integers(1, 9).map(str), min_size=3, max_size=5),
                         st.lists(WORDS, min_size=2, max_size=2).filter(lambda w: w[0] != "all"),
                         st.sampled_from([["1.5"], ["1-3"], ["1,2"], ["2", "x"]])))
    return {"s": s, "bad": bad, "args": draw(st.booleans())}


def run_str(case, rec):
    from phenum.phenumStr import run as make
    with casedir():
        poscar.write("enum.out", case["s"])
        before = sorted(os.listdir("."))
        must_raise(ValueError, make, cli.str_args(structures=case["bad"]) if case["args"] or case["bad"] else None)
        check(sorted(os.listdir(".")) == before, "a refused request left the files %s", sorted(os.listdir(".")))
    rec.nontrivial()


@st.composite
def file_cases(draw):
    return {"what": draw(st.sampled_from(["polya", "enum", "str", "lattice"])), "name": draw(WORDS)+".in",
            "dir": draw(st.booleans())}


def run_file(case, rec):
    from phenum.enumeration import _script_enum
    from phenum.phenumStr import run as make
    with casedir():
        what, name = case["what"], case["name"]
        if what == "str":
            must_raise(IOError, make, cli.str_args(input=name))
        elif what == "lattice":
            with open("enum.in", "w") as f:
                f.write("  1 0 1 0 0 1  1 0  1\n")
            must_raise(IOError, _script_enum, cli.enum_args(enum=True, lattice=name))
            os.remove("enum.in")
        else:
            must_raise(IOError, _script_enum, cli.enum_args(lattice=name, **{what: True}))
        check(not os.listdir("."), "a refused request left the files %s", os.listdir("."))
    rec.nontrivial()
    rec.tag(case["what"])


@st.composite
def group_cases(draw):
    g = draw(gen.perm_groups(nmin=1, nmax=8, arrows=True, max_order=60))
    n = g["n"]
    total = draw(st.sampled_from([t for t in range(0, 13) if t != n]))
    k = draw(st.integers(1, 4))
    cuts = sorted(draw(st.integers(0, total)) for _ in range(k-1))
    return {"group": g["group"], "concs": [b-a for a, b in zip([0]+cuts, cuts+[total])],
            "arrows": draw(st.integers(0, k))}


def run_group(case, rec):
    from phenum.polyaburnside import polya
    must_raise(ValueError, polya, list(case["concs"]), [[list(p), list(a)] for p, a in case["group"]],
               arrowings=case["arrows"])
    rec.nontrivial()


@st.composite
def matrix_cases(draw):
    v = [[draw(st.integers(-6, 6)) for _ in range(3)] for _ in range(2)]
    a, b = draw(st.integers(-3, 3)), draw(st.integers(-3, 3))
    flat = draw(st.permutations(v+[[a*x+b*y for x, y in zip(*v)]]))
    H = [[draw(st.integers(1, 6)) if i == j else (draw(st.integers(0, 5)) if j < i else 0) for j in range(3)]
         for i in range(3)]
    i, j = draw(st.integers(0, 2)), draw(st.integers(0, 2))
    return {"flat": flat if draw(st.booleans()) else None, "H": H, "at": [i, j],
            "add": draw(st.sampled_from([0.5, 0.25, 0.1, -0.3]))}


def run_matrix(case, rec):
    from phenum.grouptheory import SmithNormalForm
    if case["flat"] is not None:
        M = [list(r) for r in case["flat"]]
    else:
        M = [[float(x) for x in r] for r in case["H"]]
        i, j = case["at"]
        M[i][j] += case["add"]
    must_raise(ValueError, SmithNormalForm, M)
    rec.nontrivial()
    rec.tag("singular=%s" % (case["flat"] is not None))


SUBS = [Sub("distribution", dist_cases(), run_dist, 600, 6000),
        Sub("structures", str_cases(), run_str, 300, 3000),
        Sub("files", file_cases(), run_file, 100, 800),
        Sub("polya", group_cases(), run_group, 400, 4000),
        Sub("smith", matrix_cases(), run_matrix, 400, 4000)]
