"""The same seed gives the same result."""
import contextlib
import os
import random

from hypothesis import strategies as st

import cli
import enumcheck as ec
import gen
import ref
import tables
from harness import Sub, casedir, check, cut
from checks import C15

PROPERTY = "C27"
RULE = ("Random requests with a seed (distributions over made-up polya tables; samples of the structures of an enum.in; "
        "full runs that sample a distribution) are run twice, with the random numbers in another state before and "
        "the files of the directory listed in another order: the files written must be the same, apart from the date in the title. "
        "Non-trivial: some but not all of the structures are asked for.")


def content(path):
    with open(path) as f:
        lines = f.read().split("\n")
    return [l for l in lines if not l.startswith("Random structure enumeration")]


@contextlib.contextmanager
def listing(order):
    """The files of a directory are listed in another order, as on another file system."""
    real = os.listdir

    def other(path="."):
        files = sorted(real(path))
        if order is not None:
            files = [files[i] for i in order if i < len(files)] + files[len(order):]
        return files
    os.listdir = other
    try:
        yield
    finally:
        os.listdir = real


@st.composite
def dist_cases(draw):
    t = draw(tables.tables(zero=False))
    total = sum(sum(map(sum, s["counts"])) for s in t["sizes"])
    return {"t": t, "kind": draw(st.sampled_from(["all", "shape", "conc", "size"])),
            "n": draw(st.integers(1, max(1, total-1))), "seed": draw(st.sampled_from([0, 1, 42]) if draw(st.booleans())
                                                                    else st.integers(0, 10**9)),
            "other": draw(st.integers(1, 10**6)), "order": draw(st.permutations(range(len(t["sizes"]))))}


def run_dist(case, rec):
    from phenum.enumeration import _script_enum
    t = case["t"]
    got = []
    for again in (False, True):
        random.seed(case["other"] if again else 0)
        with casedir():
            tables.write(t, "polya.out")
            with listing(case["order"] if again else None):
                cut(_script_enum, cli.enum_args(distribution=[case["kind"], str(case["n"])], seed=case["seed"],
                                                savedist=case["kind"] != "all"))
            got.append(content("enum.in"))
    check(got[0] == got[1], "two runs with the seed %d differ: %s and %s", case["seed"], got[0][:6], got[1][:6])
    rec.nontrivial(case["n"] < sum(tables.limits(t, "all").values()) and len(tables.limits(t, case["kind"])) > 1)
    rec.tag("over "+case["kind"])


@st.composite
def row_cases(draw):
    case = draw(C15.cases())
    case["seed"] = draw(st.sampled_from([0, 1, 5]) if draw(st.booleans()) else st.integers(0, 10**9))
    case["other"] = draw(st.integers(1, 10**6))
    return case


def run_rows(case, rec):
    from phenum.enumeration import _script_enum
    c = gen.crystal(case["crystal"])
    k = case["k"]
    use = case["arrows"] and c.axes_ok()
    fracs = case["fracs"] if use else ["0"]*k
    if sum(ref.multinom(ec.split_concs(conc, ec.n_arrows(conc, fracs))[0])*6**sum(ec.n_arrows(conc, fracs))
           for h, conc, m in case["rows"]) > 6000:
        return
    got = []
    for again in (False, True):
        random.seed(case["other"] if again else 0)
        with casedir():
            cli.write_lattice("lattice.in", c, (1, 9), k, [[0, 1, 1]]*k if use else None, use, fracs)
            with open("enum.in", "w") as f:
                for h, conc, m in case["rows"]:
                    f.write("  %s   %s   %d\n" % (" ".join(map(str, h)), " ".join(map(str, conc)), m))
            cut(_script_enum, cli.enum_args(enum=True, super=case["supers"], seed=case["seed"]))
            got.append(content("enum.out"))
    check(got[0] == got[1], "two runs with the seed %d differ", case["seed"])
    rec.nontrivial(len(got[0]) > 16)


@st.composite
def full_cases(draw):
    c = draw(gen.crystals(max_basis=2, lattices=["sc", "fcc", "bcc", "hex", "tet"]))
    top = draw(st.integers(2, max(2, 6//len(c["b"]))))
    return {"crystal": c, "sizes": [draw(st.integers(1, top)), top], "n": draw(st.integers(1, 12)),
            "kind": "all", "seed": draw(st.integers(0, 10**6)), "other": draw(st.integers(1, 10**6))}


def run_full(case, rec):
    from phenum.enumeration import _script_enum
    c = gen.crystal(case["crystal"])
    got = []
    for again in (False, True):
        random.seed(case["other"] if again else 0)
        with casedir():
            cli.write_lattice("lattice.in", c, case["sizes"], 2)
            cut(_script_enum, cli.enum_args(enum=True, distribution=["all", str(case["n"])], seed=case["seed"]))
            got.append((content("enum.in"), content("enum.out"),
                        sorted(f for f in os.listdir(".") if f.startswith("polya"))))
    check(got[0] == got[1], "two runs with the seed %d differ", case["seed"])
    rec.nontrivial()


SUBS = [Sub("distribution", dist_cases(), run_dist, 1000, 12000),
        Sub("rows", row_cases(), run_rows, 120, 2500),
        Sub("full", full_cases(), run_full, 48, 1000, per=4)]
