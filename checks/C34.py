"""What is shown on the screen while the commands run does not change their files."""
import contextlib
import random
import sys
from unittest import mock

from hypothesis import strategies as st

import cli
import enumcheck as ec
import gen
import poscar
import ref
import tables
from harness import Sub, casedir, check, cut
from checks import C09, C15
from checks.C27 import content
from checks.C30 import command

PROPERTY = "C34"
RULE = ("Random requests of all modes of the two programs (rows of an enum.in small and large, with and without displaced "
        "atoms, rates of acceptance and superperiodic structures; distributions; POSCARs and MTP files), run with a seed as they "
        "are, with -debug, and with -verbose, with and without a progress bar module: the files written must be the "
        "same. Non-trivial: at least two structures are written.")


class Bar(object):
    """In place of tqdm; as the real one it takes nothing but these."""
    def __init__(self, iterable=None, desc=None, total=None):
        self.n = 0

    def update(self, n=1):
        self.n += n

    def close(self):
        pass


@contextlib.contextmanager
def shown(kind):
    """The module with the progress bar that the run finds."""
    had, old = "tqdm" in sys.modules, sys.modules.get("tqdm")
    sys.modules["tqdm"] = mock.Mock(tqdm=Bar) if kind == "bar" else None
    try:
        yield
    finally:
        del sys.modules["tqdm"]
        if had:
            sys.modules["tqdm"] = old


WAYS = [("", []), ("bar", ["-verbose"]), ("no bar", ["-verbose"]), ("", ["-debug"])]


def compare(prepare, words, files, what):
    import phenum.msg
    got = []
    for kind, more in WAYS:
        random.seed(1)
        with casedir(), shown(kind):
            prepare()
            try:
                cut(what, words+more)
                got.append([content(f) for f in files])
            finally:
                phenum.msg.verbosity = None
        check(got[-1] == got[0], "%s changes the files of %s%s", more, words, " (no progress bar)" if kind == "no bar" else "")
    return got[0]


@st.composite
def row_cases(draw):
    case = draw(C15.cases())
    rate = draw(st.sampled_from([None, None, 0.5, 1.0, 0.2]))
    return dict(case, seed=draw(st.integers(0, 10**6)), rate=rate)


@st.composite
def large_cases(draw):
    b = draw(st.one_of(C09.plain(), C09.arrows()))
    return {"crystal": b["crystal"], "k": len(b["concs"]), "arrows": any(f != "0" for f in b["fracs"]), "fracs": b["fracs"],
            "rows": [[list(ref.hnf6(b["H"])), b["concs"], 1+b["want"] % 5]], "supers": b["supers"],
            "seed": b["seed"], "rate": draw(st.sampled_from([None, None, 0.5])), "large": True}


def run_rows(case, rec):
    c = gen.crystal(case["crystal"])
    k = case["k"]
    use = case["arrows"] and c.axes_ok()
    fracs = case["fracs"] if use else ["0"]*k
    if "large" not in case and \
            sum(ref.multinom(ec.split_concs(conc, ec.n_arrows(conc, fracs))[0])*6**sum(ec.n_arrows(conc, fracs))
                for h, conc, m in case["rows"]) > 3000:
        return

    def prepare():
        cli.write_lattice("lattice.in", c, (1, 9), k, [[0, 1, 1]]*k if use else None, use, fracs)
        with open("enum.in", "w") as f:
            for h, conc, m in case["rows"]:
                f.write("  %s   %s   %d\n" % (" ".join(map(str, h)), " ".join(map(str, conc)), m))
    words = ["-enum", "-seed", case["seed"]] + (["-super"] if case["supers"] else [])
    if case["rate"] is not None:
        words += ["-acceptrate", case["rate"]]
    got = compare(prepare, words, ["enum.out"], command)
    rec.nontrivial(len(got[0]) > 16)
    rec.tag("arrows=%s" % use)
    rec.tag("rate=%s" % (case["rate"] is not None))


@st.composite
def dist_cases(draw):
    t = draw(tables.tables(zero=False))
    return {"t": t, "kind": draw(st.sampled_from(["all", "shape", "conc", "size"])),
            "n": draw(st.one_of(st.just("all"), st.integers(1, 40).map(str))), "seed": draw(st.integers(0, 10**9))}


def run_dist(case, rec):
    words = ["-distribution", case["kind"], case["n"], "-seed", case["seed"], "-savedist"]
    got = compare(lambda: tables.write(case["t"], "polya.out"), words, ["enum.in"], command)
    rec.nontrivial(len(got[0]) > 2)


def make(words):
    from phenum.phenumStr import _parser_options, run
    with mock.patch.object(sys, "argv", ["makeStr.py"]+[str(w) for w in words]):
        run(_parser_options())


@st.composite
def make_cases(draw):
    s = draw(poscar.systems(max_n=8, structures=3))
    sp = draw(poscar.elements(s["k"])) if draw(st.booleans()) else None
    return {"s": s, "species": sp, "config": draw(st.sampled_from("tf")), "mink": draw(st.sampled_from("tf")),
            "rattle": draw(st.sampled_from([0.0, 0.25])), "disp": draw(st.sampled_from([0.0, 0.1]))}


def run_make(case, rec):
    s = case["s"]
    m = len(s["strs"])
    words = ["all", "-input", "enum.out", "-config", case["config"], "-mink", case["mink"], "-rattle", case["rattle"],
             "-displace", case["disp"]] + (["-species"]+case["species"] if case["species"] else [])
    files = ["vasp.%d" % (i+1) for i in range(m)]
    if case["config"] == "t":
        words += ["-outfile", "x.cfg"]
        files = ["x.cfg"]
    got = compare(lambda: poscar.write("enum.out", s), words, files, make)
    rec.nontrivial(m > 1 and all(got))


SUBS = [Sub("rows", row_cases(), run_rows, 100, 2000),
        Sub("large", large_cases(), run_rows, 24, 400),
        Sub("distribution", dist_cases(), run_dist, 250, 5000),
        Sub("make", make_cases(), run_make, 250, 5000)]
