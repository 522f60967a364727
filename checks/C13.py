"""Distributions of structures over the polya tables."""
import contextlib
import io
import os

from hypothesis import strategies as st

import cli
import tables
from harness import Sub, casedir, check, cut

PROPERTY = "C13"
RULE = ("Made-up polya tables (sizes, shapes, concentrations, counts from zero to 45 digits), a distribution over "
        "size, shape, conc or all, any number of structures or all of them, some sizes, any seed, run through the "
        "command, among files with similar names; the file written and the table printed are read back: the numbers must add up exactly, stay within the counts, follow the "
        "abundances up to rounding. Non-trivial: at least two types and more than one, but not all, structures asked for.")


@st.composite
def cases(draw):
    t = draw(tables.tables())
    kind = draw(st.sampled_from(["all", "all", "shape", "conc", "size"]))
    total = sum(sum(map(sum, s["counts"])) for s in t["sizes"])
    how = draw(st.integers(0, 5))
    if how == 0:
        n = None
    elif how == 1:
        n = draw(st.integers(max(0, total-2), total+5))
    elif how == 2:
        n = draw(st.integers(1, 5))
    else:
        n = draw(st.integers(1, max(1, total)))
    ns = [s["n"] for s in t["sizes"]]
    rng = None
    if draw(st.integers(0, 3)) == 0:
        # a run of sizes that all have a table
        i = draw(st.integers(0, len(ns)-1))
        j = i
        while j+1 < len(ns) and ns[j+1] == ns[j]+1 and draw(st.booleans()):
            j += 1
        rng = [ns[i], ns[j]+1]
    return {"t": t, "kind": kind, "n": n, "sizes": rng, "seed": draw(st.one_of(st.none(), st.integers(0, 10**6))),
            "rnd": draw(st.integers(0, 10**6)),
            "prefix": draw(st.sampled_from(["polya.out", "counts", "p"])), "upper": draw(st.booleans()), "save": draw(st.booleans()),
            "other": draw(st.sampled_from([None]*6 + ["%s.bak", "%s", "x%s.1", "%sx.2", "%s.1~", "my.%s.2", "%s_.3",
                                                      "%s.1.2", "%s3"]))}


def run(case, rec):
    import random
    from phenum.enumeration import _script_enum
    t, kind, n = case["t"], case["kind"], case["n"]
    lim = tables.limits(t, kind, None if case["sizes"] is None else range(*case["sizes"]))
    total = sum(lim.values())
    if total == 0:
        return
    random.seed(case["rnd"])
    text = io.StringIO()

    def command(args):
        with contextlib.redirect_stdout(text):
            _script_enum(args)
    with casedir():
        tables.write(t, case["prefix"])
        if case["other"]:
            with open(case["other"] % case["prefix"], "w") as f:
                f.write("no table of these\n")
        cut(command, cli.enum_args(
            distribution=[kind.upper() if case["upper"] else kind, "all" if n is None else str(n)],
            input=case["prefix"], outfile="my.in", seed=case["seed"], sizes=case["sizes"], savedist=case["save"]))
        saved = os.path.exists("my.in")
        check(saved == (kind == "all" or case["save"]), "the distribution over %s was %ssaved", kind,
              "" if saved else "not ")
        if saved:
            got = tables.read("my.in", kind, t["k"])
    if kind != "all":
        shown = tables.printed(text.getvalue(), kind)
        check(not saved or shown == got, "printed: %s, saved: %s", shown, got if saved else None)
        got = shown
    tables.judge(got, lim, n)
    rec.nontrivial(len([v for v in lim.values() if v]) > 1 and n is not None and 1 < n < total)
    rec.tag("over "+kind)
    rec.tag("number=%s" % ("all" if n is None else "more" if n > total else "some"))
    rec.tag("digits=%d" % (len(str(total))//10*10))


SUBS = [Sub("distribution", cases(), run, 8000, 80000)]
