"""Filters on the distributions."""
import random

from hypothesis import strategies as st

import cli
import tables
from harness import Sub, casedir, check, cut

PROPERTY = "C14"
RULE = ("Made-up polya tables and a filter file that lists some of the shapes or of the concentrations (in the form "
        "of the distribution files, comments included, some of them in no table), with or without -sizes, a distribution over any kind and any "
        "number of structures, run through the command; what is written may hold listed shapes or concentrations "
        "only and its numbers must add up to what was asked for or is there. Non-trivial: the filter leaves out "
        "some structures and keeps some.")


@st.composite
def cases(draw):
    t = draw(tables.tables(zero=False))
    ftype = draw(st.sampled_from(["shape", "conc"]))
    if ftype == "shape":
        have = [h for s in t["sizes"] for h in s["hnfs"]]
    else:
        have = []
        for s in t["sizes"]:
            for c in s["concs"]:
                if [s["n"]]+c not in have:
                    have.append([s["n"]]+c)
    keep = draw(st.lists(st.sampled_from(have), min_size=0 if draw(st.integers(0, 30)) == 7 else 1,
                         max_size=max(1, len(have)-1), unique_by=tuple))
    other = [[1, 0, 1, 0, 0, 13]] if ftype == "shape" else [[13] + [0]*(t["k"]-1)+[13*t["nb"]]]
    rows = keep + (other if draw(st.booleans()) else [])
    # the kind of distribution the filter file comes from
    full = draw(st.booleans())
    lines = ["# HNF  Number"] if draw(st.booleans()) else []
    for r in rows:
        if ftype == "shape":
            lines.append("  "+" ".join(map(str, r))+("  "+" ".join(["1"]*t["k"]) if full else "")+"  3")
        else:
            lines.append("  %d  %s  2" % (r[0], " ".join(map(str, r[1:]))))
        if draw(st.integers(0, 5)) == 0:
            lines.append("# a comment 1 2 3")
    total = sum(sum(map(sum, s["counts"])) for s in t["sizes"])
    ns = [s["n"] for s in t["sizes"]]
    only = None
    if draw(st.integers(0, 3)) == 0:
        i = j = draw(st.integers(0, len(ns)-1))
        while j+1 < len(ns) and ns[j+1] == ns[j]+1:
            j += 1
        only = [ns[i], ns[j]+1]
    n = draw(st.one_of(st.none(), st.integers(1, 6), st.integers(1, max(1, total+3))))
    return {"t": t, "ftype": ftype, "keep": keep, "lines": lines, "n": n, "only": only,
            "kind": draw(st.sampled_from(["all", "all", "shape", "conc", "size"])),
            "seed": draw(st.one_of(st.none(), st.integers(0, 10**6)))}


def run(case, rec):
    from phenum.enumeration import _script_enum
    t, kind, n = case["t"], case["kind"], case["n"]
    shapes = concs = None
    if case["ftype"] == "shape":
        shapes = {tuple(h) for h in case["keep"]}
    else:
        concs = {tuple(c[1:]) for c in case["keep"]}
    only = None if case["only"] is None else range(*case["only"])
    lim = tables.limits(t, kind, only, shapes=shapes, concs=concs)
    every = sum(tables.limits(t, kind, only).values())
    total = sum(lim.values())
    random.seed(0)
    with casedir():
        tables.write(t, "polya.out")
        with open("keep.in", "w") as f:
            f.write("\n".join(case["lines"])+"\n")
        cut(_script_enum, cli.enum_args(
            distribution=[kind, "all" if n is None else str(n)], seed=case["seed"],
            filter=[case["ftype"], "keep.in"], sizes=case["only"], savedist=kind != "all"))
        got = tables.read("enum.in", kind, t["k"])
    tables.judge(got, lim, n)
    rec.nontrivial(0 < total < every)
    rec.tag("%s filter, over %s" % (case["ftype"], kind))
    rec.tag("sizes=%s" % bool(case["only"]))
    rec.tag("left=%s" % ("none" if not total else "all" if total == every else "some"))


SUBS = [Sub("filter", cases(), run, 2000, 40000)]
