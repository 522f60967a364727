"""Directions on the sites of one labeling."""
import random

from hypothesis import strategies as st

import groups
from harness import Sub, check, cut

PROPERTY = "C25"
RULE = ("Random groups of site permutations paired with permutations of the directions (2, 3, 4 or 6 of them), with and "
        "without operations that keep all directions (taken as the translations), a labeling of up to 8 sites with "
        "displaced ones, and the operations that keep it: the directions found in turn or at random must be one for each "
        "class under these operations; with a rate of acceptance, that share of them. Non-trivial: at least two operations and two displaced atoms.")


@st.composite
def cases(draw):
    dim = draw(st.sampled_from([6, 6, 6, 2, 3, 4]))
    g = draw(groups.groups(nmax=8, dim=dim, max_order=60))
    n = g["n"]
    k = draw(st.integers(1, 3))
    # labels that are alike along the orbits of some of the operations
    ops = draw(st.lists(st.sampled_from(g["group"]), min_size=1, max_size=2))
    root = list(range(n))
    for p, a in ops:
        for i in range(n):
            x, y = root[i], root[p[i]]
            root = [min(x, y) if z in (x, y) else z for z in root]
    kind = {r: (draw(st.integers(1, k)), draw(st.booleans())) for r in sorted(set(root))}
    col = [[1 if kind[r][1] else -1, kind[r][0]] for r in root]
    if all(c[0] < 0 for c in col):
        r = draw(st.sampled_from(root))
        for i, x in enumerate(root):
            if x == r:
                col[i][0] = 1
    top = {6: 4, 4: 5, 3: 6, 2: 8}[dim]
    left = top
    for c in col:
        if c[0] == 1:
            left -= 1
            if left < 0:
                c[0] = -1
    return {"g": g, "col": col, "supers": draw(st.booleans()), "small": draw(st.booleans()),
            "want": draw(st.one_of(st.none(), st.integers(1, 60))), "seed": draw(st.integers(0, 10**6))}


def run(case, rec):
    from phenum.phonons import add_arrows
    g, col = case["g"], case["col"]
    labels, arrowed = [c[1] for c in col], [c[0] >= 0 for c in col]
    if not any(arrowed):
        return
    n = g["n"]
    fixed = [op for op in g["group"] if all(col[op[0][j]] == col[j] for j in range(n))]
    trans = g["group"][:g["cells"]]
    exp = groups.arrow_orbits(fixed, trans, labels, arrowed, g["dim"])
    keep = {k for k, s in exp.items() if case["supers"] or not s}
    want = case["want"]
    if case["small"] and want is None:
        want = 10**6
    random.seed(case["seed"])
    got = cut(add_arrows, [list(c) for c in col], [[list(p), list(a)] for p, a in fixed], g["dim"],
              [[list(p), list(a)] for p, a in trans], num_wanted=want, small=case["small"], supers=case["supers"],
              nested=True)
    forms = []
    for s in got:
        check([x[1] for x in s] == labels, "the labeling %s became %s", labels, [x[1] for x in s])
        check([x[0] >= 0 for x in s] == arrowed and all(x[0] < g["dim"] for x in s), "bad directions %s of %s", s, col)
        forms.append(groups.canon(fixed, [(x[1], x[0]) for x in s]))
    check(len(set(forms)) == len(forms), "%d of the %d arrangements are equivalent to another",
          len(forms)-len(set(forms)), len(forms))
    check(set(forms) <= keep, "an arrangement is superperiodic")
    m = len(keep) if want is None else min(want, len(keep))
    check(len(forms) == m, "%d arrangements of the directions, there are %d (%s asked for)", len(forms), len(keep), want)
    rec.nontrivial(len(fixed) > 1 and sum(arrowed) > 1)
    rec.tag("small=%s" % case["small"])
    rec.tag("superperiodic=%s" % (len(keep) < len(exp)))
    rec.tag("dim=%d" % g["dim"])


@st.composite
def share_cases(draw):
    return dict(draw(cases()), small=False, want=None, rate=draw(st.sampled_from([1.0, 0.5, 0.25, 0.75])))


def run_share(case, rec):
    from phenum.phonons import add_arrows
    g, col = case["g"], case["col"]
    labels, arrowed = [c[1] for c in col], [c[0] >= 0 for c in col]
    if not any(arrowed):
        return
    fixed = [op for op in g["group"] if all(col[op[0][j]] == col[j] for j in range(g["n"]))]
    trans = g["group"][:g["cells"]]
    exp = groups.arrow_orbits(fixed, trans, labels, arrowed, g["dim"])
    keep = {k for k, s in exp.items() if case["supers"] or not s}
    random.seed(case["seed"])
    got = cut(add_arrows, [list(c) for c in col], [[list(p), list(a)] for p, a in fixed], g["dim"],
              [[list(p), list(a)] for p, a in trans], case["rate"], supers=case["supers"], nested=True)
    forms = [groups.canon(fixed, [(x[1], x[0]) for x in s]) for s in got]
    check(len(set(forms)) == len(forms), "%d of the %d arrangements are equivalent to another",
          len(forms)-len(set(forms)), len(forms))
    check(set(forms) <= keep, "an arrangement is superperiodic")
    check(groups.likely(len(keep), case["rate"], len(got)), "%d of %d arrangements kept, with the rate %s", len(got),
          len(keep), case["rate"])
    rec.nontrivial(len(keep) > 60)
    rec.tag("rate=%s" % case["rate"])


SUBS = [Sub("arrows", cases(), run, 1500, 25000),
        Sub("share", share_cases(), run_share, 300, 6000)]
