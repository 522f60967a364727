"""The tree search and the random search over any group."""
from fractions import Fraction as F
import random

from hypothesis import strategies as st

import enumcheck as ec
import groups
import ref
from harness import Sub, check, cut

PROPERTY = "C26"
RULE = ("Random groups of site permutations paired with permutations of the six directions, 1-4 species of which some "
        "are (partly) displaced, superperiodic arrangements kept or not: the tree search must return one arrangement of "
        "every class in any case, those numbered in a subset if one is given, and the random search as many "
        "inequivalent ones as it was asked for. With a rate of acceptance no more than asked for may be returned, and their "
        "share must be that rate (any number less probable than 1E-12 is a violation). Non-trivial: at least two operations and more than three classes.")


@st.composite
def cases(draw):
    g = draw(groups.groups(nmin=2, nmax=8, max_order=120))
    n = g["n"]
    k = draw(st.sampled_from([2, 3, 2, 4, 3]))
    cuts = sorted(draw(st.integers(0, n)) for _ in range(k-1))
    concs = [b-a for a, b in zip([0]+cuts, cuts+[n])]
    concs = [x for x in concs if x] or [n]
    fracs = ["0"]*len(concs)
    if draw(st.booleans()):
        fracs = [draw(st.sampled_from(["0", "1", "1/2", "1/3"])) for _ in concs]
    left = 3
    for i, x in enumerate(concs):
        a = int(F(fracs[i])*x)
        if a > left:
            fracs[i] = str(F(left, x))
            a = left
        left -= a
    while ref.multinom(concs)*6**sum(ec.n_arrows(concs, fracs)) > 12000:
        fracs = ["0"]*len(concs)
        if ref.multinom(concs) > 12000:
            concs = [concs[0]+concs[1]]+concs[2:]
    return {"g": g, "concs": concs, "fracs": fracs[:len(concs)], "supers": draw(st.booleans()),
            "want": draw(st.integers(1, 200)), "seed": draw(st.integers(0, 10**6)),
            "pick": draw(st.lists(st.integers(0, 10**5), min_size=1, max_size=6))}


def prepare(case):
    """The arguments of the searches, and the classes by brute force."""
    from phenum.phonons import arrow_concs, how_many_arrows
    g, concs, fracs = case["g"], case["concs"], case["fracs"]
    na = ec.n_arrows(concs, fracs)
    deco = cut(arrow_concs, list(concs), [float(F(f)) for f in fracs])
    sconcs = cut(how_many_arrows, deco)[2]
    group = g["group"]
    trans = group[:g["cells"]]
    colours = []
    for i, (x, a) in enumerate(zip(concs, na)):
        colours += [(i, False, x-a), (i, True, a)]
    exp = groups.all_orbits(group, trans, [c for c in colours if c[2]], 6)
    return na, deco, sconcs, [[list(p), list(a)] for p, a in group], exp


def decode(case, na, configs):
    out = []
    for s in configs:
        lab, arr = [x[1]-1 for x in s], [x[0] for x in s]
        check(ec.composition_ok(lab, arr, case["concs"], na), "%s does not have the concentrations %s (%s displaced)",
              s, case["concs"], na)
        out.append(groups.canon(case["g"]["group"], list(zip(lab, arr))))
    check(len(set(out)) == len(out), "%d of the %d arrangements are equivalent to another", len(out)-len(set(out)),
          len(out))
    return out


def run(case, rec):
    from phenum.tree import brancher
    g = case["g"]
    na, deco, sconcs, agroup, exp = prepare(case)
    if len(sconcs) == 1 and any(na):
        return
    keep = {k for k, s in exp.items() if case["supers"] or not s}
    got = cut(brancher, list(sconcs), agroup, [list(x) for x in deco], 6, case["supers"], g["cells"], len(exp), [])
    full = decode(case, na, got)
    check(set(full) == keep, "%d arrangements found, there are %d (superperiodic ones kept: %s)", len(full), len(keep),
          case["supers"])
    if case["supers"] or len(keep) == len(exp):
        # the members of a subset are those with its numbers
        sub = sorted({1+p % len(exp) for p in case["pick"]})
        if len(sub) < len(exp):
            some = cut(brancher, list(sconcs), agroup, [list(x) for x in deco], 6, case["supers"], g["cells"],
                       len(exp), list(sub))
            check(decode(case, na, some) == [full[i-1] for i in sub], "the subset %s is not made of those members",
                  sub)
            rec.tag("subset")
    rec.nontrivial(len(agroup) > 1 and len(exp) > 3)
    rec.tag("arrows=%s" % any(na))
    rec.tag("superperiodic=%s" % (len(keep) < len(exp)))
    rec.tag("species=%d" % len(sconcs))


def run_random(case, rec):
    from phenum.tree import guess_and_check_brancher
    g = case["g"]
    if not any(ec.n_arrows(case["concs"], case["fracs"])):
        # the labels of the random search follow the sorted concentrations (see C09-1)
        case = dict(case, concs=sorted(case["concs"]))
    na, deco, sconcs, agroup, exp = prepare(case)
    keep = {k for k, s in exp.items() if case["supers"] or not s}
    random.seed(case["seed"])
    got = cut(guess_and_check_brancher, list(sconcs), agroup, [list(x) for x in deco], 6, case["supers"], g["cells"],
              case["want"])
    check(len(got) == min(case["want"], len(keep)), "%d arrangements, %d asked for and there are %d", len(got),
          case["want"], len(keep))
    forms = decode(case, na, got)
    check(set(forms) <= keep, "an arrangement is superperiodic")
    rec.nontrivial(len(agroup) > 1 and len(exp) > 3 and len(got) > 1)
    rec.tag("all=%s" % (len(got) == len(keep)))


@st.composite
def rate_cases(draw):
    return dict(draw(cases()), rate=draw(st.sampled_from([1.0, 1.0, 0.9, 0.5, 0.2])))


def run_rate(case, rec):
    """Structures taken at random while the tree is walked, until there are enough."""
    from phenum.tree import brancher
    g = case["g"]
    na, deco, sconcs, agroup, exp = prepare(case)
    if len(sconcs) == 1 and any(na):
        return
    keep = {k for k, s in exp.items() if case["supers"] or not s}
    want = 1 + case["want"] % (len(exp)+2)
    random.seed(case["seed"])
    got = cut(brancher, list(sconcs), agroup, [list(x) for x in deco], 6, case["supers"], g["cells"],
              len(exp), want, case["rate"])
    forms = decode(case, na, got)
    check(set(forms) <= keep, "an arrangement is superperiodic")
    check(len(got) <= want, "%d arrangements, %d asked for", len(got), want)
    if case["rate"] == 1.0:
        check(len(got) == min(want, len(keep)), "%d arrangements, %d asked for and there are %d", len(got), want,
              len(keep))
    rec.nontrivial(len(agroup) > 1 and len(exp) > 3 and len(got) > 1)
    rec.tag("rate=%s" % case["rate"])
    rec.tag("arrows=%s" % any(na))


@st.composite
def share_cases(draw):
    case = draw(cases())
    if draw(st.integers(0, 2)) and not any(ec.n_arrows(case["concs"], case["fracs"])) and len(case["concs"]) > 1:
        # many of the cases with a displaced atom
        n = case["g"]["n"]
        case = dict(case, concs=[1, n-1] if n > 2 else [1, 1], fracs=["1", "0" if n > 4 else "1/2"])
    return dict(case, rate=draw(st.sampled_from([1.0, 0.5, 0.25, 0.75])))


def run_share(case, rec):
    """How many are kept of a number too large for anyone to want them all."""
    from phenum.tree import brancher
    g = case["g"]
    na, deco, sconcs, agroup, exp = prepare(case)
    if len(sconcs) == 1:
        return
    keep = {k for k, s in exp.items() if case["supers"] or not s}
    random.seed(case["seed"])
    got = cut(brancher, list(sconcs), agroup, [list(x) for x in deco], 6, case["supers"], g["cells"],
              10**7, 10**6, case["rate"])
    forms = decode(case, na, got)
    check(set(forms) <= keep, "an arrangement is superperiodic")
    check(groups.likely(len(keep), case["rate"], len(got)), "%d of %d arrangements kept, with the rate %s", len(got),
          len(keep), case["rate"])
    rec.nontrivial(len(keep) > 60)
    rec.tag("rate=%s" % case["rate"])
    rec.tag("arrows=%s" % any(na))


SUBS = [Sub("tree", cases(), run, 1200, 25000),
        Sub("rate", rate_cases(), run_rate, 600, 12000),
        Sub("share", share_cases(), run_share, 400, 8000),
        Sub("random", cases(), run_random, 600, 12000)]
