"""Helpers shared by the checks on enumerations: decode, judge, count."""
from copy import deepcopy
from math import gcd
from functools import reduce

import gen
import ref
from harness import check, cut


def setup(case):
    """The crystal, its supercell in phenum's labelling, and the params dict."""
    from phenum.grouptheory import SmithNormalForm
    c = gen.crystal(case["crystal"])
    H = case["H"]
    S, L, R = cut(SmithNormalForm, deepcopy(H))
    sc = ref.Supercell(c, H, [[int(x) for x in r] for r in L], [int(S[i][i]) for i in range(3)])
    check(sc.index_ok(), "the labelling positions are not one to one with the sites")
    A, b = gen.lat_args(c)
    params = {"lat_vecs": A, "basis_vecs": b, "nspecies": len(case["concs"]), "bulk": True,
              "sizes": [1, sc.n], "is_crestricted": True, "arrows": True, "concs": []}
    return c, sc, params


def n_arrows(conc, fracs):
    """How many atoms of each species carry an arrow: the whole part of the fraction."""
    from fractions import Fraction
    return [int(Fraction(f)*x) for x, f in zip(conc, fracs)]


def split_concs(concs, narrows):
    """Colours with the displaced atoms of a species as a colour of their own."""
    out, arrowed, key = [], [], []
    for i, (x, a) in enumerate(zip(concs, narrows)):
        out += [x-a, a]
        arrowed += [False, a > 0]
        key += [(i, False), (i, True)]
    return out, arrowed, key


def decode(config):
    """[(arrow, species), ...] of phenum to labels and arrows."""
    return [int(s[1])-1 for s in config], [int(s[0]) for s in config]


def composition_ok(labels, arrows, concs, narrows):
    return (all(labels.count(i) == concs[i] for i in range(len(concs))) and len(labels) == sum(concs)
            and all(sum(1 for l, a in zip(labels, arrows) if l == i and a >= 0) == narrows[i]
                    for i in range(len(concs)))
            and all(-1 <= a <= 5 for a in arrows))


def no_superperiodic(sc, concs, narrows):
    """Enough for no structure of these concentrations to be superperiodic."""
    counts = [x for x in split_concs(concs, narrows)[0] if x]
    return sc.n == 1 or reduce(gcd, counts + [sc.n]) == 1


def forms(sc, ops, arrows):
    """Canonical form of a structure under the operations of the supercell."""
    def form(labels, arr):
        return ref.canonical(ops, labels, arr if arrows else None)
    return form


def expected(sc, ops, concs, narrows, supers):
    """The canonical forms of all the inequivalent structures by brute force."""
    sp, arrowed, key = split_concs(concs, narrows)
    any_arrow = any(narrows)
    from itertools import product
    trans = sc.translations()
    seen, out, nsuper = set(), set(), 0
    for col in ref.multiset_perms(sp):
        labels = tuple(key[x][0] for x in col)
        spots = [s for s in range(len(col)) if key[col[s]][1]]
        for dirs in product(range(6), repeat=len(spots)) if any_arrow else [()]:
            arr = None
            k = labels
            if any_arrow:
                arr = [-1]*len(col)
                for s, a in zip(spots, dirs):
                    arr[s] = a
                k = tuple(zip(labels, arr))
            if k in seen:
                continue
            orb = {ref.apply_op(o, labels, arr) for o in ops}
            seen |= orb
            if ref.is_superperiodic(trans, labels, arr):
                nsuper += 1
                if not supers:
                    continue
            out.add(min(orb))
    return out, nsuper


def judge(sc, ops, configs, concs, narrows, supers, concs_map=None):
    """Every structure valid, none equivalent to another; returns their forms."""
    any_arrow = any(narrows)
    trans = sc.translations()
    got = []
    for cf in configs:
        lab, arr = decode(cf)
        check(len(lab) == sc.N, "a structure of %d sites in place of %d", len(lab), sc.N)
        check(composition_ok(lab, arr, concs, narrows),
              "the structure %s %s does not have the concentrations %s with %s displaced",
              lab, arr, concs, narrows)
        if not supers:
            check(not ref.is_superperiodic(trans, lab, arr if any_arrow else None),
                  "the structure %s %s is superperiodic", lab, arr)
        got.append(ref.canonical(ops, lab, arr if any_arrow else None))
    check(len(got) == len(set(got)), "%d of the %d structures are equivalent to another one",
          len(got)-len(set(got)), len(got))
    return set(got)
