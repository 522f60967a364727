"""Abstract symmetry groups for the search routines: permutations of sites
paired with permutations of the directions, in the convention of phenum,
new[j] = (species of old[p[j]], a[direction of old[p[j]]])."""
from itertools import product

from hypothesis import strategies as st

import gen
import ref


def act(op, labels, arr):
    """The structure that the operation makes of this one."""
    p, a = op
    return tuple((labels[i], a[arr[i]] if arr[i] >= 0 else -1) for i in p)


@st.composite
def groups(draw, nmin=1, nmax=8, dim=6, max_order=200):
    """{"n", "dim", "group": the translations first, "cells": how many}"""
    n = draw(st.sampled_from([m for m in range(nmin, nmax+1) for _ in range(m)]))
    gens = []
    shifts = draw(st.sampled_from(["none", "cyclic", "blocks", "none"]))
    ident_a = tuple(range(dim))
    if shifts == "cyclic":
        s = draw(st.sampled_from([d for d in range(1, n+1) if n % d == 0]))
        gens.append((tuple((i+s) % n for i in range(n)), ident_a))
    elif shifts == "blocks" and n % 2 == 0:
        gens.append((tuple(range(n//2, n))+tuple(range(n//2)), ident_a))
    for _ in range(draw(st.sampled_from([1, 2, 3, 2, 0]))):
        p = tuple(draw(st.permutations(range(n)))) if draw(st.booleans()) else \
            tuple(draw(st.sampled_from([list(range(n))[::-1], list(range(1, n))+[0] if n > 1 else [0]])))
        if dim == 6 and draw(st.booleans()):
            a = tuple(draw(st.sampled_from(gen.AXPERMS)))
        else:
            a = tuple(draw(st.permutations(range(dim)))) if draw(st.booleans()) else ident_a
        gens.append((p, a))
    ok = []
    els = {(tuple(range(n)), ident_a)}
    for g in gens:
        more = close(ok+[g], n, dim, max_order)
        if more is not None:
            ok.append(g)
            els = more
    ident = (tuple(range(n)), ident_a)
    # those that keep all of the directions are a normal subgroup
    trans = [ident]+sorted(e for e in els if e[1] == ident_a and e != ident)
    rest = sorted(e for e in els if e[1] != ident_a)
    return {"n": n, "dim": dim, "cells": len(trans), "group": [[list(p), list(a)] for p, a in trans+rest]}


def close(gens, n, dim, limit):
    ident = (tuple(range(n)), tuple(range(dim)))
    seen, todo = {ident}, [ident]
    while todo:
        p, a = todo.pop()
        for q, b in gens:
            # first (p, a), then (q, b)
            r = (tuple(p[i] for i in q), tuple(b[i] for i in a))
            if r not in seen:
                seen.add(r)
                if len(seen) > limit:
                    return None
                todo.append(r)
    return seen


def is_super(trans, s):
    """A translation other than the identity keeps the structure [(label, direction)]."""
    return any(p != list(range(len(s))) and all(s[p[j]] == s[j] for j in range(len(s))) for p, a in trans)


def canon(group, s):
    labels, arr = [x[0] for x in s], [x[1] for x in s]
    return min(act(op, labels, arr) for op in group)


def arrow_orbits(group, trans, labels, arrowed, dim):
    """{canonical form: superperiodic} of all the directions on these sites."""
    out, seen = {}, set()
    spots = [i for i, x in enumerate(arrowed) if x]
    for d in product(range(dim), repeat=len(spots)):
        arr = [-1]*len(labels)
        for s, a in zip(spots, d):
            arr[s] = a
        k = tuple(zip(labels, arr))
        if k in seen:
            continue
        orb = {act(op, labels, arr) for op in group}
        seen |= orb
        out[min(orb)] = is_super(trans, k)
    return out


def all_orbits(group, trans, colours, dim):
    """The same for every arrangement of the colours [(label, arrowed, number)]."""
    out, seen = {}, set()
    for lab in ref.multiset_perms([c[2] for c in colours]):
        labels = [colours[x][0] for x in lab]
        spots = [i for i, x in enumerate(lab) if colours[x][1]]
        for d in product(range(dim), repeat=len(spots)):
            arr = [-1]*len(labels)
            for s, a in zip(spots, d):
                arr[s] = a
            k = tuple(zip(labels, arr))
            if k in seen:
                continue
            orb = {act(op, labels, arr) for op in group}
            seen |= orb
            out[min(orb)] = is_super(trans, k)
    return out


def likely(n, p, x, tail=1e-12):
    """Whether x of n, each kept with the probability p, is not a surprise."""
    from math import exp, lgamma, log
    if p >= 1:
        return x == n

    def pmf(i):
        return exp(lgamma(n+1)-lgamma(i+1)-lgamma(n-i+1)+i*log(p)+(n-i)*log(1-p))
    side = range(0, x+1) if x < n*p else range(x, n+1)
    return sum(pmf(i) for i in side) > tail
