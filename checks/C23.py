"""The numbering of labelings and of displacement directions."""
from itertools import product

from hypothesis import strategies as st

import gen
import ref
from harness import Sub, check, cut

PROPERTY = "C23"
RULE = ("Random concentrations: all the numbers of the mixed radix system (up to 3000, else random ones of them) are "
        "turned into labelings, which must all differ, have the concentrations, and turn back into the same number; "
        "the same for the directions of up to 40 displaced atoms, where the number must be that of the digits. "
        "Non-trivial: at least two species, or three directions.")


@st.composite
def cases(draw):
    n = draw(st.integers(1, 24))
    concs = draw(gen.compositions(n, kmax=5))
    return {"concs": concs, "pick": draw(st.lists(st.integers(0, 10**12), min_size=20, max_size=20))}


def number(lab, concs):
    from phenum.tree import _hash
    """The digits: each colour among the sites left by those before it."""
    out = []
    left = list(lab)
    for i in range(len(concs)):
        out.append(cut(_hash, [1 if x == i+1 else 0 for x in left]))
        left = [x for x in left if x != i+1]
    return out


def run(case, rec):
    from phenum.tree import _invhash, _coefficients
    concs = case["concs"]
    n = sum(concs)
    C = [int(x) for x in cut(_coefficients, list(concs), n)]
    want, left = [], n
    for x in concs:
        want.append(ref.comb(left, x))
        left -= x
    check(C == want, "the radices of %s are %s, not %s", concs, C, want)
    total = ref.multinom(concs)
    if total <= 3000:
        todo = list(product(*[range(x) for x in C]))
    else:
        todo = []
        for p in case["pick"]:
            b = []
            for x in C:
                b.append(p % x)
                p = p // x + p
            todo.append(tuple(b))
        todo = sorted(set(todo))
    seen = set()
    for b in todo:
        lab = [int(x) for x in cut(_invhash, list(b), list(concs), n)]
        check([lab.count(i+1) for i in range(len(concs))] == list(concs) and len(lab) == n,
              "number %s of %s is the labeling %s", b, concs, lab)
        check(tuple(lab) not in seen, "two numbers of %s are the labeling %s", concs, lab)
        seen.add(tuple(lab))
        back = number(lab, concs)
        check([int(x) for x in back] == list(b), "the labeling %s of number %s has the number %s", lab, b, back)
    rec.nontrivial(len(concs) > 1)
    rec.tag("complete=%s" % (total <= 3000))


@st.composite
def arrow_cases(draw):
    m = draw(st.sampled_from([0, 1, 2, 3, 5, 8, 20, 40]))
    dim = draw(st.sampled_from([6, 6, 6, 2, 3]))
    if draw(st.booleans()):
        # few different digits in long runs: numbers close to a power of the base
        a = []
        while len(a) < m:
            a += [draw(st.sampled_from([0, dim-1, dim-1, 1]))]*draw(st.integers(1, m))
        return {"a": a[:m], "dim": dim}
    return {"a": [draw(st.integers(0, dim-1)) for _ in range(m)], "dim": dim}


def run_arrows(case, rec):
    from phenum.phonons import _ahash, _ainvhash
    a, dim = case["a"], case["dim"]
    v = cut(_ahash, list(a), dim)
    check(v == sum(x*dim**i for i, x in enumerate(a)), "the directions %s have the number %s", a, v)
    back = [int(x) for x in cut(_ainvhash, v, len(a), dim)]
    check(back == a, "the number %s of the directions %s turns into %s", v, a, back)
    rec.nontrivial(len(a) > 2)


SUBS = [Sub("labelings", cases(), run, 500, 8000),
        Sub("directions", arrow_cases(), run_arrows, 1000, 10000)]
