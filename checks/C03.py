"""Smith normal forms."""
from math import gcd

from hypothesis import strategies as st

import ref
from harness import Sub, check, cut

PROPERTY = "C03"
RULE = ("Random lower triangular Hermite normal forms (diagonal entries up to 40, index up to 64000); the three "
        "matrices returned are checked in exact integer arithmetic. Non-trivial: not diagonal with the "
        "divisibility already in place.")


@st.composite
def cases(draw):
    top = draw(st.sampled_from([3, 6, 12, 40]))
    a, c, f = [draw(st.integers(1, top)) for _ in range(3)]
    return {"H": [[a, 0, 0], [draw(st.integers(0, c-1)), c, 0],
                  [draw(st.integers(0, f-1)), draw(st.integers(0, f-1)), f]]}


def ints(m):
    out = []
    for r in m:
        row = []
        for x in r:
            check(float(x) == int(x), "%s is not an integer", x)
            row.append(int(x))
        out.append(tuple(row))
    return tuple(out)


def run(case, rec):
    from phenum.grouptheory import SmithNormalForm
    H = tuple(map(tuple, case["H"]))
    S, L, R = [ints(m) for m in cut(SmithNormalForm, [list(r) for r in H])]
    check(ref.mm(ref.mm(L, H), R) == S, "L.H.R is not S: S=%s L=%s R=%s", S, L, R)
    check(abs(ref.det3(L)) == 1 and abs(ref.det3(R)) == 1, "the transformations are not unimodular")
    check(all(S[i][j] == 0 for i in range(3) for j in range(3) if i != j), "S is not diagonal: %s", S)
    d = [S[i][i] for i in range(3)]
    check(min(d) > 0, "S has entries that are not positive: %s", d)
    check(d[1] % d[0] == 0 and d[2] % d[1] == 0, "an entry of S does not divide the next: %s", d)
    # the invariant factors are determined by the minors of H
    g1 = 0
    for r in H:
        for x in r:
            g1 = gcd(g1, x)
    g2 = 0
    for r in ref.adj3(H):
        for x in r:
            g2 = gcd(g2, x)
    check(d == [g1, g2//g1, ref.det3(H)//g2], "S is not the Smith form of H: %s", d)
    rec.nontrivial(H != S)


SUBS = [Sub("snf", cases(), run, 4000, 60000)]
