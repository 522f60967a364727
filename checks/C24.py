"""Factorials, binomial and multinomial coefficients."""
from math import comb, factorial as fact

from hypothesis import strategies as st

import ref
from harness import Sub, check, cut

PROPERTY = "C24"
RULE = ("Random arguments, from zero to results of hundreds of digits, k outside of 0..n included, as Python or numpy "
        "integers: compared with exact integers. Non-trivial: a result above one.")


@st.composite
def cases(draw):
    big = draw(st.sampled_from([12, 60, 300]))
    n = draw(st.integers(0, big))
    return {"n": n, "k": draw(st.integers(-3, n+3)),
            "parts": draw(st.lists(st.integers(0, big//4), min_size=1, max_size=6)), "np": draw(st.booleans())}


def run(case, rec):
    from phenum.numerics import binomial_coefficient, factorial, multinomial
    import numpy as np
    n, k, parts = case["n"], case["k"], case["parts"]
    want = comb(n, k) if 0 <= k <= n else 0
    got = cut(binomial_coefficient, np.int64(n) if case["np"] else n, np.int64(k) if case["np"] else k)
    check(got == want, "%d choose %d is %s, not %d", n, k, got, want)
    got = cut(factorial, n)
    check(got == fact(n), "the factorial of %d is %s", n, got)
    got = cut(multinomial, np.array(parts) if case["np"] else list(parts))
    check(got == ref.multinom(parts), "the multinomial coefficient of %s is %s, not %d", parts, got, ref.multinom(parts))
    rec.nontrivial(want > 1 or ref.multinom(parts) > 1)
    rec.tag("digits=%d" % (len(str(ref.multinom(parts)))//10*10))


SUBS = [Sub("numbers", cases(), run, 3000, 50000)]
