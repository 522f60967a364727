"""Polya tables made up for the distribution checks, and enum.in files read back."""
from hypothesis import strategies as st

import ref
from harness import check


@st.composite
def tables(draw, max_size=12, zero=True):
    """{"nb", "k", "sizes": [{"n", "hnfs", "concs", "counts"}]}"""
    k = draw(st.integers(1, 3))
    nb = draw(st.sampled_from([1, 1, 2, 3]))
    ns = sorted(draw(st.sets(st.integers(1, max_size), min_size=1, max_size=4)))
    mag = draw(st.sampled_from(["small", "small", "medium", "mixed", "huge"]))
    low = 0 if zero and draw(st.integers(0, 3)) == 0 else 1
    one = {"small": st.integers(low, 12), "medium": st.integers(low, 3000),
           "mixed": st.one_of(st.integers(low, 3), st.integers(low, 10**6)),
           "huge": st.integers(low, 10**draw(st.sampled_from([20, 30, 45])))}[mag]
    out = []
    for n in ns:
        hn = ref.all_hnfs(n)
        hn = draw(st.lists(st.sampled_from(hn), min_size=1, max_size=5, unique=True))
        N = n*nb
        if k == 1:
            cs = [[N]]
        else:
            cs = []
            for _ in range(draw(st.integers(1, 5))):
                cuts = sorted(draw(st.integers(0, N)) for _ in range(k-1))
                c = [b-a for a, b in zip([0]+cuts, cuts+[N])]
                if c not in cs:
                    cs.append(c)
        out.append({"n": n, "hnfs": [list(ref.hnf6(h)) for h in hn], "concs": cs,
                    "counts": [[draw(one) for _ in cs] for _ in hn]})
    return {"nb": nb, "k": k, "sizes": out}


def write(t, prefix):
    """The files polya would have written for these counts."""
    for s in t["sizes"]:
        with open("%s.%d" % (prefix, s["n"]), "w") as f:
            f.write("{0: <28}".format("# HNF"))
            for c in s["concs"]:
                f.write("{0: <50}".format(":".join(map(str, c))))
            f.write("{0: <50}\n".format("Total"))
            for h, row in zip(s["hnfs"], s["counts"]):
                f.write("  {0: <26}".format(" ".join(map(str, h))))
                for v in row:
                    f.write("{0: <50d}".format(v))
                f.write("{0: <10d}\n".format(sum(row)))
            f.write("# "+"-"*60+"\n")
            f.write("{0: <28}".format("  0 0 0 0 0 0"))
            for i in range(len(s["concs"])):
                f.write("{0: <50d}".format(sum(r[i] for r in s["counts"])))
            f.write("{0: <50d}\n".format(sum(sum(r) for r in s["counts"])))


def limits(t, kind, sizes=None, shapes=None, concs=None):
    """How many structures there are of each type the distribution is over."""
    out = {}
    for s in t["sizes"]:
        if sizes is not None and s["n"] not in sizes:
            continue
        for h, row in zip(s["hnfs"], s["counts"]):
            if shapes is not None and tuple(h) not in shapes:
                continue
            for c, v in zip(s["concs"], row):
                if concs is not None and tuple(c) not in concs:
                    continue
                key = {"all": (tuple(h), tuple(c)), "shape": (tuple(h),), "conc": (s["n"], tuple(c)),
                       "size": (s["n"],)}[kind]
                out[key] = out.get(key, 0)+v
    return out


def read(path, kind, k):
    """The rows of an enum.in like file as {key: number}."""
    out = {}
    with open(path) as f:
        lines = f.read().split("\n")
    check(lines[-1] == "", "%s does not end with a new line", path)
    check(lines[0].startswith("#"), "%s has no heading", path)
    for l in lines[1:-1]:
        v = [int(x) for x in l.split()]
        want = {"all": 6+k+1, "shape": 7, "conc": k+2, "size": 2}[kind]
        check(len(v) == want, "a row of %d numbers for the distribution over %s: %s", len(v), kind, l)
        key = {"all": (tuple(v[:6]), tuple(v[6:-1])), "shape": (tuple(v[:6]),),
               "conc": (v[0], tuple(v[1:-1])), "size": (v[0],)}[kind]
        check(key not in out, "%s is listed twice", key)
        out[key] = v[-1]
    return out


def printed(text, kind):
    """The rows of a distribution printed to the screen, as {key: number}."""
    import re
    out = {}
    for l in re.sub("\x1b\\[[0-9;]*m", "", text).split("\n"):
        v = [x.strip() for x in l.rstrip(" |").split("|")]
        if len(v) != 4:
            continue
        h, c = tuple(int(x) for x in v[1].split()), tuple(int(x) for x in v[2].split(":") if x)
        check(bool(h) == (kind == "shape") and bool(c) == (kind == "conc"), "a distribution over %s printed: %s", kind, l)
        key = {"shape": (h,), "conc": (int(v[0]), c), "size": (int(v[0]),)}[kind]
        check(key not in out, "%s is printed twice", key)
        out[key] = int(v[3])
    return out


def judge(got, lim, n, rec=None):
    """The distribution got, of n structures out of those in lim."""
    total = sum(lim.values())
    m = total if n is None else min(n, total)
    check(sum(got.values()) == m, "%d structures in place of %d (there are %d)", sum(got.values()), m, total)
    for key, v in got.items():
        check(key in lim, "%s is not in the tables, or was to be left out", key)
        check(0 < v <= lim[key], "%s structures of %s, there are %d", v, key, lim[key])
    # in proportion to the abundance, up to the rounding of each type
    K = len([v for v in lim.values() if v])
    if total:
        off = sum(abs(got.get(key, 0)*total - v*m) for key, v in lim.items())
        check(off <= (4*K + m*10**-10)*total, "the numbers do not follow the abundances: %s of %s",
              sorted(got.items())[:6], sorted(lim.items())[:6])
