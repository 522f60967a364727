"""lattice.in as read, and struct_enum.in as written."""
from hypothesis import strategies as st

from harness import Sub, casedir, check, cut, must_raise

PROPERTY = "C22"
RULE = ("Random systems (sizes, lattice vectors, species, up to 6 sites, concentration ranges, displaced fractions) "
        "written as lattice.in in any layout (comments and blank lines anywhere, any spacing and number format): what is "
        "read must be what was written, and the struct_enum.in made from it must describe the same system. "
        "Non-trivial: at least two sites or restricted concentrations.")

SEP = st.sampled_from([" ", "  ", "\t", "    "])


@st.composite
def numbers(draw, integer=False):
    if integer:
        return str(draw(st.integers(0, 60)))
    x = draw(st.sampled_from([0.0, 1.0, 0.5, -0.5, 0.25, 0.8660254037844386, 1/3., -1.25, 1e-3]))
    f = draw(st.sampled_from(["%r", "%.6f", "%.8e", "%g"]))
    return f % x


@st.composite
def cases(draw):
    k = draw(st.integers(1, 6))
    nb = draw(st.integers(1, 6))
    hi = draw(st.integers(1, 20))
    case = {"sizes": [draw(st.integers(1, hi)), hi], "bulk": draw(st.sampled_from(["bulk", "BULK", "Bulk", "b", "surface", "surf"])),
            "k": k, "lat": [[draw(numbers()) for _ in range(3)] for _ in range(3)],
            "basis": [[draw(numbers()) for _ in range(3)] for _ in range(nb)],
            "rest": draw(st.sampled_from(["T", "F", "T"])), "arrows": draw(st.sampled_from(["T", "F"])), "concs": None}
    if case["rest"] == "T":
        case["concs"] = []
        for _ in range(k):
            r = [str(draw(st.integers(0, 30))), str(draw(st.integers(0, 30))), str(draw(st.integers(1, 30)))]
            if case["arrows"] == "T":
                r.append(draw(st.sampled_from(["0", "1", "0.5", "0.25", "1.0"])))
            case["concs"].append(r)
    nl = 8+nb+(0 if case["concs"] is None else 2+k)
    case["noise"] = [draw(st.sampled_from(["", "", "", "# a comment", "#1 2 3", "blank", "  # indented"]))
                     for _ in range(nl+1)]
    case["sep"] = draw(SEP)
    case["lead"] = draw(st.sampled_from(["", "", " ", "   "]))
    case["final"] = draw(st.booleans())
    return case


def text(case):
    sep, lead = case["sep"], case["lead"]
    L = [sep.join(map(str, case["sizes"])), case["bulk"]]
    L += [sep.join(r) for r in case["lat"]]
    L += [str(case["k"]), str(len(case["basis"]))]
    L += [sep.join(r) for r in case["basis"]]
    L += [case["rest"]]
    if case["concs"] is not None:
        L += [case["arrows"]] + [sep.join(r) for r in case["concs"]]
    out = []
    for l, n in zip(L, case["noise"]):
        if n:
            out.append("" if n == "blank" else n)
        out.append(lead+l)
    n = case["noise"][-1]
    if n:
        out.append("   " if n == "blank" else n)
    return "\n".join(out)+("\n" if case["final"] else "")


def run(case, rec):
    from phenum.io_utils import read_lattice, write_struct_enum
    with casedir():
        with open("my.in", "w") as f:
            f.write(text(case))
        got = cut(read_lattice, "my.in")
        cut(write_struct_enum, got)
        with open("struct_enum.in") as f:
            se = [l.split() for l in f.read().split("\n") if l.strip()]
        must_raise(IOError, read_lattice, "none.in")
    lat = [[float(x) for x in r] for r in case["lat"]]
    bas = [[float(x) for x in r] for r in case["basis"]]
    bulk = case["bulk"][0].lower() == "b"
    check(list(got["sizes"]) == case["sizes"], "sizes %s read as %s", case["sizes"], got["sizes"])
    check(bool(got["bulk"]) == bulk, "%s read as bulk=%s", case["bulk"], got["bulk"])
    check([list(map(float, r)) for r in got["lat_vecs"]] == lat, "lattice vectors read as %s", got["lat_vecs"])
    check([list(map(float, r)) for r in got["basis_vecs"]] == bas, "sites read as %s", got["basis_vecs"])
    check(got["nspecies"] == case["k"], "%d species read as %s", case["k"], got["nspecies"])
    check(bool(got["is_crestricted"]) == (case["concs"] is not None), "restriction read as %s", got["is_crestricted"])
    check(bool(got["arrows"]) == (case["concs"] is not None and case["arrows"] == "T"), "arrows read as %s",
          got["arrows"])
    want = [[float(x) for x in r] for r in case["concs"] or []]
    check([list(map(float, r)) for r in got["concs"]] == want, "concentrations read as %s", got["concs"])
    # struct_enum.in: title, bulk, vectors, species, sites with their species, sizes, tolerance, kind
    nb = len(bas)
    check(se[1] == ["bulk" if bulk else "surface"], "struct_enum.in says %s", se[1])
    check([[float(x) for x in r] for r in se[2:5]] == lat, "struct_enum.in has the vectors %s", se[2:5])
    check(se[5] == [str(case["k"])] and se[6] == [str(nb)], "struct_enum.in has %s species and %s sites", se[5], se[6])
    check([[float(x) for x in r[:3]] for r in se[7:7+nb]] == bas, "struct_enum.in has the sites %s", se[7:7+nb])
    occ = "/".join(map(str, range(case["k"])))
    check(all(r[3:] == [occ] for r in se[7:7+nb]), "struct_enum.in has the occupations %s", se[7:7+nb])
    check(se[7+nb] == list(map(str, case["sizes"])), "struct_enum.in has the sizes %s", se[7+nb])
    rec.nontrivial(nb > 1 or case["concs"] is not None)
    rec.tag("restricted=%s" % (case["concs"] is not None))
    rec.tag("noise=%s" % any(case["noise"]))


SUBS = [Sub("lattice", cases(), run, 2000, 30000)]
