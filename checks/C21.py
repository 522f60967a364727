"""The lattice parameter from Vegard's law, and the title."""
import numpy as np
from hypothesis import strategies as st

import gen
import poscar
from harness import Sub, casedir, check, cut, must_raise
import cli
import ref

PROPERTY = "C21"
RULE = ("Random crystals, elements and concentrations (zeros included): the lattice parameter must be the average, "
        "weighted by the concentrations, of those of the elements from their atomic volume, the title list the "
        "elements in order, and the POSCAR carry them; any other number of elements than concentrations must be refused. "
        "Non-trivial: at least two elements present.")


@st.composite
def cases(draw):
    c = draw(gen.crystals(max_basis=5))
    k = draw(st.integers(1, 6))
    els = draw(poscar.elements(k))
    concs = [draw(st.integers(0, 12)) for _ in range(k)]
    if not any(concs):
        concs[draw(st.integers(0, k-1))] = draw(st.integers(1, 9))
    return {"crystal": c, "els": els, "concs": concs, "zeros": draw(st.booleans()),
            "off": draw(st.sampled_from([0, 0, 0, 1, -1])), "none": draw(st.integers(0, 9)) == 9}


def run(case, rec):
    from phenum.element_data import get_lattice_parameter
    c = gen.crystal(case["crystal"])
    els, concs = case["els"], case["concs"]
    nb = len(c.basis)
    title = "A title str #: 7\n"
    cols = np.array(c.A).T            # as the structure program holds them
    if case["none"]:
        a, t = cut(get_lattice_parameter, None, list(concs), cols, nb, title, remove_zeros=case["zeros"])
        check(a == 1 and t == title, "without elements: %s, %s", a, t)
        return
    given = els if not case["off"] else els[:-1] if case["off"] < 0 else els + ["Mn"]
    if case["off"]:
        must_raise(ValueError, get_lattice_parameter, list(given), list(concs), cols, nb, title)
        rec.tag("refused")
        return
    a, t = cut(get_lattice_parameter, list(els), list(concs), cols, nb, title, remove_zeros=case["zeros"])
    vol = abs(np.linalg.det(np.array(c.A)))/nb
    want = sum(x*(poscar.VOLUME[e]/vol)**(1/3.) for e, x in zip(els, concs))/sum(concs)
    check(abs(a-want) <= 1e-9*want, "the lattice parameter of %s %s is %s, not %s", els, concs, a, want)
    head = [e for e, x in zip(els, concs) if x or not case["zeros"]]
    check(t.split() == head+title.split() and t.endswith("\n"), "the title of %s %s is %r", els, concs, t)
    rec.nontrivial(len([x for x in concs if x]) > 1)
    rec.tag("zeros left out=%s" % (case["zeros"] and 0 in concs))


@st.composite
def file_cases(draw):
    s = draw(poscar.systems(max_n=6, structures=2, arrows=False))
    return {"s": s, "els": draw(poscar.elements(s["k"]))}


def run_file(case, rec):
    from phenum.phenumStr import run as make
    s, els = case["s"], case["els"]
    with casedir():
        c = poscar.write("enum.out", s)
        cut(make, cli.str_args(species=list(els)))
        got = [poscar.parse("vasp.%d" % (i+1)) for i in range(len(s["strs"]))]
    vol = abs(np.linalg.det(np.array(c.A)))/len(c.basis)
    for t, p in zip(s["strs"], got):
        counts = [t["lab"].count(j) for j in range(s["k"])]
        want = sum(x*(poscar.VOLUME[e]/vol)**(1/3.) for e, x in zip(els, counts))/sum(counts)
        check(abs(float(p["scale"])-want) < 0.00501, "the lattice parameter of %s %s is %s, not %s", els, counts,
              p["scale"], want)
        check(p["title"].split()[:s["k"]] == list(els), "the title is %s", p["title"])
        rec.nontrivial(len([x for x in counts if x]) > 1)


SUBS = [Sub("vegard", cases(), run, 2000, 30000),
        Sub("file", file_cases(), run_file, 400, 6000)]
