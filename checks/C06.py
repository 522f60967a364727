"""Full enumeration of the colourings of a supercell."""
from hypothesis import strategies as st

import enumcheck as ec
import gen
import ref
from harness import Sub, check, cut

PROPERTY = "C06"
RULE = ("Random crystals, supercells of up to 12 sites, 1-6 species, zero concentrations included, with and "
        "without superperiodic structures; every structure returned is put in canonical form under the exact "
        "symmetry of the supercell and the set compared with the one found by brute force. Non-trivial: more "
        "than one inequivalent structure and a group larger than the translations or some superperiodic structure.")


@st.composite
def cases(draw, nsite=12, limit=6000):
    c = draw(gen.crystals(max_basis=5))
    H = draw(gen.hnfs(max(1, min(8, nsite//len(c["b"])))))
    N = ref.det3(H)*len(c["b"])
    concs = draw(gen.compositions(N, kmax=6, zeros=draw(st.integers(0, 2)) == 0))
    while ref.multinom(concs) > limit:          # merge species until few enough
        concs = [concs[0]+concs[1]] + concs[2:]
    return {"crystal": c, "H": H, "concs": concs, "supers": draw(st.booleans()),
            "more": draw(st.sampled_from([0, 0, 0, 5]))}


def run(case, rec):
    from phenum.phonons import enum_sys
    c, sc, params = ec.setup(case)
    concs = case["concs"]
    none = [0]*len(concs)
    ops = sc.ops()
    exp, nsuper = ec.expected(sc, ops, concs, none, case["supers"])
    total = ref.burnside(ops, concs)
    configs = cut(enum_sys, None, list(concs), [0]*len(concs), total+case["more"],
                  list(ref.hnf6(case["H"])), params, case["supers"], None)
    got = ec.judge(sc, ops, configs, concs, none, case["supers"])
    check(got == exp, "%d inequivalent structures returned, there are %d (%d superperiodic ones %s)",
          len(got), len(exp), nsuper, "kept" if case["supers"] else "left out")
    rec.nontrivial(len(exp) > 1 and (nsuper > 0 or len(ops) > sc.n))
    rec.tag("species=%d" % len([x for x in concs if x]))
    rec.tag("superperiodic=%s" % (nsuper > 0))
    rec.tag("zeros=%s" % (0 in concs))


SUBS = [Sub("full", cases(), run, 1500, 20000)]
