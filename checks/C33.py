"""Histories of the two commands in one folder: what is there is used, what is not asked for is left alone."""
import os
from unittest import mock
import sys

from hypothesis import strategies as st

import cli
import gen
import poscar
from harness import Sub, casedir, check, cut

PROPERTY = "C33"
RULE = ("Random histories of 4-10 steps in one folder (polya tables under several names, distributions of them over the sizes "
        "asked for or all there are, enumerations, POSCAR files, other sizes in lattice.in, tables and inputs edited by "
        "hand, files removed), beside files that are not theirs. A model keeps what each file must hold: after each step "
        "the folder has exactly the files of the model, those the step does not write are the same to the byte, and "
        "the others hold what the files they were made from say. Non-trivial: at least two steps that use a file an "
        "earlier one made or edited.")


@st.composite
def histories(draw):
    c = draw(gen.crystals(max_basis=2, lattices=["fcc", "sc", "tet", "ort"], skew=False))
    nb = len(c["b"])
    top = draw(st.sampled_from([4, 3, 3])) if nb == 1 else 2
    k = draw(st.sampled_from([2, 2, 3] if nb == 1 else [2]))
    if k == 3:
        top = min(top, 3)
    span = st.tuples(st.integers(1, top), st.integers(1, top)).map(lambda t: [min(t), max(t)])
    ntab = draw(st.sampled_from([0, 0, 1, 2]))
    names = ["polya.out", "mine", "a.b"][:1+ntab]
    ins = ["enum.in", "e2", "polya.in"][:1+draw(st.integers(0, 2))]
    outs = ["enum.out", "o.2"][:1+draw(st.integers(0, 1))]
    pick = st.integers(0, 10**6)
    one = st.one_of(
        st.tuples(st.just("polya"), st.sampled_from(names)),
        st.tuples(st.just("dist"), st.sampled_from(names), st.sampled_from(ins), st.one_of(st.none(), st.none(), span),
                  st.sampled_from(["all", "all", 1, 3, 9])),
        st.tuples(st.just("show"), st.sampled_from(names), st.sampled_from(["size", "conc", "shape"]),
                  st.sampled_from(["all", 1, 3])),
        st.tuples(st.just("enum"), st.sampled_from(ins), st.sampled_from(outs)),
        st.tuples(st.just("enum"), st.sampled_from(ins), st.sampled_from(outs)),
        st.tuples(st.just("make"), st.sampled_from(outs), st.integers(0, 3), st.integers(0, 3),
                  st.sampled_from(["vasp.{}", "vasp.{}", "s{}.poscar"])),
        st.tuples(st.just("make"), st.sampled_from(outs), pick, pick, st.just("vasp.{}")),
        st.tuples(st.just("size"), span),
        st.tuples(st.just("table"), st.sampled_from(names), pick, pick),
        st.tuples(st.just("input"), st.sampled_from(ins), pick),
        st.tuples(st.just("remove"), pick))
    ops = draw(st.lists(one, min_size=4, max_size=10))
    if draw(st.booleans()):
        ops = [("polya", names[0])] + ops[:8]
    return {"crystal": c, "k": k, "sizes": draw(st.one_of(span, st.just([1, top]))), "ops": [list(o) for o in ops],
            "other": draw(st.lists(st.sampled_from(["polya.out.old", "enum.in.1", "enum.out.1", "vasp.0", "old_polya.out.2",
                                                    "mine.txt", "polya.outx.3", "vasp.old"]), unique=True, max_size=3))}


def enum_command(words):
    from phenum.enumeration import _parser_options, _script_enum
    with mock.patch.object(sys, "argv", ["enumeration.py"]+[str(w) for w in words]):
        _script_enum(_parser_options())


def make_command(words):
    from phenum.phenumStr import _parser_options, run as make
    with mock.patch.object(sys, "argv", ["makeStr.py"]+[str(w) for w in words]):
        make(_parser_options())


class Folder:
    """What the files must hold."""

    def __init__(self, case):
        self.c = gen.crystal(case["crystal"])
        self.k = case["k"]
        self.sizes = case["sizes"]
        self.tables = {}            # name -> size -> {(hnf, concentration): number}
        self.inputs = {}            # name -> {(hnf, concentration): number}
        self.outputs = {}           # name -> [(concentration), ...] in order
        self.plain = set()          # any other file
        self.fresh = {}
        self.bytes = {}

    def fresh_of(self, row):
        return self.fresh[row[0][0]*row[0][2]*row[0][5]].get(row, 0)

    def files(self):
        return ({"%s.%d" % (t, n) for t, v in self.tables.items() for n in v} | set(self.inputs) | set(self.outputs)
                | self.plain)

    def lattice(self):
        cli.write_lattice("lattice.in", self.c, self.sizes, self.k)
        self.plain.add("lattice.in")
        self.keep("lattice.in")

    def keep(self, *names):
        for n in names:
            with open(n) as f:
                self.bytes[n] = f.read()

    def forget(self, name):
        for t, v in self.tables.items():
            for n in list(v):
                if "%s.%d" % (t, n) == name:
                    del v[n]
        self.inputs.pop(name, None)
        self.outputs.pop(name, None)
        self.plain.discard(name)
        self.bytes.pop(name, None)

    def there(self, words):
        """The folder after a command."""
        got = set(os.listdir("."))
        want = self.files()
        check(got == want, "%s: the folder has %s in place of %s", words, sorted(got-want) or "not all",
              sorted(want-got) or "none")
        for n, text in self.bytes.items():
            with open(n) as f:
                check(f.read() == text, "%s changed %s", words, n)


def read_table(name):
    concs, rows, rtot, last = cli.parse_polya(name)
    return {(h, c): v for h, r in rows.items() for c, v in zip(concs, r)}


def write_table(name, cells):
    concs, hnfs = [], []
    for h, c in cells:
        if c not in concs:
            concs.append(c)
        if h not in hnfs:
            hnfs.append(h)
    w = 20
    with open(name, "w") as f:
        f.write("# HNF " + " ".join(":".join(map(str, c)).ljust(w) for c in concs) + " Total\n")
        for h in hnfs:
            row = [cells[(h, c)] for c in concs]
            f.write("  "+" ".join(map(str, h+tuple(row)+(sum(row),)))+"\n")
        col = [sum(cells[(h, c)] for h in hnfs) for c in concs]
        f.write("# "+"-"*40+"\n")
        f.write("  0 0 0 0 0 0 "+" ".join(map(str, col+[sum(col)]))+"\n")


def read_input(name):
    out = {}
    with open(name) as f:
        for l in f:
            if not l.startswith("#"):
                v = [int(x) for x in l.split()]
                key = (tuple(v[:6]), tuple(v[6:-1]))
                check(key not in out, "%s is listed twice in %s", key, name)
                out[key] = v[-1]
    return out


def write_input(name, rows):
    with open(name, "w") as f:
        f.write("# HNF  concentrations  number\n")
        for (h, c), v in rows.items():
            f.write("  %s  %s  %d\n" % (" ".join(map(str, h)), " ".join(map(str, c)), v))


def run(case, rec):
    m = Folder(case)
    used = 0
    with casedir():
        # what the tables hold when nobody touches them
        cli.write_lattice("lattice.in", m.c, (1, max([m.sizes[1]]+[o[1][1] for o in case["ops"] if o[0] == "size"])), m.k)
        cut(enum_command, ["-polya", "-outfile", "x"])
        for f in os.listdir("."):
            if f != "lattice.in":
                m.fresh[int(f.split(".")[1])] = read_table(f)
    with casedir():
        for n in case["other"]:
            with open(n, "w") as f:
                f.write("not mine\n")
            m.plain.add(n)
            m.keep(n)
        m.lattice()

        def polya(name):
            t = m.tables.setdefault(name, {})
            for n in range(m.sizes[0], m.sizes[1]+1):
                t[n] = dict(m.fresh[n])
                m.bytes.pop("%s.%d" % (name, n), None)

        def same_tables(words):
            for name, t in m.tables.items():
                for n, cells in t.items():
                    fn = "%s.%d" % (name, n)
                    if fn not in m.bytes:
                        check(os.path.isfile(fn), "%s: there is no %s", words, fn)
                        check(read_table(fn) == cells, "%s: %s is not the table of the cells of size %d", words, fn, n)
                        m.keep(fn)

        def distribute(name, inp, only, number, words):
            if not m.tables.get(name):
                polya(name)
            sizes = sorted(m.tables[name]) if only is None else list(range(only[0], only[1]+1))
            cells = {}
            for n in sizes:
                cells.update({x: v for x, v in m.tables[name][n].items() if v})
            got = read_input(inp)
            if number == "all":
                check(got == cells, "%s: %s does not hold the numbers of the tables: %s", words, inp,
                      sorted(set(got.items()) ^ set(cells.items()))[:4])
            else:
                check(sum(got.values()) == min(number, sum(cells.values())), "%s: %d structures in %s", words,
                      sum(got.values()), inp)
                check(all(v <= cells.get(x, 0) for x, v in got.items()), "%s: more structures than there are in %s",
                      words, inp)
                got = {x: v for x, v in got.items() if v}
            m.inputs[inp] = got
            m.keep(inp)

        for op in case["ops"]:
            words = None
            # what a step needs is made if it is not there
            if op[0] == "make" and not m.outputs.get(op[1]):
                some = sorted(n for n, v in m.outputs.items() if v)
                op = op[:1]+some[:1]+op[2:] if some else ["enum", "enum.in", op[1]]
            elif op[0] == "input" and not m.inputs.get(op[1]):
                op = ["dist", "polya.out", op[1], None, "all"]
            elif op[0] == "table" and not m.tables.get(op[1]):
                op = ["polya", op[1]]
            if op[0] == "polya":
                words = ["-polya"] + (["-outfile", op[1]] if op[1] != "polya.out" else [])
                polya(op[1])
                cut(enum_command, words)
            elif op[0] in ("dist", "show"):
                name = op[1]
                used += bool(m.tables.get(name))
                words = ["-seed", 5, "-input", name, "-distribution"]
                if op[0] == "show":
                    words += [op[2], op[3]]
                    if not m.tables.get(name):
                        polya(name)
                    cut(enum_command, words)
                else:
                    inp, only, number = op[2:]
                    have = set(m.tables.get(name) or range(m.sizes[0], m.sizes[1]+1))
                    if only is not None and not set(range(only[0], only[1]+1)) <= have:
                        continue
                    if inp in m.files() and inp not in m.inputs:
                        continue
                    words += ["all", number, "-outfile", inp] + (["-sizes", only[0], only[1]+1] if only else [])
                    m.bytes.pop(inp, None)
                    cut(enum_command, words)
                    distribute(name, inp, only, number, words)
            elif op[0] == "enum":
                inp, out = op[1:]
                words = ["-enum", "-super", "-seed", 7, "-input", inp, "-outfile", out]
                used += inp in m.inputs or bool(m.tables.get("polya.out"))
                new = inp not in m.inputs
                m.bytes.pop(out, None)
                cut(enum_command, words)
                if new:
                    distribute("polya.out", inp, None, "all", words)
                head, lines = cli.parse_enum_out(out)
                count, order = {}, []
                for s in lines:
                    lab = s["lab"]
                    conc = tuple(lab.count(str(j)) for j in range(m.k))
                    count[(s["hnf"], conc)] = count.get((s["hnf"], conc), 0)+1
                    order.append(conc)
                for x, v in m.inputs[inp].items():
                    most = m.fresh_of(x)
                    check(count.pop(x, 0) == min(v, most), "%s: %s structures of %s, asked for %d of %d", words,
                          sum(o == x[1] for o in order), x, v, most)
                check(not count, "%s: structures of %s were not asked for", words, sorted(count)[:2])
                m.outputs[out] = order
                m.keep(out)
            elif op[0] == "make":
                out, a, b, form = op[1:]
                if not m.outputs.get(out):
                    continue
                used += 1
                N = len(m.outputs[out])
                lo, hi = sorted((1+a % N, 1+b % N))
                hi = min(hi, lo+3)
                words = [str(lo), str(hi), "-input", out, "-outfile", form]
                names = {form.format(i): m.outputs[out][i-1] for i in range(lo, hi+1)}
                for n in names:
                    m.plain.add(n)
                    m.bytes.pop(n, None)
                cut(make_command, words)
                for n, conc in names.items():
                    check(os.path.isfile(n), "%s: there is no %s", words, n)
                    got = tuple(poscar.parse(n)["counts"])
                    check(got == conc, "%s: %s has the atoms %s, the structure %s", words, n, got, conc)
                    m.keep(n)
            elif op[0] == "size":
                m.sizes = op[1]
                m.lattice()
            elif op[0] == "table":
                t = m.tables.get(op[1])
                if not t:
                    continue
                n = sorted(t)[op[2] % len(t)]
                cells = t[n]
                hnfs = sorted({h for h, c in cells})
                keep = [h for i, h in enumerate(hnfs) if (op[3] >> (i % 20)) & 1] or hnfs[:1]
                new = {(h, c): max(0, v-((op[3] >> 3) % 3)) if i % 2 else v
                       for i, ((h, c), v) in enumerate(cells.items()) if h in keep}
                if not any(new.values()):
                    continue
                t[n] = new
                fn = "%s.%d" % (op[1], n)
                write_table(fn, new)
                m.keep(fn)
            elif op[0] == "input":
                rows = m.inputs.get(op[1])
                if not rows:
                    continue
                new = {x: 1+(op[2] >> 2) % (v+1) for i, (x, v) in enumerate(sorted(rows.items()))
                       if (op[2] >> (i % 20)) & 1}
                if not new:
                    continue
                m.inputs[op[1]] = new
                write_input(op[1], new)
                m.keep(op[1])
            elif op[0] == "remove":
                names = sorted(m.files() - {"lattice.in"})
                if not names:
                    continue
                n = names[op[1] % len(names)]
                os.remove(n)
                m.forget(n)
            if words:
                same_tables(words)
            m.there(words or op)
            rec.tag(op[0])
    rec.nontrivial(used > 1)


SUBS = [Sub("history", histories(), run, 150, 3000)]
