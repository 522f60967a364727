"""The options of the command line."""
import os
import subprocess
import sys
from unittest import mock

from hypothesis import strategies as st

import cli
import gen
import harness
import poscar
from harness import Sub, casedir, check, cut
from checks.C27 import content

PROPERTY = "C30"
RULE = ("Random command lines of both programs (any of the options with random values, in any order): what is parsed must be "
        "the values given, and the documented defaults otherwise. Random combinations of the modes with default and "
        "given file names must make exactly the files they name, the same as the modes one after the other; the whole "
        "chain is also run as programs. Non-trivial: at least two options.")

NAME = st.text(alphabet="abcxyz019_.", min_size=1, max_size=8).filter(lambda s: s.strip("."))

ENUM = {"polya": None, "enum": None, "super": None, "savedist": None, "visualize": None, "shapes": None, "show": None,
        "profile": None, "debug": None,
        "lattice": NAME, "input": NAME, "outfile": NAME,
        "distribution": st.tuples(st.sampled_from(["all", "size", "shape", "conc"]),
                                  st.sampled_from(["all", "7", "100"])),
        "sizes": st.tuples(st.integers(1, 9), st.integers(1, 9)),
        "acceptrate": st.sampled_from([0.5, 0.1, 0.999]), "seed": st.integers(0, 10**6),
        "filter": st.tuples(st.sampled_from(["shape", "conc"]), NAME)}
STR = {"displace": st.sampled_from([0.5, 0.01, -0.25, 2.0]), "input": NAME, "mink": st.sampled_from("tf"),
       "species": st.lists(st.sampled_from(poscar.ELEMENTS), min_size=1, max_size=4),
       "species_mapping": st.lists(st.integers(0, 5), min_size=1, max_size=3), "outfile": NAME,
       "rattle": st.sampled_from([0.25, 0.1, 1.0]), "config": st.sampled_from("tf"), "remove_zeros": st.sampled_from("tf"),
       "debug": None}
DEFAULTS = {"enum": dict(cli.ENUM_ARGS), "str": dict(cli.STR_ARGS, structures=None, input="struct_enum.out")}


@st.composite
def parse_cases(draw):
    prog = draw(st.sampled_from(["enum", "str"]))
    opts = {"enum": ENUM, "str": STR}[prog]
    names = draw(st.lists(st.sampled_from(sorted(opts)), unique=True, max_size=8))
    given = {n: True if opts[n] is None else draw(opts[n]) for n in names}
    given = {n: list(v) if isinstance(v, tuple) else v for n, v in given.items()}
    words = draw(st.sampled_from([["all"], ["3"], ["2", "5"]])) if prog == "str" else None
    return {"prog": prog, "given": sorted(given.items()), "words": words}


def argv(case):
    # the structures first: an option with several values would take them
    out = list(case["words"] or [])
    for n, v in case["given"]:
        out.append("-"+n)
        if v is not True:
            out += [str(x) for x in v] if isinstance(v, list) else [str(v)]
    return out


def run_parse(case, rec):
    from phenum import enumeration, phenumStr
    mod = {"enum": enumeration, "str": phenumStr}[case["prog"]]
    with mock.patch.object(sys, "argv", ["prog"]+argv(case)):
        got = cut(mod._parser_options)
    want = dict(DEFAULTS[case["prog"]])
    want.update(dict(map(tuple, case["given"])))
    if case["prog"] == "str":
        want["structures"] = case["words"]
    for n in want:
        if n in ("profile", "verbose", "debug", "examples", "visualize", "shapes", "show", "enum", "polya", "super",
                 "savedist"):
            check(bool(got.get(n)) == bool(want[n]), "-%s is %s with %s", n, got.get(n), argv(case))
        elif n != "action":
            check(n in got and got[n] == want[n], "-%s is %r, not %r, with %s", n, got.get(n), want[n], argv(case))
    rec.nontrivial(len(case["given"]) > 1)
    rec.tag(case["prog"])


@st.composite
def mode_cases(draw):
    c = draw(gen.crystals(max_basis=2, lattices=["fcc", "sc", "tet", "ort"], skew=False))
    hi = draw(st.sampled_from([2, 1, 3] if len(c["b"]) == 1 else [1, 2]))
    return {"crystal": c, "sizes": [draw(st.integers(1, hi)), hi], "modes": draw(st.sampled_from(
        [["polya"], ["distribution"], ["enum"], ["polya", "enum"], ["polya", "distribution"],
         ["enum", "distribution"], ["polya", "enum", "distribution"]])),
        "kind": draw(st.sampled_from(["all", "all", "shape", "size", "conc"])), "save": draw(st.booleans()),
        "n": draw(st.sampled_from(["all", "1", "3", "5"])), "seed": draw(st.integers(0, 1000)),
        "super": draw(st.booleans()), "out": draw(st.sampled_from([None, None, "my.out"])),
        "inp": draw(st.sampled_from([None, None, "my.in"])), "lattice": draw(st.sampled_from([None, "my.lattice"])),
        "other": draw(st.sampled_from([None, None, "enum.in.1", "my.in.bak", "enum.out.3", "old_polya.out.1",
                                                    "enum.in.old"]))}


def command(words):
    from phenum.enumeration import _parser_options, _script_enum
    with mock.patch.object(sys, "argv", ["enumeration.py"]+[str(w) for w in words]):
        _script_enum(_parser_options())


def run_modes(case, rec):
    c = gen.crystal(case["crystal"])
    modes, out, inp, kind = case["modes"], case["out"], case["inp"], case["kind"]
    if "enum" in modes:
        kind = "all"
    if len(modes) > 1:
        # names are for one file
        inp = out = None
    lo, hi = case["sizes"]
    words = ["-"+m for m in modes if m != "distribution"] + ["-seed", case["seed"]]
    if "distribution" in modes:
        words += ["-distribution", kind, case["n"]] + (["-savedist"] if case["save"] else [])
    words += (["-super"] if case["super"] else []) + (["-outfile", out] if out else [])
    if "distribution" in modes or "enum" in modes:
        words += ["-input", inp] if inp else []
    else:
        inp = None
    lat = case["lattice"] or "lattice.in"
    words += ["-lattice", lat] if case["lattice"] else []
    tables = ["polya.out.%d" % n for n in range(lo, hi+1)]
    want = {lat}
    if "polya" in modes:
        want |= {"%s.%d" % (out or "polya.out", n) for n in range(lo, hi+1)}
    if "enum" in modes:
        want |= set(tables) | {inp or "enum.in", out or "enum.out"}
    elif "distribution" in modes:
        want |= {"%s.%d" % (inp or "polya.out", n) for n in range(lo, hi+1)}
        if kind == "all" or case["save"]:
            want.add(out or "enum.in")
    with casedir():
        cli.write_lattice(lat, c, (lo, hi), 2)
        if case["other"]:
            # the file of someone else, in nobody's way
            with open(case["other"], "w") as f:
                f.write("not mine\n")
        cut(command, words)
        if case["other"]:
            with open(case["other"]) as f:
                check(f.read() == "not mine\n", "%s changed the file %s", words, case["other"])
            os.remove(case["other"])
        files = set(os.listdir("."))
        check(files == want, "%s makes the files %s, not %s", words, sorted(files), sorted(want))
        got = {f: content(f) for f in files}
        if "enum" in modes:
            # there is an enum.in now: it is used and kept
            cut(command, words)
            check({f: content(f) for f in os.listdir(".")}[inp or "enum.in"] == got[inp or "enum.in"],
                  "%s changed the input file", words)
    if len(modes) > 1:
        # one mode after the other
        base = ["-seed", case["seed"]] + (["-super"] if case["super"] else []) + (["-lattice", lat] if case["lattice"]
                                                                                 else [])
        with casedir():
            cli.write_lattice(lat, c, (lo, hi), 2)
            cut(command, base+["-polya"])
            if "distribution" in modes or "enum" in modes:
                use = (kind, case["n"]) if "distribution" in modes else ("all", "all")
                cut(command, base+["-distribution", use[0], use[1]] + (["-savedist"] if case["save"] else []))
            if "enum" in modes:
                cut(command, base+["-enum"])
            step = {f: content(f) for f in os.listdir(".")}
        check(set(step) == set(got), "%s makes the files %s, its modes one by one %s", words, sorted(got), sorted(step))
        for f in sorted(got):
            if f != "enum.out" or case["n"] == "all" or "distribution" not in modes:
                check(step[f] == got[f], "%s of %s is not that of the modes one by one", f, words)
    rec.nontrivial(len(words) > 3)
    rec.tag("+".join(modes))


@st.composite
def chain_cases(draw):
    c = draw(gen.crystals(max_basis=2, lattices=["fcc", "sc", "bcc", "hex", "tet"]))
    return {"crystal": c, "hi": draw(st.integers(1, 3)), "n": draw(st.integers(1, 9)), "seed": draw(st.integers(0, 99)),
            "mink": draw(st.sampled_from("tf"))}


def program(name, *words):
    env = dict(os.environ, PYTHONPATH=harness.REPO, MPLBACKEND="Agg")
    p = subprocess.run([sys.executable, os.path.join(harness.REPO, "phenum", name)]+[str(w) for w in words], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    check(p.returncode == 0, "%s %s ended with %d: %s", name, words, p.returncode,
          p.stdout.decode(errors="replace")[-300:])
    return p.stdout.decode(errors="replace")


def run_chain(case, rec):
    c = gen.crystal(case["crystal"])
    with casedir():
        cli.write_lattice("lattice.in", c, (1, case["hi"]), 2)
        check("EXAMPLES" in program("enumeration.py", "-examples"), "no examples")
        check("EXAMPLES" in program("phenumStr.py", "-examples"), "no examples")
        program("enumeration.py", "-polya")
        total = sum(cli.parse_polya("polya.out.%d" % n)[3][-1] for n in range(1, case["hi"]+1))
        program("enumeration.py", "-distribution", "all", case["n"], "-seed", case["seed"])
        with open("enum.in") as f:
            rows = [l.split() for l in f if not l.startswith("#")]
        check(sum(int(r[-1]) for r in rows) == min(total, case["n"]), "%d structures in enum.in, %d asked for of %d",
              sum(int(r[-1]) for r in rows), case["n"], total)
        program("enumeration.py", "-enum", "-super", "-seed", case["seed"])
        head, lines = cli.parse_enum_out("enum.out")
        check(len(lines) == min(total, case["n"]), "%d structures in enum.out, %d asked for of %d", len(lines),
              case["n"], total)
        program("phenumStr.py", "all", "-input", "enum.out", "-mink", case["mink"], "-species", "Al", "Cu")
        files = sorted(f for f in os.listdir(".") if f.startswith("vasp."))
        check(files == sorted("vasp.%d" % (i+1) for i in range(len(lines))), "%d structures, the files %s", len(lines),
              files)
        for i, s in enumerate(lines):
            p = poscar.parse("vasp.%d" % (i+1))
            check(p["counts"] == [s["lab"].count("0"), s["lab"].count("1")], "vasp.%d has the counts %s", i+1,
                  p["counts"])
        program("phenumStr.py", "1", "-input", "enum.out", "-outfile", "one.{}")
        check(os.path.isfile("one.1"), "no file one.1")
    rec.nontrivial()


SUBS = [Sub("parse", parse_cases(), run_parse, 1500, 15000),
        Sub("modes", mode_cases(), run_modes, 120, 2000),
        Sub("chain", chain_cases(), run_chain, 16, 160, per=2)]
