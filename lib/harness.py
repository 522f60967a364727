"""Runner shared by all the checks: hypothesis driven search over generated
cases, spread over worker processes, with evidence and replay files.

A check module (checks/<id>.py) defines PROPERTY, RULE and SUBS, a list of
Sub objects.  Each Sub has a hypothesis strategy yielding a JSON value (the
case) and a function run(case, rec) that drives the code under test and
raises Violation when the property fails.
"""
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.insert(0, REPO)
if VT not in sys.path:
    sys.path.append(VT)


class Violation(Exception):
    """The property fails on this case."""


class Hang(BaseException):
    """The case did not end: raised by the alarm."""


class Known(Exception):
    """The case runs into a finding listed in known_findings.json."""
    def __init__(self, fid):
        Exception.__init__(self, fid)
        self.fid = fid


def cut(fn, *args, **kw):
    """Call the code under test on a valid input: any exception it raises
    (a SystemExit too) breaks the property."""
    try:
        with quiet():
            return fn(*args, **kw)
    except (KeyboardInterrupt, Hang):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "phenum" in f.filename]
        at = "%s:%d" % (os.path.basename(where[-1].filename), where[-1].lineno) if where else "?"
        raise Violation("%s raised %s: %s (%s)" % (getattr(fn, "__name__", fn),
                                                   type(e).__name__, str(e)[:300], at))


def must_raise(exc, fn, *args, **kw):
    """The call has to be refused with exc."""
    try:
        with quiet():
            fn(*args, **kw)
    except exc:
        return
    except (KeyboardInterrupt, Hang):
        raise
    except BaseException as e:
        raise Violation("%s raised %s (%s) in place of %s" % (
            getattr(fn, "__name__", fn), type(e).__name__, str(e)[:200], exc))
    raise Violation("%s accepted an invalid input" % getattr(fn, "__name__", fn))


@contextlib.contextmanager
def quiet():
    o, e = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Sub(object):
    def __init__(self, name, strategy, run, quick, thorough, alarm=240, per=10):
        self.per = per          # at least this many cases in each process
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.alarm = quick, thorough, alarm


class Rec(object):
    """What one case reports: nontrivial() marks it, tag() classifies it."""
    def __init__(self):
        self.reset()

    def reset(self):
        self.is_nontrivial = False
        self.tags = []

    def nontrivial(self, yes=True):
        self.is_nontrivial = self.is_nontrivial or bool(yes)

    def tag(self, t):
        self.tags.append(t)


def _alarm(sig, frame):
    raise Hang()


def case_size(case):
    s = json.dumps(case, sort_keys=True)
    return (len(s), s)


def run_case(sub, case, rec):
    """Returns None, or the message of the violation."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(sub.alarm)
    try:
        sub.run(case, rec)
        return None
    except Violation as e:
        return str(e)
    except Known:
        raise
    except Hang:
        return "did not end within %d s" % sub.alarm
    except (ImportError, KeyboardInterrupt):
        raise
    except MemoryError:
        return "ran out of memory"
    except Exception as e:
        # what the code under test returned has not even the right form.
        return "unusable result: " + "".join(
            traceback.format_exception(type(e), e, e.__traceback__)[-3:])[-600:]
    finally:
        signal.alarm(0)


def _worker(pid, si, shard, nshards, tier, seed, budget, out):
    """Runs one shard of one sub-check and writes what happened to out."""
    res = {"sub": si, "shard": shard, "evaluations": 0, "nontrivial": [], "tags": {},
           "samples": [], "failures": [], "known": [], "error": None, "stopped": False}
    scratch = tempfile.mkdtemp(prefix="case_", dir=os.path.dirname(out))
    os.chdir(scratch)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    try:
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase
        mod = importlib.import_module("checks." + pid)
        import phenum
        assert os.path.realpath(phenum.__file__).startswith(os.path.realpath(REPO) + os.sep), phenum.__file__
        sub = mod.SUBS[si]
        total = getattr(sub, tier)
        n = total // nshards + (1 if shard < total % nshards else 0)
        t0 = time.time()
        seen = set()
        state = {"first": None}
        rec = Rec()

        @hypothesis.seed("%s-%s-%d-%d" % (seed, sub.name, shard, nshards))
        @settings(max_examples=max(n, 1), database=None, deadline=None, derandomize=False,
                  report_multiple_bugs=False, print_blob=False,
                  phases=(Phase.generate, Phase.shrink),
                  suppress_health_check=list(HealthCheck))
        @given(case=sub.strategy)
        def test(case):
            now = time.time()
            if state["first"] is not None and now - state["first"] > 40:
                return                  # enough shrinking
            if state["first"] is None and now - t0 > budget:
                res["stopped"] = True
                return
            rec.reset()
            try:
                msg = run_case(sub, case, rec)
            except Known as k:
                msg = None
                rec.tag("known finding " + k.fid)
                if k.fid not in res["known"]:
                    res["known"].append(k.fid)
            res["evaluations"] += 1
            if msg is None:
                key = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
                if rec.is_nontrivial and key not in seen:
                    seen.add(key)
                    if len(res["samples"]) < 2:
                        res["samples"].append(case)
                for t in rec.tags:
                    res["tags"][t] = res["tags"].get(t, 0) + 1
                return
            if state["first"] is None:
                state["first"] = now
            res["failures"].append({"case": case, "message": msg})
            res["failures"].sort(key=lambda f: case_size(f["case"]))
            del res["failures"][5:]
            raise Violation(msg)

        try:
            test()
        except BaseException as e:
            if not res["failures"]:
                raise
        res["nontrivial"] = sorted(seen)
    except BaseException:
        res["error"] = traceback.format_exc()
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    with open(out, "w") as f:
        json.dump(res, f)


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def main(argv):
    pid = argv[0]
    if "--replay" in argv:
        return replay(pid, argv[argv.index("--replay")+1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier")+1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("checks." + pid)
    nproc = 8
    budget = 420 if tier == "quick" else 5400
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    tasks = []
    for si, sub in enumerate(mod.SUBS):
        total = getattr(sub, tier)
        if not total:
            continue                    # a part of the thorough check only
        nshards = max(1, min(nproc, total // sub.per))
        for sh in range(nshards):
            tasks.append((si, sh, nshards))
    results = []
    errors = []
    try:
        ctx = mp.get_context("fork")
        running = []
        queue = list(tasks)
        while queue or running:
            while queue and len(running) < nproc:
                si, sh, ns = queue.pop(0)
                out = os.path.join(work, "r_%d_%d.json" % (si, sh))
                left = max(5, budget - (time.time()-t0))
                p = ctx.Process(target=_worker, args=(pid, si, sh, ns, tier, seed, left, out))
                p.start()
                running.append((p, out, si, sh))
            time.sleep(0.02)
            still = []
            for p, out, si, sh in running:
                if p.is_alive():
                    still.append((p, out, si, sh))
                    continue
                p.join()
                if os.path.exists(out):
                    with open(out) as f:
                        results.append(json.load(f))
                else:
                    errors.append("worker %s/%d ended with %s" % (mod.SUBS[si].name, sh, p.exitcode))
            running = still
            # a violation was found: nothing is gained by starting more.
            if any(r["failures"] for r in results):
                queue = []
        known_extra = []
        if hasattr(mod, "known_probe"):
            cwd = os.getcwd()
            os.chdir(work)
            try:
                known_extra = mod.known_probe()
            finally:
                os.chdir(cwd)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    errors += [r["error"] for r in results if r["error"]]
    results.sort(key=lambda r: (r["sub"], r["shard"]))
    fails = [(r["sub"], f) for r in results for f in r["failures"]]
    tags = {}
    nontriv = set()
    samples = []
    per = {}
    for r in results:
        nm = mod.SUBS[r["sub"]].name
        d = per.setdefault(nm, {"evaluations": 0, "distinct_nontrivial": 0})
        d["evaluations"] += r["evaluations"]
        nontriv |= {nm+":"+k for k in r["nontrivial"]}
        for t, v in r["tags"].items():
            tags[nm+"/"+t] = tags.get(nm+"/"+t, 0)+v
    for nm in per:
        per[nm]["distinct_nontrivial"] = len([k for k in nontriv if k.startswith(nm+":")])
        got = [s for r in results if mod.SUBS[r["sub"]].name == nm for s in r["samples"]][:3]
        samples += [{"sub": nm, "case": s} for s in got]
    known = sorted({k for r in results for k in r["known"]} | set(known_extra))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(r["evaluations"] for r in results),
                       "distinct_nontrivial": len(nontriv),
                       "rule": mod.RULE,
                       "samples": samples,
                       "sub_checks": per,
                       "classes": dict(sorted(tags.items())),
                       "stopped_early_by_time_budget": any(r["stopped"] for r in results),
                       "known_findings_met": known},
          "wall_s": round(time.time()-t0, 2), "violations": 1 if fails else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid+".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if fails:
        si, f = min(fails, key=lambda x: case_size(x[1]["case"]))
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s_%s.json" % (pid, mod.SUBS[si].name))
        with open(path, "w") as g:
            json.dump({"property": pid, "sub": mod.SUBS[si].name, "seed": seed,
                       "message": f["message"], "case": f["case"]}, g, indent=1)
        print("%s [%s]: %s" % (pid, mod.SUBS[si].name, f["message"]))
        print("case: %s" % json.dumps(f["case"])[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("ERROR of the check %s:" % pid)
        for e in errors[:3]:
            print(e)
        return 3
    listed = {k["id"]: k for k in load_known(pid)}
    for k in known:
        if k not in listed:
            print("finding %s is not listed" % k)
            print("VIOLATION property=%s replay=%s" % (pid, os.path.join(VERIF, "known_findings.json")))
            return 1
        print("KNOWN-FINDING: property=%s %s" % (pid, listed[k]["what"]))
    print("%s %s seed=%d: %d cases, %d distinct non trivial, %.1f s" % (
        pid, tier, seed, ev["coverage"]["evaluations"], len(nontriv), ev["wall_s"]))
    return 0


def replay(pid, path):
    """Run one saved case, without the search."""
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("checks." + pid)
    with open(path) as f:
        r = json.load(f)
    sub = [s for s in mod.SUBS if s.name == r["sub"]][0]
    d = tempfile.mkdtemp(prefix="verif_replay_")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        msg = run_case(sub, r["case"], Rec())
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    if msg is None:
        print("the case passes")
        return 0
    print(msg)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


@contextlib.contextmanager
def casedir():
    """A fresh directory for the files of one case, removed afterwards."""
    cwd = os.getcwd()
    d = tempfile.mkdtemp(prefix="c_", dir=cwd)
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
