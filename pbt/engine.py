"""The search engine shared by all checks: sharded Hypothesis runs over literal cases."""
import argparse
import ast
import collections
import glob
import hashlib
import importlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zipfile

from . import base

VENV_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"
NEEDED = ("hypothesis", "sortedcontainers", "attr", "attrs", "_hypothesis_globals.py", "_hypothesis_ftz_detector.py")
CASE_CPU_S = 60
MEM = 3 << 30


def find_hypothesis(tmp):
    """Makes Hypothesis (and nothing else of the tools' venv) importable by the package's interpreter."""
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    d = os.path.join(tmp, "site")
    os.mkdir(d)
    if all(os.path.exists(os.path.join(VENV_SITE, n)) for n in NEEDED[:2]):
        for n in NEEDED:
            if os.path.exists(os.path.join(VENV_SITE, n)):
                os.symlink(os.path.join(VENV_SITE, n), os.path.join(d, n))
    else:
        for name in ("hypothesis", "sortedcontainers", "attrs"):
            for w in glob.glob(os.path.join(WHEELS, name + "-*.whl")):
                zipfile.ZipFile(w).extractall(d)
    sys.path.append(d)
    import hypothesis  # noqa: F401


class StopShrinking(BaseException):
    pass


class Deadline(BaseException):
    pass


def run_case(mod, case):
    """Runs one case; returns (nontrivial, tags) or raises an exception (= the property does not hold)."""
    from . import ref   # after netomaton has become importable
    def on_cpu(*_):
        raise base.NoAnswer("no result within %d s of CPU time (cases take milliseconds)" % CASE_CPU_S)

    signal.signal(signal.SIGVTALRM, on_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        base.reset_globals()
        ref.NOW["noise"] = case.get("noise") if isinstance(case, dict) else None
        return mod.run(case)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def describe(e):
    if isinstance(e, base.Violation):
        return str(e)
    tb = traceback.extract_tb(e.__traceback__)
    at = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])
    return "%s: %s (at %s)" % (type(e).__name__, str(e)[:500], at)


def digest(case):
    return hashlib.sha1(repr(case).encode()).hexdigest()[:16]


def worker(mod, shard, nshards, tier, seed, outdir, soft_s, factor):
    import hypothesis
    from hypothesis import strategies as st

    from . import ref
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    t0 = time.time()
    res = {"evaluations": 0, "nontrivial": [], "tags": {}, "samples": [], "failure": None, "stopped": False,
           "seconds": 0.0}
    seen, tags, history = set(), collections.Counter(), collections.deque(maxlen=400)
    state = {"best": None, "fail_at": None}
    stopfile = os.path.join(outdir, "stop")

    def one(case):
        if state["fail_at"] is None:
            if time.time() - t0 > soft_s or os.path.exists(stopfile):
                raise Deadline()
            history.append(case)
            res["evaluations"] += 1
        elif time.time() - state["fail_at"] > (40 if tier == "quick" else 120):
            raise StopShrinking()
        try:
            nontrivial, t = run_case(mod, case)
        except base.Invalid:
            return
        except Exception as e:
            if isinstance(e, base.HarnessError):
                raise StopShrinking() from e
            cand = (len(repr(case)), case, describe(e))
            if state["best"] is None:
                state["history"] = list(history)
            if state["best"] is None or cand[0] <= state["best"][0]:
                state["best"] = cand
            state["fail_at"] = state["fail_at"] or time.time()
            if isinstance(e, (base.NoAnswer, MemoryError)) or os.environ.get("PBT_FAST"):
                raise StopShrinking()
            raise
        if state["fail_at"] is None and nontrivial:
            h = digest(case)
            if h not in seen:
                seen.add(h)
                tags.update(set(t))
                if len(res["samples"]) < 3 and len(seen) % 7 == 3:
                    r = repr(case)
                    res["samples"].append(r if len(r) <= 900 else r[:900] + " ...")

    try:
        for i, case in enumerate(getattr(mod, "EXPLICIT", [])):
            if i % nshards == shard:
                try:
                    one(case)
                except Exception:
                    break
        if state["fail_at"] is None:
            per_shard = max(1, int(mod.N * factor) // nshards)
            big = getattr(mod, "BIG", 0.4)
            spike = getattr(mod, "SPIKE", 0)

            @st.composite
            def cases(draw):
                mode = draw(st.integers(0, 99))
                if mode < 100 - int(100 * big):
                    d = base.D(draw=draw)
                else:
                    scale = draw(st.integers(1, 4))
                    rnd = random.Random(draw(st.integers(0, 2 ** 64 - 1)))
                    d = base.D(rnd=rnd, scale=scale, spike=spike if spike and scale == 4 and rnd.random() < 0.15 else 0)
                case = mod.gen(d)
                if getattr(mod, "NOISE", "") and isinstance(case, dict):
                    case["noise"] = ref.noise(d, mod.NOISE)
                return case

            done = 0
            rounds = 0
            # several seeded rounds, so that one unlucky seed can't narrow the search
            while done < per_shard and state["fail_at"] is None:
                k = min(per_shard - done, 1500)

                @hypothesis.seed((seed * 1000003 + shard) * 1009 + rounds)
                @hypothesis.settings(max_examples=k, database=None, deadline=None, print_blob=False,
                                     report_multiple_bugs=False, verbosity=hypothesis.Verbosity.quiet,
                                     suppress_health_check=list(hypothesis.HealthCheck),
                                     phases=[hypothesis.Phase.generate, hypothesis.Phase.shrink])
                @hypothesis.given(cases())
                def search(case):
                    one(case)
                try:
                    search()
                except Exception as e:
                    if state["fail_at"] is None:
                        res["error"] = "".join(traceback.format_exception(e))[-4000:]
                        break
                done += k
                rounds += 1
    except Deadline:
        res["stopped"] = True
    except StopShrinking as e:
        if isinstance(e.__cause__, base.HarnessError):
            res["error"] = "".join(traceback.format_exception(e.__cause__))[-4000:]
    except BaseException as e:  # noqa
        res["error"] = "".join(traceback.format_exception(e))[-4000:]
    if state["best"] is not None:
        open(stopfile, "w").close()
        res["failure"] = {"case": repr(state["best"][1]), "message": state["best"][2],
                          "history": [repr(c) for c in state["history"]]}
        res.pop("error", None)
    res["nontrivial"] = sorted(seen)
    res["tags"] = dict(tags)
    res["seconds"] = time.time() - t0
    with open(os.path.join(outdir, "%d.json" % shard), "w") as f:
        json.dump(res, f)


def load_module(pid):
    return importlib.import_module("pbt.props." + pid.lower())


def read_findings(here, pid):
    """KNOWN_FINDINGS.txt: 'known: property=ID case=<literal> what=<text>' and 'fixed: property=ID commit text'."""
    out = []
    path = os.path.join(here, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                what, case = line.split(" what=", 1)[1].split(" case=", 1)
                out.append((what, ast.literal_eval(case)))
    return out


def write_replay(here, pid, cases, message):
    d = os.path.join(here, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, digest(cases)))
    with open(path, "w") as f:
        json.dump({"property": pid, "message": message, "cases": cases}, f, indent=1)
    return path


def replays(here, pid, path):
    """Does the replay file fail in a fresh process?"""
    env = dict(os.environ)
    r = subprocess.run([sys.executable, "-B", "-W", "ignore", os.path.join(here, "run.py"), pid, "--replay", path],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return r.returncode == 1


def do_replay(mod, pid, path):
    data = json.load(open(path))
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    for i, c in enumerate(data["cases"]):
        case = ast.literal_eval(c)
        try:
            run_case(mod, case)
        except base.HarnessError:
            raise
        except Exception as e:
            print("case %d of %d: %s" % (i + 1, len(data["cases"]), c[:2000]))
            print(describe(e))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
    print("the replay does not fail")
    return 0


def main(argv, here):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--factor", type=float, default=None, help="multiplies the number of cases")
    ap.add_argument("--shards", type=int, default=8)
    a = ap.parse_args(argv)
    pid = a.id.upper()
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="pbt-")
    os.environ["MPLCONFIGDIR"] = os.path.join(tmp, "mpl")
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    os.chdir(tmp)  # nothing the code under test writes by a relative name lands in /verif or /repo
    try:
        find_hypothesis(tmp)
        sys.path.insert(0, base.REPO)
        import netomaton
        if not os.path.realpath(netomaton.__file__).startswith(os.path.realpath(base.REPO) + os.sep):
            print("netomaton was imported from %s" % netomaton.__file__)
            return 2
        mod = load_module(pid)
        if a.replay:
            return do_replay(mod, pid, os.path.join(here, a.replay))
        return search(mod, pid, a, here, tmp, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(tmp, ignore_errors=True)


def search(mod, pid, a, here, tmp, t0):
    quick = a.tier == "quick"
    soft = float(os.environ.get("PBT_SOFT_S") or (100 if quick else 660))
    factor = a.factor if a.factor is not None else (2.0 if quick else float(getattr(mod, "THOROUGH", 25)))
    known_failing = []
    rc = 0
    lines = []
    for what, case in read_findings(here, pid):
        try:
            run_case(mod, case)
        except Exception:
            known_failing.append(what)
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, what))

    outdir = os.path.join(tmp, "out")
    os.mkdir(outdir)
    pids = []
    sys.stdout.flush()
    for s in range(a.shards):
        p = os.fork()
        if p == 0:
            code = 3
            try:
                os.setpgid(0, 0)
                worker(mod, s, a.shards, a.tier, a.seed, outdir, soft, factor)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids.append(p)
    hard = t0 + soft + 130
    left = set(pids)
    while left and time.time() < hard:
        for p in list(left):
            q, _ = os.waitpid(p, os.WNOHANG)
            if q:
                left.discard(p)
        time.sleep(0.05)
    for p in left:
        try:
            os.kill(p, signal.SIGKILL)
            os.waitpid(p, 0)
        except OSError:
            pass

    results, errors = [], []
    for s in range(a.shards):
        f = os.path.join(outdir, "%d.json" % s)
        if os.path.exists(f):
            r = json.load(open(f))
            results.append(r)
            if r.get("error"):
                errors.append(r["error"])
        else:
            errors.append("shard %d gave no result" % s)
    failures = sorted((r["failure"] for r in results if r["failure"]), key=lambda f: len(f["case"]))
    violations = 0
    if failures:
        f = failures[0]
        violations = len(failures)
        rc = 1
        if os.environ.get("PBT_FAST"):     # tools/mutate.py only wants to know whether anything fails
            print("FAST:", f["message"][:300])
            return 1
        path = None
        for g in failures:
            p = write_replay(here, pid, [g["case"]], g["message"])
            if replays(here, pid, p):
                path, f = p, g
                break
            os.unlink(p)
        if path is None:
            # not reproducible on its own: it needs what ran before it in the same process
            f = min(failures, key=lambda f: len(f["history"]))
            hist, k = f["history"], 1
            while path is None:
                p = write_replay(here, pid, hist[-k:], f["message"])
                if replays(here, pid, p) or k >= len(hist):
                    path = p
                    break
                os.unlink(p)
                k = min(2 * k, len(hist))
        lines.append("failing case: %s" % f["case"][:3000])
        lines.append("what failed: %s" % f["message"][:3000])
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
    elif errors:
        rc = 2
        lines.append("the check itself failed:\n" + errors[0])

    distinct, tags, samples = set(), collections.Counter(), []
    for r in results:
        new = set(r["nontrivial"]) - distinct
        distinct |= new
        tags.update(r["tags"])
        samples.extend(r["samples"])
    evals = sum(r["evaluations"] for r in results)
    if rc == 0 and (evals == 0 or len(distinct) < getattr(mod, "MIN_DISTINCT", 20)):
        rc = 2
        lines.append("the search explored too little: %d evaluations, %d distinct non-trivial" % (evals, len(distinct)))
    samples.sort(key=len)
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(distinct),
            "rule": " ".join(mod.RULE.split()),
            "samples": samples[:1] + samples[len(samples) // 2:len(samples) // 2 + 2] + samples[-1:],
            "tags": dict(sorted(tags.items())),
            "shards": a.shards,
            "shards_stopped_by_time": sum(1 for r in results if r["stopped"]),
            "known_findings_confirmed": known_failing,
        },
        "assumptions": [" ".join(x.split()) for x in getattr(mod, "ASSUMES", [])],
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    with open(os.path.join(here, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for ln in lines:
        print(ln)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s, %s" % (
        pid, a.tier, a.seed, evals, len(distinct), time.time() - t0,
        "held" if rc == 0 else "BROKEN" if rc == 1 else "check error"))
    sys.stdout.flush()
    return rc
