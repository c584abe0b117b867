"""plant.py DEFS.py [IDs...]: builds the planted bugs of a definitions file (a list PLANTS of dictionaries: id, property,
edits [(file, old, new)], demo, needs, what_it_breaks), in scratch copies of /repo under /tmp: checks that the patch
applies, the package's stable tests pass and the demonstration passes without and fails with it; writes
/verif/seeded/<id>/ and says whether the property's quick check (and with --all, which other check) catches it."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = "/verif"
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
           NPY_DISABLE_CPU_FEATURES="AVX2 FMA3 AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL")
DEMO = """#!/bin/bash
export MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
export NPY_DISABLE_CPU_FEATURES="AVX2 FMA3 AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL"
exec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"
"""
STABLE = set(map(str, json.load(open("/opt/vp/BASELINE.json"))["stable"]))


def sh(cmd, cwd, timeout=900, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def tests(copy):
    xml = os.path.join(copy, "..", "junit.xml")
    sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 3 --dist worksteal --timeout=300 -W ignore --tb=short "
       "--continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s tests" % xml, copy)
    import xml.etree.ElementTree as ET
    ok = set()
    for tc in ET.parse(xml).getroot().iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in tc):
            ok.add("%s::%s" % (tc.get("classname"), tc.get("name")))
    return sorted(STABLE - ok)


def one(p, skip_tests):
    base = "/tmp/plants/%s" % p["id"]
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    copy = base + "/repo"
    sh("cp -a /repo %s" % copy, "/")
    try:
        d = os.path.join(VERIF, "seeded", p["id"])
        demo = base + "/demo"
        os.makedirs(demo)
        open(demo + "/demo.sh", "w").write(DEMO)
        open(demo + "/demo.py", "w").write(p["demo"].strip() + "\n")
        r = sh("bash %s/demo.sh" % demo, copy, 280)
        if r.returncode != 0:
            return p["id"], "DEMO FAILS ON CLEAN: " + r.stdout[-300:]
        for f, old, new in p["edits"]:
            path = os.path.join(copy, "netomaton", f)
            s = open(path).read()
            if s.count(old) != 1:
                return p["id"], "EDIT %s: %d matches of %r" % (f, s.count(old), old)
            open(path, "w").write(s.replace(old, new))
        r = sh("bash %s/demo.sh" % demo, copy, 280)
        if r.returncode == 0:
            return p["id"], "DEMO PASSES WITH THE BUG"
        tail = r.stdout.strip().split("\n")[-1][:100]
        if not skip_tests:
            missing = tests(copy)
            if missing:
                return p["id"], "TESTS FAIL: %s" % missing[:4]
        diff = sh("git diff", copy).stdout
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        for f in ("demo.sh", "demo.py"):
            shutil.copy(demo + "/" + f, d + "/" + f)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["what_it_breaks"]}, open(d + "/meta.json", "w"), indent=1)
        env = dict(ENV, VERIF_REPO=copy, VERIF_SEED="1")
        v = base + "/verif"
        sh("mkdir %s && cp -a /verif/run.py /verif/pbt /verif/KNOWN_FINDINGS.txt %s/" % (v, v), "/")
        out = []
        for pid in [p["property"]] + p.get("also", []):
            hits = []
            for seed in (1, 2, 3):
                env["VERIF_SEED"] = str(seed)
                r = sh("python3 run.py %s" % pid, v, 900, env)
                hits.append({1: "caught", 0: "MISSED"}.get(r.returncode, "ERROR"))
                if r.returncode == 2:
                    out.append(r.stdout[-300:])
            out.append("%s %s" % (pid, "/".join(hits)))
        return p["id"], "; ".join(out) + "   [demo: %s]" % tail
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    ns = {}
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    exec(open(args[0]).read(), ns)
    todo = [p for p in ns["PLANTS"] if len(args) == 1 or p["id"] in args[1:]]
    with ThreadPoolExecutor(3) as ex:
        for pid, res in ex.map(lambda p: one(p, "--notests" in sys.argv), todo):
            print("%-28s %s" % (pid, res), flush=True)


main()
