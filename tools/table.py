"""table.py [ID...]: every planted bug in a scratch copy against the check of its property (quick, seed 1); prints DESIGN.md's table."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

S = "/verif/seeded"


def one(i):
    meta = json.load(open("%s/%s/meta.json" % (S, i)))
    d = "/tmp/table_" + i
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo/netomaton", d + "/netomaton", ignore=shutil.ignore_patterns("__pycache__"))
    p = subprocess.run(["patch", "-sp1", "-i", "%s/%s/patch.diff" % (S, i)], cwd=d)
    assert p.returncode == 0, i
    x = subprocess.run(["python3", "/verif/run.py", meta["property"]], env=dict(os.environ, VERIF_REPO=d, PBT_FAST="1"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(d)
    return i, meta, x.returncode, x.stdout


def main():
    ids = sys.argv[1:] or sorted(os.listdir(S))
    with ThreadPoolExecutor(2) as ex:
        for i, meta, rc, out in ex.map(one, ids):
            print("| %s | %s | %s | %s |" % (i, meta["property"], meta["needs"].replace("|", "/"), {1: "yes", 0: "**no**"}.get(rc, "error %d" % rc)), flush=True)


main()
