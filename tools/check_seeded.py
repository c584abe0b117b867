"""Check every seeded patch: applies to HEAD, and which of the lines it changes are lines of the original repository."""
import os, re, subprocess, sys
R = "/repo"
base = "33b52e0"
def sh(*a, inp=None):
    return subprocess.run(a, cwd=R, capture_output=True, text=True, input=inp)
for s in sorted(os.listdir("/verif/seeded")):
    d = "/verif/seeded/" + s
    fs = set(os.listdir(d))
    if not {"patch.diff", "demo.sh", "meta.json"} <= fs:
        print(s, "INCOMPLETE", fs); continue
    a = sh("git", "apply", "--check", d + "/patch.diff")
    if a.returncode:
        print(s, "DOES NOT APPLY", a.stderr.strip()[:150]); continue
    cur = None; mine = orig = adds = 0
    for l in open(d + "/patch.diff"):
        m = re.match(r"\+\+\+ b/(.*)", l)
        if m:
            cur = sh("git", "show", base + ":" + m.group(1).strip()).stdout.splitlines(); continue
        if l.startswith("---") or l.startswith("diff"): continue
        if l.startswith("-"):
            if l[1:].rstrip("\n") in cur: orig += 1
            else: mine += 1
        elif l.startswith("+"): adds += 1
    if mine or not orig:
        print(s, "original lines removed:", orig, "lines of fixes removed:", mine, "added:", adds)
