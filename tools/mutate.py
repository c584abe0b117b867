"""mutate.py FILE[,FILE...] [--factor F] [--jobs N] [--out LOG] [--lines A-B] : every small mutation (one operator, constant, condition,
statement) of the given files of the package, in scratch copies, against the checks of the parts that the file implements;
prints those that no check reports (to be judged by hand: equivalent, outside of every property, or a gap)."""
import ast
import copy
import difflib
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import queue

VERIF, REPO = "/verif", "/repo"
MAP = {
    "evolution.py": "C01 C02 C07 C03 C05 C04 C34 C09 C06 C08 C13",
    "state.py": "C10 C11 C12 C07 C08 C05 C02 C09 C01",
    "utils.py": "C34 C36 C03 C37 C35",
    "analysis.py": "C33", "asynchronous_rule.py": "C20", "ctrbl_rule.py": "C22 C23", "fungal_growth_model.py": "C30",
    "hexplot.py": "C36 C15", "hopfield_net.py": "C31", "hopfield_tank_tsp_net.py": "C32", "langtons_loop.py": "C23",
    "reversible_rule.py": "C21", "rule_tables.py": "C25 C26", "sandpile.py": "C24", "substitution_system.py": "C28",
    "turing_machine.py": "C27", "turtle.py": "C35", "wolfram_physics_model.py": "C29", "rules/activity_rule.py": "C17 C18 C19 C25 C26",
    "topology/adjacency.py": "C14 C15 C12", "topology/networks.py": "C16 C14 C15 C12", "vis/vis_utils.py": "C37 C36",
}
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add, ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div, ast.Mult],
       ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult], ast.BitXor: [ast.BitOr], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd],
       ast.LShift: [ast.RShift], ast.RShift: [ast.LShift]}


def mutants(src):
    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            b = n.body
            if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
                skip.add(id(b[0]))
                skip.add(id(b[0].value))
        if isinstance(n, ast.Raise):
            for x in ast.walk(n):
                skip.add(id(x))
        if isinstance(n, ast.JoinedStr):
            for x in ast.walk(n):
                skip.add(id(x))
    nodes = [n for n in ast.walk(tree)]
    out = []

    def emit(node, what, change):
        """change(copy of node's counterpart) on a deep copy of the tree."""
        out.append((getattr(node, "lineno", 0), what, node, change))

    for n in nodes:
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    emit(n, "cmp", lambda m, k=k, new=new: m.ops.__setitem__(k, new()))
        elif isinstance(n, ast.BinOp):
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant):
                continue
            for new in BIN.get(type(n.op), []):
                emit(n, "bin", lambda m, new=new: setattr(m, "op", new()))
            if isinstance(n.op, (ast.Sub, ast.Div, ast.FloorDiv, ast.Mod)):
                def sw(m):
                    m.left, m.right = m.right, m.left
                emit(n, "swap", sw)
        elif isinstance(n, ast.AugAssign):
            for new in BIN.get(type(n.op), []):
                emit(n, "aug", lambda m, new=new: setattr(m, "op", new()))
        elif isinstance(n, ast.BoolOp):
            emit(n, "bool", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for k in range(len(n.values)):
                emit(n, "dropterm", lambda m, k=k: m.values.pop(k))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            emit(n, "unary", lambda m: setattr(m, "op", ast.UAdd()) if isinstance(m.op, ast.USub) else setattr(m, "__class__", m.__class__) or setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand)))
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                emit(n, "const", lambda m, v=v: setattr(m, "value", not v))
            elif isinstance(v, (int, float)):
                emit(n, "const", lambda m, v=v: setattr(m, "value", v + 1))
                if v:
                    emit(n, "const", lambda m, v=v: setattr(m, "value", v - 1))
            elif isinstance(v, str):
                emit(n, "const", lambda m, v=v: setattr(m, "value", "XX" + v))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            emit(n, "neg", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test)))
        elif isinstance(n, ast.comprehension) and n.ifs:
            emit(n, "dropif", lambda m: setattr(m, "ifs", []))
        elif isinstance(n, ast.Break):
            emit(n, "brk", lambda m: None)
        elif isinstance(n, ast.Call):
            if n.keywords:
                for k in range(len(n.keywords)):
                    emit(n, "dropkw", lambda m, k=k: m.keywords.pop(k))
            name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ""
            if len(n.args) == 1 and not n.keywords and name in ("deepcopy", "copy", "list", "tuple", "set", "sorted", "int", "float", "str", "abs", "reversed", "dict", "array", "round"):
                emit(n, "unwrap", lambda m: ("replace", m.args[0]))
            if len(n.args) == 2 and not n.keywords:
                emit(n, "swapargs", lambda m: m.args.reverse())
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)):
            pass
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Continue, ast.Break, ast.Raise)):
            emit(n, "drop", lambda m: ("replace", ast.Pass()))
        if isinstance(n, ast.Return) and n.value is not None:
            emit(n, "retnone", lambda m: setattr(m, "value", None))

    seen = set()
    base = ast.unparse(tree)
    for line, what, node, change in out:
        t, target = clone(tree, node)
        r = change(target)
        if isinstance(r, tuple):
            if not replace(t, target, r[1]):
                continue
        try:
            ast.fix_missing_locations(t)
            new = ast.unparse(t)
            ast.parse(new)
        except Exception:
            continue
        if new == base or new in seen:
            continue
        seen.add(new)
        yield line, what, base, new


def clone(tree, node):
    ids = [id(n) for n in ast.walk(tree)]
    k = ids.index(id(node))
    t = copy.deepcopy(tree)
    for i, n in enumerate(ast.walk(t)):
        if i == k:
            return t, n


def replace(t, target, new):
    for p in ast.walk(t):
        for f, v in ast.iter_fields(p):
            if v is target:
                setattr(p, f, new)
                return True
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if x is target:
                        v[i] = new
                        return True
    return False


def delta(a, b):
    return " | ".join(l.strip() for l in difflib.unified_diff(a.split("\n"), b.split("\n"), lineterm="", n=0)
                      if l[0] in "+-" and l[:3] not in ("+++", "---"))


def main():
    args = sys.argv[1:]
    opt = {"--factor": "0.3", "--jobs": "8", "--out": "", "--lines": "", "--checks": ""}
    pos = []
    while args:
        a = args.pop(0)
        if a in opt:
            opt[a] = args.pop(0)
        else:
            pos.append(a)
    slots = queue.Queue()
    for i in range(int(opt["--jobs"])):
        d = "/tmp/mut/%d_%d" % (os.getpid(), i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree("/repo/netomaton", d + "/repo/netomaton", ignore=shutil.ignore_patterns("__pycache__"))
        os.makedirs(d + "/verif")
        for f in ("run.py", "KNOWN_FINDINGS.txt"):
            shutil.copy(VERIF + "/" + f, d + "/verif")
        shutil.copytree(VERIF + "/pbt", d + "/verif/pbt", ignore=shutil.ignore_patterns("__pycache__"))
        slots.put(d)
    log = open(opt["--out"], "a") if opt["--out"] else sys.stdout
    jobs = []
    for f in pos[0].split(","):
        src = open("/repo/netomaton/" + f).read()
        for line, what, b, new in mutants(src):
            if opt["--lines"]:
                lo, hi = map(int, opt["--lines"].split("-"))
                if not lo <= line <= hi:
                    continue
            jobs.append((f, line, what, b, new))
    print(len(jobs), "mutants", file=log, flush=True)

    def one(job):
        f, line, what, b, new = job
        d = slots.get()
        try:
            path = d + "/repo/netomaton/" + f
            orig = open("/repo/netomaton/" + f).read()
            open(path, "w").write(new)
            env = dict(os.environ, VERIF_REPO=d + "/repo", PBT_FAST="1", VERIF_TIER="quick", VERIF_SEED="1", PBT_SOFT_S="90")
            tail = ""
            for pid in (opt["--checks"] or MAP[f]).split():
                r = subprocess.run(["python3", "run.py", pid, "--shards", "1", "--factor", opt["--factor"]], cwd=d + "/verif", env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 1:
                    return "k"
                if r.returncode not in (0,):
                    if "explored too little" in r.stdout:
                        continue
                    tail = r.stdout.strip().split("\n")[-2:]
                    return "E %s:%d %s %s: %s" % (f, line, what, delta(b, new)[:300], str(tail)[:200])
            open(path, "w").write(orig)
            return "S %s:%d %s %s" % (f, line, what, delta(b, new)[:400])
        finally:
            open(d + "/repo/netomaton/" + f, "w").write(open("/repo/netomaton/" + f).read())
            slots.put(d)

    k = s = 0
    with ThreadPoolExecutor(int(opt["--jobs"])) as ex:
        for r in ex.map(one, jobs):
            if r == "k":
                k += 1
            else:
                s += 1
                print(r, file=log, flush=True)
    print("%s: %d killed, %d not" % (pos[0], k, s), file=log, flush=True)
    while not slots.empty():
        shutil.rmtree(os.path.abspath(slots.get()), ignore_errors=True)


main()
