"""valuecov.py ID [N [REGEX]]: which kinds of values the parameters of the package's functions take in N generated cases of a check.
Prints, per function and parameter, the percentage of the calling cases in which each kind of value occurs; to be read by hand
for kinds of values that the property speaks of and that never (or hardly ever) occur."""
import collections
import os
import random
import sys

ENV = {"MPLBACKEND": "Agg", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1"}
if os.environ.get("VC_CHILD") != "1":
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", "-B", "-W", "ignore"] + sys.argv, dict(os.environ, VC_CHILD="1", **ENV))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, "/repo")
import tempfile  # noqa: E402
tmp = tempfile.mkdtemp(prefix="vc-")
os.chdir(tmp)
from pbt import engine, base, ref  # noqa: E402
import importlib  # noqa: E402
import types  # noqa: E402
import numpy as np  # noqa: E402

PKG = os.path.realpath("/repo/netomaton") + "/"


def bucket(n):
    for hi, s in ((0, "0"), (1, "1"), (2, "2"), (3, "3"), (6, "4-6"), (12, "7-12"), (30, "13-30"), (100, "31-100"), (1000, "101-1k")):
        if n <= hi:
            return s
    return ">1k"


def feats(v, depth=0):
    t = type(v)
    if v is None:
        return ["None"]
    if t is bool:
        return ["bool %s" % v]
    if isinstance(v, np.generic):
        return ["np." + t.__name__]
    if t is int:
        if v < 0:
            return ["int<0" if v >= -100 else "int<-100"]
        return ["int " + (bucket(v) if v <= 1000 else "1k-2^31" if v < 2 ** 31 else "2^31-2^63" if v < 2 ** 63 else ">2^63")]
    if t is float:
        if v != v:
            return ["nan"]
        if v in (float("inf"), -float("inf")):
            return ["inf"]
        if v == 0:
            return ["0.0"]
        return ["float" + ("<0" if v < 0 else "") + (" whole" if v == int(v) else " frac") + (" small" if abs(v) < 1e-3 else " large" if abs(v) > 1e6 else "")]
    if t is str:
        return ["str " + ("empty" if not v else "1" if len(v) == 1 else "many" if len(v) < 12 else "long") + (" nonascii" if not v.isascii() else "")]
    if isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        out = [t.__name__ + " len " + bucket(len(v))]
        if depth < 2:
            for x in list(v)[:60]:
                out += [t.__name__ + " of " + f for f in feats(x, depth + 1) if depth == 0 or " of " not in f]
            try:
                if len(set(v)) < len(v):
                    out.append(t.__name__ + " with duplicates")
            except TypeError:
                pass
        return out
    if isinstance(v, dict):
        out = [t.__name__ + " len " + bucket(len(v))]
        if depth < 2:
            for k, x in list(v.items())[:60]:
                out += ["dict key " + f for f in feats(k, 2)]
                out += ["dict value " + f for f in feats(x, depth + 1) if depth == 0 or " of " not in f]
        return out
    if isinstance(v, np.ndarray):
        return ["array %s %dd" % (v.dtype, v.ndim), "array size " + bucket(v.size)]
    if isinstance(v, ref.ntm.Network):
        out = ["Network len " + bucket(len(v))]
        if v.rotation_system is not None:
            out.append("Network with rotation")
        return out
    if isinstance(v, types.FunctionType):
        return ["function"]
    return [t.__name__]


def main():
    pid, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 400
    mod = engine.load_module(pid)
    got = collections.defaultdict(collections.Counter)      # (function, parameter) -> feature -> cases
    ncases = collections.Counter()
    here = {}

    def prof(frame, event, arg):
        if event != "call":
            return
        co = frame.f_code
        f = co.co_filename
        if not f.startswith(PKG) or co.co_name.startswith("<"):
            return
        key = f[len(PKG):-3] + ":" + getattr(co, "co_qualname", co.co_name)
        cnt = here.setdefault(key, [0, {}])
        cnt[0] += 1
        if cnt[0] > 60:
            return
        for p in co.co_varnames[:co.co_argcount + co.co_kwonlyargcount]:
            if p in frame.f_locals:
                v = frame.f_locals[p]
                if p == "self":
                    continue
                cnt[1].setdefault(p, set()).update(feats(v))
    rnd0 = random.Random(5)
    for i in range(n):
        scale = rnd0.randint(1, 4)
        rnd = random.Random(rnd0.getrandbits(60))
        spike = getattr(mod, "SPIKE", 0)
        d = base.D(rnd=rnd, scale=scale, spike=spike if spike and scale == 4 and rnd.random() < 0.15 else 0)
        case = mod.gen(d)
        if getattr(mod, "NOISE", "") and isinstance(case, dict):
            case["noise"] = ref.noise(d, mod.NOISE)
        here.clear()
        sys.setprofile(prof)
        try:
            engine.run_case(mod, case)
        except base.Invalid:
            pass
        finally:
            sys.setprofile(None)
        for k, (c, ps) in here.items():
            ncases[k] += 1
            got[k, "calls"][bucket(c)] += 1
            for p, fs in ps.items():
                for f in fs:
                    got[k, p][f] += 1
    import re
    for k in sorted(ncases):
        if len(sys.argv) > 3 and not re.search(sys.argv[3], k):
            continue
        print("%s  [%d of %d cases]" % (k, ncases[k], n))
        for (kk, p), c in got.items():
            if kk == k:
                print("    %s: %s" % (p, ", ".join("%s %.3g%%" % (f, 100.0 * x / ncases[k]) for f, x in sorted(c.items()))))


main()
