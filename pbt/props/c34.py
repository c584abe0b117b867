"""C34: initial conditions and data helpers."""
import math

import numpy as np

from .. import ref
from ..base import check, eq, raises
from ..ref import ntm

RULE = """A case is a helper and its arguments: init_simple, init_simple2d, init_random (sizes, values, types, seeds, also with an
invalid n_randomized), get_activities_over_time_as_list (labels of any order, activities stored or not), ncr (up to 300,
also invalid) and binarize_for_plotting (up to 60 bits). The results are compared with their definitions; init_random
also with a second call from the same random state. Non-trivial: a size of at least 3."""
N = 8000
NOISE = "cp"


def gen(d):
    kind = d.choice(["simple", "simple2d", "random", "random", "list", "ncr", "binarize"])
    c = {"kind": kind, "spoil": d.bool(0.2)}
    if kind in ("simple", "simple2d"):
        c.update(dims=[d.size(1, 9, 60) for _ in range(1 if kind == "simple" else 2)], val=d.choice([None, 1, 5, -2, 0, 2.5, 80000.0]),
                 dtype=d.choice([None, "int", "float"]))
        if isinstance(c["val"], float):
            c["dtype"] = "float"
    elif kind == "random":
        size = d.size(1, 12, 400)
        c.update(size=size, k=d.choice([None, 2, 1, 3, 4, 10]), n=d.choice([None, 0, 1, size, d.int(0, size), d.int(0, size), size + 1, -1]),
                 empty=d.choice([None, 0, 7, -1]), dtype=d.choice([None, "int", "float", "int32", "float32"]), seed=d.seed())
    elif kind == "list":
        n = d.size(1, 6, 15) if not d.bool(0.08) else d.int(16, 150)
        lab = d.choice([d.shuffle(range(n)), ["n%02d" % i for i in d.shuffle(range(n))], ["%s%d" % ("ab"[i % 2], i * 7) for i in d.shuffle(range(n))], [(i // 3, i) for i in d.shuffle(range(n))],
                        d.sample(range(-n - 15, 2 * n + 30), n)])
        c.update(lab=lab, steps=d.int(1, 5), persist=d.bool(0.8), comp=d.bool(0.3), str=d.bool(0.3))
    elif kind == "ncr":
        hi = d.choice([6, 40, 300])
        c.update(n=d.choice([d.int(0, hi), d.int(0, hi), -1, 2.0, "3", 0]), r=d.choice([d.int(0, hi), d.int(0, 6), -2, 1.5, 0]))
    else:
        c.update(nums=[d.int(0, 2 ** d.choice([1, 4, 10, 60])) for _ in range(d.size(1, 6, 20))], np=d.bool(0.2))
    return c


DT = {None: None, "int": int, "float": float, "int32": np.int32, "float32": np.float32}


def plain(xs, what):
    check(isinstance(xs, list) and all(type(x) in (int, float) for x in xs), "%s: not a list of plain numbers: %r", what, xs)


def run(case):
    kind = case["kind"]
    if kind in ("simple", "simple2d"):
        kw = {}
        if case["val"] is not None:
            kw["val"] = case["val"]
        if case["dtype"]:
            kw["dtype"] = DT[case["dtype"]]
        dims = case["dims"]
        fn = ntm.init_simple if kind == "simple" else ntm.init_simple2d
        if case.get("spoil"):
            ref.spoil(fn(*dims, **kw))
        got = fn(*dims, **kw)
        what = "init_%s(%r, %r)" % (kind, dims, kw)
        plain(got, what)
        mid = dims[0] // 2 if kind == "simple" else (dims[0] // 2) * dims[1] + dims[1] // 2
        want = [0] * (dims[0] if kind == "simple" else dims[0] * dims[1])
        want[mid] = 1 if case["val"] is None else case["val"]
        eq(got, want, what)
        return len(want) >= 3, [kind]
    if kind == "random":
        size, k, n, dt = case["size"], case["k"] or 2, case["n"], case["dtype"]
        kw = {a: v for a, v in (("k", case["k"]), ("n_randomized", n), ("empty_value", case["empty"]), ("dtype", DT[dt])) if v is not None}
        what = "init_random(%d, %r)" % (size, kw)
        if n is not None and not 0 <= n <= size:
            raises(lambda: ntm.init_random(size, **kw), what)
            return False, ["random out of range"]
        np.random.seed(case["seed"])
        got = ntm.init_random(size, **kw)
        plain(got, what)
        eq(len(got), size, what + ": size")
        n = size if n is None else n
        left = (size - n) // 2
        empty = case["empty"] or 0
        eq(got[:left], [empty] * left, what + ": left part")
        eq(got[left + n:], [empty] * (size - n - left), what + ": right part")
        mid = got[left:left + n]
        if dt in ("float", "float32"):
            check(all(0 <= x <= k - 1 for x in mid), "%s: %r", what, mid)
            if n >= 60 and k > 1:
                check(min(mid) < 0.5 * (k - 1) < max(mid), "%s: all on one side: %r", what, mid)   # 2 * 0.5^60
                check(len(set(mid)) > 2, "%s: too few values: %r", what, mid)
        else:
            check(all(type(x) is int and 0 <= x < k for x in mid), "%s: %r", what, mid)
            if k == 1 or n * -math.log1p(-1.0 / k) > math.log(1e13 * k):
                check(set(mid) == set(range(k)) or n == 0, "%s: not all states occur: %r", what, mid)
        np.random.seed(case["seed"])
        import random
        random.seed(3)
        eq(ntm.init_random(size, **kw), got, what + " from the same random state again")
        return size >= 3, ["random", str(dt)]
    if kind == "list":
        lab = case["lab"]
        n = len(lab)
        net = ref.build({"nodes": lab, "edges": []})
        val = (lambda t, v: "%s@%d" % (v, t)) if case["str"] else (lambda t, v: 100 * t + lab.index(v))
        traj = ref.evolve(network=net, initial_conditions={v: val(0, v) for v in lab}, timesteps=case["steps"],
                          activity_rule=lambda ctx: val(ctx.timestep, ctx.node_label), persist_activities=case["persist"],
                          compression=case["comp"])
        got = ntm.get_activities_over_time_as_list(traj)
        eq([list(r) for r in got], [[val(t, v) for v in sorted(lab)] for t in range(case["steps"] if case["persist"] else 1)],
           "get_activities_over_time_as_list for labels %r" % (lab,))
        return n >= 3, ["list"]
    if kind == "ncr":
        n, r = case["n"], case["r"]
        what = "ncr(%r, %r)" % (n, r)
        if not isinstance(n, int) or not isinstance(r, int) or n < 0 or r < 0:
            raises(lambda: ntm.ncr(n, r), what)
            return False, ["ncr invalid"]
        got = ntm.ncr(n, r)
        eq(got, math.comb(n, r), what)
        check(type(got) is int, "%s: %r", what, got)
        return n >= 3, ["ncr"]
    nums = case["nums"]
    given = [[np.int64(x)] if case["np"] else [x] for x in nums]
    got = ntm.binarize_for_plotting(given)
    w = max(len(bin(x)) - 2 for x in nums)
    eq([[int(b) for b in r] for r in got], [[int(b) for b in bin(x)[2:].zfill(w)] for x in nums], "binarize_for_plotting(%r)" % nums)
    return len(nums) >= 3, ["binarize"]
