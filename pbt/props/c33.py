"""C33: information measures."""
import collections
import math

import numpy as np

from .. import ref
from ..base import check, close, eq, raises, short
from ..ref import ntm

RULE = """A case is a pair of strings of equal length (independent, equal, one a function of the other, constant, with any characters),
or a matrix of activities (numbers, floats, one- or multi-character strings; as lists, an array, or a trajectory of an
evolution) with a temporal distance; the measures are compared with their definitions (tolerance 1e-9), and with the
bounds, symmetry and error conditions. Non-trivial: at least two symbols."""
N = 5000
SPIKE = 20
NOISE = "cp"
TOL = 1e-9

# long strings, some of whose symbols come late
EXPLICIT = [{"x": x, "y": y} for n in (300, 1500, 6000, 40000, 80000)
            for x, y in [("0" * n + "1" * n, "01" * n), ("ab" * n, "a" * (2 * n - 1) + "z"), ("cab" * n, "c" * n + "a" * n + "b" * n)]]


def gen(d):
    if d.bool(0.5):
        n = d.size(1, 12, 60)
        alpha = d.choice(["01", "0", "abc", "0123456789", "aB1 \n.é*[", "01x"])
        a = "".join(d.choice(alpha) for _ in range(n))
        b = d.choice(["".join(d.choice(alpha) for _ in range(n)), a, "".join("xy"[alpha.index(c) % 2] for c in a),
                      "z" * n, a[1:] + a[0]])
        if d.big and d.bool(0.15):      # long strings of many, rare symbols
            k = d.int(10, 20)
            a = "".join(chr(97 + i % k) for i in range(k * k))
            b = "".join(d.shuffle([chr(97 + i // k) for i in range(k * k)])) if d.bool() else "".join(chr(97 + i // k) for i in range(k * k))
        return {"x": a, "y": b}
    T, n = d.size(1, 8, 30), d.size(1, 5, 12)
    pool = d.choice([[0, 1], [0, 1, 2, 10, 1], [0.5, 1.25, -3.0], ["a", "b"], ["aa", "b", "ab", "bb"], [-1, 1], [10, 1, 0, 110], [True, False], [1 / 3, 0.1234567891, 0.123456789, 0.12345678912], ["aaaaaaaaaaaaaaaaaaaaa%d" % i for i in range(3)], [10 ** 12, 10 ** 12 + 1, 10 ** 11]])
    rows = [[d.choice(pool) for _ in range(n)] for _ in range(T)]
    if d.bool(0.3):     # correlated over time
        k = d.int(1, T)
        for t in range(k, T):
            rows[t] = list(rows[t - k])
    return {"rows": rows, "d": d.choice([None, 1, d.int(1, max(1, T - 1)), d.int(1, max(1, T - 1)), 0, -1, T, T + 1, T - 1]),
            "form": d.choice(["list", "list", "array", "traj"])}


def entropy(xs):
    n = len(xs)
    return -sum(c / n * math.log2(c / n) for c in collections.Counter(xs).values())


def mi(xs, ys):
    return entropy(xs) + entropy(ys) - entropy(list(zip(xs, ys)))


def run(case):
    if "x" in case:
        x, y = case["x"], case["y"]
        hx, hy = ntm.shannon_entropy(x), ntm.shannon_entropy(y)
        close(hx, entropy(x), "shannon_entropy(%s)" % short(x), TOL)
        close(hy, entropy(y), "shannon_entropy(%s)" % short(y), TOL)
        check(-TOL <= hx <= math.log2(len(set(x))) + TOL, "shannon_entropy(%s) is %r", short(x), hx)
        check(str(hx) != "-0.0", "shannon_entropy(%s) is -0.0", short(x))
        j = ntm.joint_shannon_entropy(x, y)
        close(j, entropy(list(zip(x, y))), "joint_shannon_entropy(%s, %s)" % (short(x), short(y)), TOL)
        close(ntm.joint_shannon_entropy(y, x), float(j), "joint_shannon_entropy the other way round", TOL)
        m = ntm.mutual_information(x, y)
        close(m, mi(x, y), "mutual_information(%s, %s)" % (short(x), short(y)), TOL)
        close(ntm.mutual_information(y, x), float(m), "mutual_information the other way round", TOL)
        check(-TOL <= m <= min(hx, hy) + TOL, "mutual_information(%s, %s) is %r, the entropies %r and %r", short(x), short(y), m, hx, hy)
        close(ntm.mutual_information(x, x), hx, "mutual_information(%s, itself)" % short(x), TOL)
        return len(set(x)) >= 2, ["strings"]
    rows, dist = case["rows"], case["d"]
    T, n = len(rows), len(rows[0])
    given = rows
    if case["form"] == "array" and not isinstance(rows[0][0], bool):
        given = np.array(rows)
    elif case["form"] == "traj":
        net = ref.build({"nodes": list(range(n)), "edges": []})
        given = ref.evolve(network=net, initial_conditions=rows[0], timesteps=T,
                           activity_rule=lambda ctx: rows[ctx.timestep][ctx.node_label])
        eq([[s.activities[v] for v in range(n)] for s in given], rows, "evolution")
    copy = [list(r) for r in rows]
    cols = [[r[i] for r in rows] for i in range(n)]
    what = "%s %r" % (case["form"], rows)
    close(ntm.average_node_entropy(given), sum(entropy(c) for c in cols) / n, "average_node_entropy of " + what, TOL)
    k = 1 if dist is None else dist
    args = {} if dist is None else {"temporal_distance": dist}
    if not 0 < k < T:
        raises(lambda: ntm.average_mutual_information(given, **args), "temporal distance %d of %d timesteps" % (k, T))
    else:
        close(ntm.average_mutual_information(given, **args), sum(mi(c[:-k], c[k:]) for c in cols) / n,
              "average_mutual_information(%s, %d)" % (what, k), TOL)
    raises(lambda: ntm.average_node_entropy([]), "average_node_entropy of no activities")
    raises(lambda: ntm.average_mutual_information([]), "average_mutual_information of no activities")
    eq(rows, copy, "the given activities afterwards")
    return any(len(set(c)) > 1 for c in cols), [case["form"], type(rows[0][0]).__name__,
                                                "distance ok" if 0 < k < T else "distance out of range"]
