"""C25: random rule tables."""
import math
import random

import numpy as np

from .. import ref
from ..base import check, eq, fail, raises
from ..ref import ntm

RULE = """A case is k (2..36), r (0..3, at most 5000 neighbourhood states), lambda (default, 0, 1 or in between), a quiescent state
(none, valid or invalid), the two flags and a random seed. The table's keys, values, actual lambda, quiescent state and
the constraints of the flags are checked, the number of quiescent entries against its distribution (error below 1e-12), and table_rule is evaluated on neighbourhoods of a network, with entries
removed for the error. Non-trivial: at least 8 entries."""
N = 4000
NOISE = "cmphfunk"
DIGITS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def gen(d):
    k = d.weighted([(2, 3), (3, 2), (4, 2), (5, 1), (10, 1), (11, 1), (d.int(2, 36), 2)])
    rmax = max(r for r in range(0, 4) if k ** (2 * r + 1) <= (5000 if d.big else 400) or r == 0)
    r = d.int(min(1, rmax), rmax) if d.bool(0.8) else 0
    lam = d.weighted([(None, 2), (0, 1), (0.0, 1), (1, 1), (1.0, 1), (d.int(0, 100) / 100.0, 4)])
    q = d.weighted([(None, 2), (0, 2), (d.int(0, k - 1), 4), (d.choice([-1, k, k + 3]), 1)])
    return {"k": k, "r": r, "lam": lam, "q": q, "strong": d.choice([True, False, None]), "iso": d.choice([True, False, None]),
            "seed": d.seed(), "look": [[d.int(0, k - 1) for _ in range(2 * r + 1)] for _ in range(4)], "np": d.bool(0.2)}


def key(cells):
    return "".join(DIGITS[c] for c in cells)


def lookup(table, cells):
    rule = ntm.table_rule(table)
    n = len(cells)
    net = ntm.Network()
    for i in range(n + 1):
        net.add_node(i)
    for i in range(n):
        net.add_edge(i, n)
    net.rotation_system = dict({i: () for i in range(n)}, **{}) | {n: list(range(n))}
    return ref.evolve(network=net, initial_conditions=list(cells) + [0], timesteps=2,
                      activity_rule=lambda ctx: rule(ctx) if ctx.node_label == n else ctx.current_activity)[-1].activities[n]


def run(case):
    k, r, lam, q = case["k"], case["r"], case["lam"], case["q"]
    n = 2 * r + 1
    random.seed(case["seed"])
    np.random.seed(case["seed"] % 2 ** 31)
    kw = {a: case[b] for a, b in (("lambda_val", "lam"), ("quiescent_state", "q"), ("strong_quiescence", "strong"),
                                  ("isotropic", "iso")) if case[b] is not None}
    if case["np"] and q is not None:
        kw["quiescent_state"] = np.int64(q)
    what = "random_rule_table(k=%d, r=%d, %s)" % (k, r, kw)
    if q is not None and not 0 <= q < k:
        raises(lambda: ntm.random_rule_table(k=k, r=r, **kw), what)
        return False, ["invalid quiescent state"]
    table, lam2, q2 = ntm.random_rule_table(k=k, r=r, **kw)
    states = [tuple((x // k ** (n - 1 - e)) % k for e in range(n)) for x in range(k ** n)]
    eq(sorted(table), sorted(key(s) for s in states), "%s: states" % what)
    bad = {s: v for s, v in table.items() if isinstance(v, str) or int(v) != v or not 0 <= v < k}
    check(not bad, "%s: values %r", what, bad)
    check(0 <= q2 < k and (q is None or q2 == q), "%s: the quiescent state is %r", what, q2)
    others = sum(1 for v in table.values() if v != q2)
    check(abs(lam2 - others / k ** n) < 1e-12, "%s: lambda is %r, but %d of %d entries are not quiescent", what, lam2, others, k ** n)
    free = []
    for s in states:
        v = table[key(s)]
        uniform = len(set(s)) == 1
        if case["strong"] and uniform:
            eq(v, s[0], "%s: image of the uniform %r" % (what, s))
        else:
            free.append((s, v))
        if case["iso"]:
            eq(v, table[key(s[::-1])], "%s: image of %r and that of its mirror image" % (what, s))
    if lam == 0:
        check(all(v == q2 for _, v in free), "%s: entries other than quiescent %r", what, q2)
    if lam == 1:
        check(all(v != q2 for _, v in free), "%s: quiescent entries %r", what, q2)
    # the freely chosen entries are quiescent with probability 1 - lambda (Hoeffding's bound for an error of 1e-12), and
    # any other state otherwise (likewise)
    m = len(free)
    p = 1.0 - 1.0 / k if lam is None else lam
    spread = math.sqrt((2 if case["iso"] else 1) * m * math.log(2e12) / 2)
    others = sum(1 for _, v in free if v != q2)
    check(abs(others - p * m) <= spread, "%s: %d of %d freely chosen entries are not quiescent", what, others, m)
    least = min(1 - p, p / (k - 1))
    if least > 0 and (m / (2 if case["iso"] else 1)) * -math.log1p(-least) > math.log(1e12 * k):
        eq({int(v) for _, v in free}, set(range(k)), "%s: values that occur" % what)
    pairs = [s for s, _ in free if s < s[::-1]]
    differ = p * (1 - p)        # mirror images differ in being quiescent or not with probability 2p(1-p)
    if not case["iso"] and differ > 0 and len(pairs) * -math.log1p(-2 * differ) > math.log(1e12):
        check(any(table[key(s)] != table[key(s[::-1])] for s in pairs), "%s: all mirror images agree", what)
    for s in case["look"]:
        eq(lookup(table, s), table[key(s)], "%s: table_rule for %r" % (what, s))
    s = case["look"][0]
    less = {a: b for a, b in table.items() if a != key(s)}
    try:
        got = lookup(less, s)
    except Exception:
        pass
    else:
        fail("%s: table_rule gives %r for %r, which is not in the table", what, got, s)
    return len(table) >= 8, ["k=%s" % (k if k < 5 else "5-10" if k <= 10 else ">10"), "lambda=%s" %
                             (lam if lam in (None, 0, 1) else "other"), "strong=%s iso=%s" % (case["strong"], case["iso"])]
