"""C26: table walk-through."""
import math
import random

import numpy as np

from ..base import check, eq
from ..ref import ntm

RULE = """A case is a table (own construction: any k, r, quiescent state; with strong quiescence and isotropy as flagged) and a
series of walks to targets up and down (arbitrary, or exactly a table's fraction, or out of reach), each continuing
from the previous table. After every walk the returned table, the changes made, lambda, the reason for stopping and the
constraints are checked. Other cases walk far up from a quiescent table of up to 14 states, where every other state must
turn up (the chance to miss one being below 1e-12), or take many single steps from one table, where every entry that may
change must. Non-trivial: some walk changes an entry."""
N = 3000
DIGITS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def gen(d):
    if d.bool(0.06):
        return {"kind": "states", "k": d.int(2, 14), "iso": d.bool(), "strong": d.bool(), "q": d.int(0, 13), "seed": d.seed(),
                "target": d.choice([0.8, 0.9, 0.95])}
    if d.bool(0.03):
        k, r = d.choice([(2, 1), (2, 1), (2, 2), (3, 1), (4, 1), (5, 0), (12, 0)])
        return {"kind": "entries", "k": k, "r": r, "q": d.int(0, k - 1), "iso": d.bool(), "strong": d.bool(), "up": d.bool(), "seed": d.seed()}
    if d.bool(0.012):     # states above nine, and neighbourhoods; walks look at the whole table for each change
        k, dens = d.int(11, 13), d.choice([0.3, 0.6, 0.9])
        return {"k": k, "r": 1, "q": d.choice([0, d.int(0, k - 1)]), "strong": d.choice([True, False, None]), "iso": d.choice([True, True, False]),
                "seed": d.seed(), "dens": dens, "targets": [dens + d.int(-25, 25) / 1000.0 for _ in range(d.int(1, 2))]}
    k = d.weighted([(2, 3), (3, 2), (4, 2), (5, 1), (11, 1)])
    rmax = max(r for r in range(0, 3) if k ** (2 * r + 1) <= (400 if d.big else 130) or r == 0)
    r = d.int(min(1, rmax), rmax)
    n = k ** (2 * r + 1)
    targets = [d.weighted([(0, 1), (0.0, 1), (1, 1), (1.0, 1), (d.int(0, n) / n, 3), (d.int(0, 1000) / 1000.0, 4)])
               for _ in range(d.int(1, 4))]
    return {"k": k, "r": r, "q": d.choice([0, d.int(0, k - 1)]), "strong": d.choice([True, False, None]),
            "iso": d.choice([True, False, None]), "seed": d.seed(), "dens": d.choice([0, 0.2, 0.5, 0.8, 1]),
            "targets": targets}


def spread(case):
    k, iso, strong = case["k"], case["iso"], case["strong"]
    q = case["q"] % k
    r = case.get("r", 4 if k == 2 else 3 if k == 3 else 2 if k < 5 else 1)
    n = 2 * r + 1
    total = k ** n
    keys = ["".join(DIGITS[(x // k ** (n - 1 - e)) % k] for e in range(n)) for x in range(total)]
    rnd = random.Random(case["seed"])
    random.seed(case["seed"])
    np.random.seed(case["seed"])
    # walks look at the whole table for each change, so that large tables start close to their target
    if case["kind"] == "states":
        table = {s: q for s in keys}
        if strong:
            table.update({s: DIGITS.index(s[0]) for s in keys if len(set(s)) == 1})
        start = dict(table)
        share = case["target"] if total < 300 else 300 / total
        table, _ = ntm.table_walk_through(table, share, k, r, q, strong_quiescence=strong, isotropic=iso)
        chosen = [table[s] for s in keys if table[s] != start[s] and (not iso or s <= s[::-1])]
        if len(chosen) * -math.log1p(-1 / (k - 1) + 1e-15) > math.log(1e12 * k):
            eq(set(chosen), set(range(k)) - {q}, "values chosen in a walk up to %r (k=%d, r=%d, quiescent %d)" % (share, k, r, q))
        return bool(chosen), ["states", "k=%d" % k]
    base = {}
    for s in keys:
        if strong and len(set(s)) == 1:
            base[s] = DIGITS.index(s[0])
        elif iso and s[::-1] in base:
            base[s] = base[s[::-1]]
        else:
            base[s] = rnd.choice([c for c in range(k) if c != q]) if rnd.random() < 0.5 else q
    lam = sum(1 for v in base.values() if v != q) / total
    free = {s for s in keys if (base[s] == q) == case["up"] and not (strong and len(set(s)) == 1)}
    if not free:
        return False, ["nothing may change"]
    target = lam + (0.5 if case["up"] else -0.5) / total
    seen = set()
    for _ in range(int(len(free) * math.log(1e12 * len(free))) + 1):
        table, _ = ntm.table_walk_through(dict(base), target, k, r, q, strong_quiescence=strong, isotropic=iso)
        new = {s for s in keys if table[s] != base[s]}
        check(new and new <= free, "a step from %r (lambda %r, k=%d, quiescent %d) to %r changes %r", base, lam, k, q, target, sorted(new))
        seen |= new
        if seen == free:
            break
    eq(sorted(seen), sorted(free), "entries that change in steps from %r to %r (k=%d, quiescent %d)" % (base, target, k, q))
    return True, ["entries", "k=%d" % k]


def run(case):
    if "kind" in case:
        return spread(case)
    k, r, q = case["k"], case["r"], case["q"]
    n = 2 * r + 1
    total = k ** n
    rnd = random.Random(case["seed"])
    table = {}
    for x in range(total):
        s = "".join(DIGITS[(x // k ** (n - 1 - e)) % k] for e in range(n))
        if case["strong"] and len(set(s)) == 1:
            v = DIGITS.index(s[0])
        elif case["iso"] and s[::-1] in table:
            v = table[s[::-1]]
        else:
            v = rnd.choice([c for c in range(k) if c != q]) if rnd.random() < case["dens"] else q
        table[s] = v
    random.seed(case["seed"])
    np.random.seed(case["seed"])
    kw = {a: case[b] for a, b in (("strong_quiescence", "strong"), ("isotropic", "iso")) if case[b] is not None}
    moved = False
    for target in case["targets"]:
        before = dict(table)
        what = "walk to %r (k=%d, r=%d, quiescent %d, %s)" % (target, k, r, q, kw)
        table, lam = ntm.table_walk_through(table, target, k, r, q, **kw)
        eq(sorted(table), sorted(before), what + ": states")
        bad = {s: v for s, v in table.items() if isinstance(v, str) or int(v) != v or not 0 <= v < k}
        check(not bad, "%s: values %r", what, bad)
        old = sum(1 for v in before.values() if v != q)
        new = sum(1 for v in table.values() if v != q)
        check(abs(lam - new / total) < 1e-12, "%s: lambda is %r, but %d of %d entries are not quiescent", what, lam, new, total)
        changes = [(s, before[s], table[s]) for s in table if table[s] != before[s]]
        moved = moved or bool(changes)
        frozen = {s for s in table if case["strong"] and len(set(s)) == 1}
        check(not any(s in frozen for s, _, _ in changes), "%s: changed uniform neighbourhoods: %r", what, changes)
        if case["iso"]:
            check(all(table[s] == table[s[::-1]] for s in table), "%s: the table isn't isotropic any more", what)
        step = 2 if case["iso"] else 1
        # the sizes of single changes: with isotropy a palindrome counts once, a pair twice
        if old / total == target:
            check(not changes, "%s from lambda %r: changes %r", what, old / total, changes)
        elif old / total > target:
            check(all(b == q for _, a, b in changes), "%s from lambda %r: changes %r", what, old / total, changes)
            left = [s for s in table if table[s] != q and s not in frozen]
            check(new / total <= target or not left, "%s stopped at %r although %r can still change", what, lam, left[:5])
            check((new + step) / total > target or new == old, "%s passed its target: %r", what, lam)
            if new / total <= target and changes:
                last = max(1 if s == s[::-1] or not case["iso"] else 2 for s, _, _ in changes)
                check((new + last) / total > target, "%s passed its target: %r", what, lam)
        else:
            check(all(a == q for _, a, b in changes), "%s from lambda %r: changes %r", what, old / total, changes)
            left = [s for s in table if table[s] == q and s not in frozen]
            check(new / total >= target or not left, "%s stopped at %r although %r can still change", what, lam, left[:5])
            if new / total >= target and changes:
                last = max(1 if s == s[::-1] or not case["iso"] else 2 for s, _, _ in changes)
                check((new - last) / total < target, "%s passed its target: %r", what, lam)
    return moved, ["strong=%s iso=%s" % (case["strong"], case["iso"]), "k=%d" % k]
