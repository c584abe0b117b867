"""C18: totalistic rules map the neighbourhood sum through the rule's base-k digits."""
import random

from .. import ref
from ..base import check, eq, fail
from ..ref import ntm

RULE = """A case is k (2..36), a neighbourhood of n cells (n sources of one node) and its colors, a rule number below
k^(n(k-1)+1), evolved one timestep for several orders of the neighbours; or a ring with several timesteps; or a network whose nodes have different numbers of neighbours; or a rule
number that is too large, which must be an error. Expected: (rule // k^sum) % k. Non-trivial: the rule is at least k."""
N = 6000
NOISE = "cmphfunk"


def gen(d):
    kind = d.weighted([("one", 5), ("ring", 3), ("large", 1), ("mixed", 2)])
    k = d.choice([2, 3, 4, 5, 10, 16, 35, 36, d.int(2, 36)])
    if kind == "ring":
        r = d.int(0, 2)
        n = d.size(max(3, 2 * r + 1), 8, 25)
        return {"kind": kind, "k": k, "n": n, "r": r, "rule": number(d, k, 2 * r + 1), "steps": d.size(2, 4, 9),
                "init": [d.int(0, k - 1) for _ in range(n)], "memo": d.bool(0.3), "ordered": d.bool()}
    if kind == "mixed":
        n = d.size(2, 5, 9)
        wins = [d.sample(range(n), d.int(1, min(4, n))) for _ in range(n)]
        return {"kind": kind, "k": k, "wins": wins, "rule": number(d, k, min(map(len, wins))), "steps": d.size(2, 4, 6),
                "init": [d.choice([0, k - 1, d.int(0, k - 1)]) for _ in range(n)]}
    n = d.size(1, 5, 9) if d.bool(0.93) else d.int(10, 40)
    c = {"kind": kind, "k": k, "n": n, "acts": [d.choice([0, k - 1, d.int(0, k - 1)]) for _ in range(n)],
         "perm": d.shuffle(range(n))}
    digits = n * (k - 1) + 1
    c["rule"] = number(d, k, n) if kind == "one" else k ** digits * d.int(1, k) + d.choice([0, 0, 1, number(d, k, n)])
    return c


def number(d, k, n):
    digits = n * (k - 1) + 1
    if d.bool(0.15):
        return k ** digits - 1 - d.int(0, 3)
    if d.bool(0.3):
        return k ** d.int(0, digits - 1) * d.int(1, k - 1)
    rnd = random.Random(d.seed())
    return rnd.randrange(k ** d.choice([digits, digits, max(1, digits // 2)]))


def single(case, acts):
    rule = ntm.rules.totalistic_ca(k=case["k"], rule=case["rule"])
    n = len(acts)
    net = ntm.Network()
    for i in range(n + 1):
        net.add_node(i)
    for i in range(n):
        net.add_edge(i, n)
    return ref.evolve(network=net, initial_conditions=list(acts) + [0], timesteps=2,
                      activity_rule=lambda ctx: rule(ctx) if ctx.node_label == n else ctx.current_activity)[-1].activities[n]


def run(case):
    k, rule = case["k"], case["rule"]
    what = "totalistic_ca(k=%d, rule=%d)" % (k, rule)
    if case["kind"] == "large":
        try:
            got = single(case, case["acts"])
        except Exception:
            return True, ["too large"]
        fail("%s gives %r for the %d neighbours %r, although the rule number is too large", what, got, case["n"], case["acts"])
    if case["kind"] == "one":
        want = (rule // k ** sum(case["acts"])) % k
        for acts in (case["acts"], [case["acts"][i] for i in case["perm"]]):
            got = single(case, acts)
            eq(got, want, "%s for %r" % (what, acts))
            check(isinstance(got, int) and 0 <= got < k, "%s gives %r", what, got)
        return rule >= k, ["one", "k=%s" % (k if k < 6 else ">5")]
    if case["kind"] == "mixed":
        wins, row = case["wins"], case["init"]
        net = ntm.Network(len(wins))
        for v, w in enumerate(wins):
            for u in w:
                net.add_edge(u, v)
        traj = ref.evolve(network=net, initial_conditions=list(row), timesteps=case["steps"], activity_rule=ntm.rules.totalistic_ca(k, rule))
        for t, s in enumerate(traj):
            eq(s.activities, dict(enumerate(row)), "%s with the neighbourhoods %r: t=%d" % (what, wins, t))
            row = [(rule // k ** sum(row[u] for u in w)) % k for w in wins]
        return rule >= k and len(set(map(len, wins))) > 1, ["mixed"]
    n, r, row = case["n"], case["r"], case["init"]
    traj = ref.evolve(network=ntm.topology.cellular_automaton(n, r, ordered=case["ordered"]), initial_conditions=list(row),
                      timesteps=case["steps"], activity_rule=ntm.rules.totalistic_ca(k, rule), memoize=case["memo"])
    for t, s in enumerate(traj):
        eq(s.activities, dict(enumerate(row)), "%s on a ring of %d, r=%d, from %r: t=%d" % (what, n, r, case["init"], t))
        row = [(rule // k ** sum(row[(i + j) % n] for j in range(-r, r + 1))) % k for i in range(n)]
    return rule >= k, ["ring", "r=%d" % r]
