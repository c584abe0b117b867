"""C17: elementary and general binary CA rules follow the rule numbering."""
import numpy as np

from .. import ref
from ..base import check, eq
from ..ref import ntm

RULE = """A case is either a neighbourhood of m = 1..18 cells (m sources of one node, in the order of a rotation system) with a
rule number below 2^(2^m), evolved one timestep; or an ordered ring (n, r <= 3) evolved for several timesteps, with
and without memoization, by a rule number given with or without a scheme, and compared with the rule's truth table
applied to the row directly; or a network whose cells have windows of 1 to 4 cells; or a number and its bits. Non-trivial: the rule is neither constant 0 nor constant 1 (or
the number is at least 2)."""
N = 6000
NOISE = "cmphfunk"
EXPLICIT = [{"kind": "one", "m": 3, "rule": r, "acts": [int(x) for x in "{:03b}".format(s)], "scheme": sch}
            for r in range(0, 256, 5) for s in range(8) for sch in ("nks", None, "nks_ca_rule")]


def gen(d):
    kind = d.weighted([("one", 4), ("ring", 4), ("bits", 2), ("mixed", 2)])
    scheme = d.choice(["nks", "nks_ca_rule", None])
    if kind == "one":
        m = d.size(1, 5, 7)
        if d.bool(0.03):        # a large neighbourhood, and a rule number given by its bits that are 1
            m = d.int(8, 18)
            acts = [d.int(0, 1) for _ in range(m)]
            here = sum(c << (m - 1 - i) for i, c in enumerate(acts))
            ones = [here, 2 ** m - 1 - here] + [d.int(0, 2 ** m - 1) for _ in range(4)]
            return {"kind": kind, "m": m, "rule": [p for p in ones if d.bool()], "acts": acts, "scheme": scheme}
        return {"kind": kind, "m": m, "rule": number(d, 1 << m), "acts": [d.int(0, 1) for _ in range(m)], "scheme": scheme}
    if kind == "ring":
        r = d.weighted([(1, 4), (2, 2), (0, 1), (3, 1)])
        n = d.size(max(3, 2 * r + 1), max(8, 2 * r + 3), 40)
        return {"kind": kind, "n": n, "r": r, "rule": number(d, 1 << (2 * r + 1)), "scheme": scheme,
                "init": [d.int(0, 1) for _ in range(n)], "steps": d.size(2, 5, 15), "memo": d.bool(0.3)}
    if kind == "mixed":
        n = d.size(2, 5, 10)
        wins = [[d.int(0, n - 1) for _ in range(d.int(1, 4))] for _ in range(n)]
        wins = [list(dict.fromkeys(w)) for w in wins]
        return {"kind": kind, "wins": wins, "rule": number(d, 1 << min(map(len, wins))), "scheme": scheme,
                "init": [d.int(0, 1) for _ in range(n)], "steps": d.size(2, 4, 8)}
    m = d.size(1, 12, 90)
    return {"kind": kind, "bits": [d.int(0, 1) for _ in range(m)], "more": d.int(0, 5), "as": d.choice(["list", "array"])}


def number(d, bits):
    k = d.choice([bits, bits, max(1, bits // 2), min(8, bits)])
    return sum(d.int(0, 2 ** min(30, k - s) - 1) << s for s in range(0, k, 30))


def rule_number(case):
    return case["rule"] if isinstance(case["rule"], int) else sum(1 << p for p in set(case["rule"]))


def make(case):
    if case["scheme"] == "nks_ca_rule":
        return ntm.rules.nks_ca_rule(rule_number(case))
    if case["scheme"] is None:
        return ntm.rules.binary_ca_rule(rule_number(case))
    return ntm.rules.binary_ca_rule(rule_number(case), scheme=case["scheme"])


def bit(case, cells):
    m = len(cells)
    k = sum(c << (m - 1 - i) for i, c in enumerate(cells))
    if case["scheme"] is None:
        k = (1 << m) - 1 - k
    return (rule_number(case) >> k) & 1


def run(case):
    if case["kind"] == "bits":
        bits, m = case["bits"], len(case["bits"])
        value = int("".join(map(str, bits)), 2)
        given = np.array(bits) if case["as"] == "array" else list(bits)
        eq(ntm.rules.bits_to_int(given), value, "bits_to_int(%r)" % bits)
        eq([int(b) for b in given], bits, "the given bits afterwards")
        eq([int(b) for b in ntm.rules.int_to_bits(value, m)], bits, "int_to_bits(%d, %d)" % (value, m))
        eq([int(b) for b in ntm.rules.int_to_bits(value, m + case["more"])], [0] * case["more"] + bits,
           "int_to_bits(%d, %d)" % (value, m + case["more"]))
        return value >= 2, ["bits"]
    if case["kind"] == "one":
        m, acts = case["m"], case["acts"]
        rule = make(case)
        src = ["s%d" % i for i in range(m)]
        net = ntm.Network()
        for v in src + ["t"]:
            net.add_node(v)
        for v in reversed(src):
            net.add_edge(v, "t")
        net.rotation_system = dict({v: () for v in src}, t=src)
        traj = ref.evolve(network=net, initial_conditions=dict(zip(src, acts), t=0), timesteps=2,
                          activity_rule=lambda ctx: rule(ctx) if ctx.node_label == "t" else ctx.current_activity)
        eq(traj[-1].activities["t"], bit(case, acts), "rule %s (%s) for %r" % (case["rule"], case["scheme"], acts))
        return 0 < rule_number(case) < 2 ** 2 ** m - 1, ["one", "m=%d" % m, str(case["scheme"])]
    if case["kind"] == "mixed":
        wins, row = case["wins"], case["init"]
        net = ntm.Network(len(wins))
        for v, w in enumerate(wins):
            for u in w:
                net.add_edge(u, v)
        net.rotation_system = {v: tuple(w) for v, w in enumerate(wins)}
        traj = ref.evolve(network=net, initial_conditions=list(row), timesteps=case["steps"], activity_rule=make(case))
        for t, s in enumerate(traj):
            eq(s.activities, dict(enumerate(row)), "rule %d (%s) with the neighbourhoods %r: t=%d" % (case["rule"], case["scheme"], wins, t))
            row = [bit(case, [row[u] for u in w]) for w in wins]
        return len(set(map(len, wins))) > 1 and case["rule"] > 0, ["mixed", str(case["scheme"])]
    n, r = case["n"], case["r"]
    row = case["init"]
    traj = ref.evolve(network=ntm.topology.cellular_automaton(n, r), initial_conditions=list(row),
                      timesteps=case["steps"], activity_rule=make(case), memoize=case["memo"])
    eq(len(traj), case["steps"], "number of states")
    for t, s in enumerate(traj):
        eq(s.activities, dict(enumerate(row)), "rule %d (%s) on a ring of %d, r=%d, from %r: t=%d"
           % (case["rule"], case["scheme"], n, r, case["init"], t))
        row = [bit(case, [row[(i + k) % n] for k in range(-r, r + 1)]) for i in range(n)]
    check(all(type(v) is int for v in s.activities.values()), "activities %r aren't plain numbers", s.activities)
    return 0 < case["rule"] < 2 ** 2 ** (2 * r + 1) - 1, ["ring", "r=%d" % r, str(case["scheme"])]
