"""C14: 1D cellular automaton networks are rings with radius-r neighbourhoods."""
from .. import ref
from ..base import check, eq, raises
from ..ref import ntm

RULE = """A case is a number of cells n, a radius r with 2r+1 <= n (now and then a larger one, whose neighbourhood is the whole ring), ordered or not, and initial activities; the matrix and
the network are compared with the ring i-r..i+r modulo n, and the neighbourhoods recorded by a rule during an evolution
with the ring's windows, labels and activities, also on copies of the network. Fewer than 3 cells must be an error.
Non-trivial: n >= 4 and r >= 1."""
N = 3000
SPIKE = 5
NOISE = "cmphu"
MIN_DISTINCT = 20
EXPLICIT = [{"n": n, "r": r, "ordered": True, "init": list(range(100, 100 + n)), "copy": False, "steps": 2}
            for n in range(3, 20) for r in range(0, (n - 1) // 2 + 1)]


def gen(d):
    if d.bool(0.03):
        return {"few": d.int(0, 2)}
    if d.bool(0.004):
        return {"n": 200, "r": 1, "ordered": None, "init": [d.int(0, 9) for _ in range(200)], "copy": False, "steps": 2, "call": "shortest"}
    n = d.size(3, 12, 70)
    r = d.int(0, (n - 1) // 2) if d.bool(0.6) else d.int(0, min(3, (n - 1) // 2))
    if d.bool(0.08):    # a neighbourhood that covers the whole ring
        r = d.int((n - 1) // 2, n - 1)
    return {"n": n, "r": r, "ordered": d.weighted([(True, 2), (None, 2), (False, 1)]),
            "init": [d.int(0, 9) for _ in range(n)], "copy": d.bool(0.3), "steps": d.int(2, 4),
            "call": d.choice(["positional", "named", "shortest"]), "spoil": d.bool(0.2)}


def run(case):
    if "few" in case:
        raises(lambda: ntm.topology.adjacency.cellular_automaton(case["few"]), "an adjacency matrix of %d cells" % case["few"])
        raises(lambda: ntm.topology.cellular_automaton(case["few"]), "a network of %d cells" % case["few"])
        return False, ["few"]
    n, r = case["n"], case["r"]
    call = case.get("call", "positional")
    args, named = ((n, r), {}) if call == "positional" else ((), {"n": n, "r": r}) if call == "named" or r != 1 else ((n,), {})
    if case.get("spoil"):
        ref.spoil(ntm.topology.adjacency.cellular_automaton(n, r))
        ref.spoil(ntm.topology.cellular_automaton(n, r, ordered=case["ordered"] is not False))
    M = ntm.topology.adjacency.cellular_automaton(*args, **named, **({"boundary": "periodic"} if call == "named" else {}))
    want = [[1 if min((i - j) % n, (j - i) % n) <= r else 0 for j in range(n)] for i in range(n)]
    eq([list(row) for row in M], want, "adjacency matrix of n=%d, r=%d" % (n, r))
    kw = {} if case["ordered"] is None else {"ordered": case["ordered"]}
    if call == "shortest" and r == 1 and n == 200:
        args = ()
    kw.update(named)
    if call == "named":
        kw["periodic"] = True
    net = ntm.topology.cellular_automaton(*args, **kw)
    if case["copy"]:
        net = net.copy()
        if case["ordered"] is not False:
            # a copy has no rotation system of its own: only its edges count
            net.rotation_system = ntm.topology.cellular_automaton(*args, **kw).rotation_system
    em = ref.edge_map(net)
    eq(sorted(net.nodes), list(range(n)), "nodes")
    eq({k: len(v) for k, v in em.items()}, {(i, j): 1 for i in range(n) for j in range(n) if want[i][j]},
       "edges of n=%d, r=%d" % (n, r))
    if case["ordered"] is False:
        check(net.rotation_system is None, "an unordered automaton has the rotation system %r", net.rotation_system)
    seen = []

    def rule(ctx):
        seen.append((ctx.timestep, ctx.node_label, list(ctx.neighbour_labels), list(ctx.neighbourhood_activities),
                     ctx.current_activity))
        return ctx.current_activity + 1
    ref.evolve(network=net, initial_conditions=case["init"], timesteps=case["steps"], activity_rule=rule)
    eq(len(seen), n * (case["steps"] - 1), "number of applications of the rule")
    for t, v, labels, acts, cur in seen:
        window = [(v + k) % n for k in range(-r, r + 1)]
        if case["ordered"] is False or 2 * r + 1 > n:
            eq(sorted(labels), sorted(set(window)), "neighbours of cell %d" % v)
        else:
            eq(labels, window, "ordered neighbours of cell %d (n=%d, r=%d)" % (v, n, r))
            eq(labels[len(labels) // 2], v, "the middle of the neighbourhood")
        eq(acts, [case["init"][u] + t - 1 for u in labels], "activities of the neighbourhood of %d" % v)
        eq(cur, case["init"][v] + t - 1, "activity of %d" % v)
    return n >= 4 and r >= 1, ["ordered=%s" % case["ordered"], "r=%s" % min(r, 4)]
