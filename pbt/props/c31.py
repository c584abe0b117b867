"""C31: Hopfield nets."""
import numpy as np

from .. import ref
from ..base import check, eq
from ..ref import ntm

RULE = """A case is one or two training sets of bipolar patterns (1-6 patterns, in some cases repeated up to 300 times, of 1-12 values; up to 25 in large cases), a starting pattern
(random, a trained one, or its inverse), a seed and a length. Weights and connections are compared with the Hebbian
sums; every timestep must change at most one node, to the sign of its input; the energy must not increase; a single
trained pattern and its inverse must be stable. Non-trivial: at least 3 values and some node changes or stability is
checked."""
N = 4000
NOISE = "cmphnk"


def gen(d):
    n = d.size(1, 6, 14) if not d.big else d.int(2, 8 + 4 * d.scale)

    def pats():
        return [[d.choice([-1, 1]) for _ in range(n)] for _ in range(d.choice([1, 1, 2, 3, 6]))]
    P = pats()
    if d.bool(0.15):
        P = P * d.choice([40, 130, 300])
    start = d.choice([[d.choice([-1, 1]) for _ in range(n)], P[0], [-x for x in P[0]]])
    return {"n": n, "P": P, "Q": pats() if d.bool(0.3) else None, "start": start, "seed": d.seed(),
            "steps": d.size(2, 3 * n + 2, 5 * n) if n > 7 or d.bool(0.85) else 60 * n, "np": d.bool(0.2)}


def run(case):
    n, P = case["n"], case["P"]
    np.random.seed(case["seed"])
    net = ntm.HopfieldNet(n=n)
    if case["Q"] is not None:
        net.train([list(p) for p in case["Q"]])
    given = np.array(P) if case["np"] else [list(p) for p in P]
    net.train(given)
    eq([[int(x) for x in p] for p in given], P, "the given patterns afterwards")
    W = [[0 if i == j else sum(p[i] * p[j] for p in P) for j in range(n)] for i in range(n)]
    eq([[int(x) for x in row] for row in net.adjacency_matrix], W, "weights learned from %d patterns, %r" % (len(P), P[:8]))
    eq(sorted(net.network.nodes), list(range(n)), "nodes")
    eq({k: [int(e["weight"]) for e in es] for k, es in ref.edge_map(net.network).items()},
       {(i, j): [W[i][j]] for i in range(n) for j in range(n) if W[i][j]}, "connections learned from %d patterns, %r" % (len(P), P[:8]))
    eq(net.num_nodes, n, "num_nodes")
    traj = ref.evolve(network=net.network, initial_conditions=list(case["start"]), activity_rule=net.activity_rule,
                      timesteps=case["steps"])
    eq(len(traj), case["steps"], "number of states")
    s = list(case["start"])

    def energy(x):
        return -sum(W[i][j] * x[i] * x[j] for i in range(n) for j in range(n)) / 2
    moved = False
    eq(traj[0].activities, dict(enumerate(s)), "initial activities")
    for t in range(1, case["steps"]):
        new = [traj[t].activities[i] for i in range(n)]
        diff = [i for i in range(n) if new[i] != s[i]]
        check(len(diff) <= 1, "t=%d: %d nodes changed at once", t, len(diff))
        for i in diff:
            inp = sum(W[j][i] * s[j] for j in range(n))
            check(new[i] == (1 if inp >= 0 else -1), "t=%d: node %d became %r although its input is %r", t, i, new[i], inp)
            moved = True
        check(energy(new) <= energy(s), "t=%d: the energy rose from %r to %r", t, energy(s), energy(new))
        s = new
    still = 0       # the number of timesteps since the last change
    while still + 1 < case["steps"] and traj[-1 - still - 1].activities == traj[-1].activities:
        still += 1
    if still >= 40 * n:     # the chance that a node has not been updated since is below n * e^-40
        for i in range(n):
            inp = sum(W[j][i] * s[j] for j in range(n))
            check(s[i] == (1 if inp >= 0 else -1), "node %d stays %r for %d timesteps although its input is %r", i, s[i], still, inp)
    lone = n >= 2 and all(p == P[0] for p in P) and case["start"] in (P[0], [-x for x in P[0]])
    if lone:
        eq(s, case["start"], "the stored pattern %r" % P[0])
    return n >= 3 and (moved or lone), ["%d patterns" % len(P), "retrained" if case["Q"] else "trained once"]
