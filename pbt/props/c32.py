"""C32: Hopfield-Tank nets."""
import itertools
import math

import numpy as np

import matplotlib.collections
import matplotlib.patches
import matplotlib.pyplot as plt

from .. import ref
from ..base import check, close, eq, fail
from ..display import Display
from ..ref import ntm

RULE = """A case is 3-9 points (also coinciding ones), the parameters dt, A, B, C, D, u_0, n, potentials and a few timesteps; or points
(the net's, or the same ones in other units) and a permutation (or a random matrix) for the tour. Distances, connections, every potential, the matrix, and the
tour's edges, length and plot are compared with their definitions (relative tolerance 1e-7). Non-trivial: at least 4 points or
a tour."""
N = 1600
NOISE = "cmphnk"
THOROUGH = 20


def gen(d):
    kind = d.choice(["evolve", "tour", "tour"])
    n = d.size(3, 4, 5) if kind == "evolve" else d.size(3, 7, 14)
    if kind == "evolve" and d.bool(0.06):
        n = d.int(6, 9)
    pts = [(d.num(-5, 5), d.num(-5, 5)) for _ in range(n)]
    if d.bool(0.2):
        f = d.choice([1e-3, 100, 1234.5, 1e6])
        pts = [(x * f, y * f) for x, y in pts]
    if d.bool(0.1):
        pts[1] = pts[0]
    c = {"kind": kind, "pts": pts}
    if kind == "evolve":
        c["kw"] = {k: v for k, v in {"dt": d.choice([1.0, 0.01, 1e-5]), "A": d.int(0, 600), "B": d.int(0, 600), "C": d.int(0, 300),
                                     "D": d.int(0, 600), "u_0": d.choice([0.02, 0.5, 1.0]), "n": d.int(0, 20)}.items() if d.bool(0.8)}
        c["init"] = [d.real(-0.1, 0.1) for _ in range(n * n)]
        c["steps"] = d.int(2, 3) if n < 6 else 2
    else:
        c["perm"] = d.shuffle(range(n))
        c["clash"] = d.bool(0.2) and [d.int(0, n - 1) for _ in range(n)]
        c["soft"] = d.bool(0.4)
        c["array"] = d.bool(0.5)
        c["plot"] = d.bool(0.04)
        c["scale"] = d.choice([1, 1, 1, 3, -0.5])
    return c


def dist(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1])


def run(case):
    pts = case["pts"]
    n = len(pts)
    net = ntm.HopfieldTankTSPNet(list(pts), **case.get("kw", {}))
    got = net.get_distances()
    eq(sorted(tuple(sorted((i, j))) for i, j, _ in got), list(itertools.combinations(range(n), 2)), "pairs of points")
    for i, j, x in got:
        close(x, dist(pts[i], pts[j]), "distance of %r and %r" % (pts[i], pts[j]), 1e-7)
    if case["kind"] == "tour":
        return tour(case, net)
    M = net.adjacency_matrix
    eq([[int(bool(x)) for x in row] for row in M], [[1] * (n * n)] * (n * n), "adjacency matrix")
    network = ntm.topology.from_adjacency_matrix(M)
    traj = ref.evolve(network=network, initial_conditions=list(case["init"]), activity_rule=net.activity_rule,
                      timesteps=case["steps"])
    eq(len(traj), case["steps"], "number of states")
    kw = dict(dt=1.0, A=500, B=500, C=200, D=500, u_0=0.02, n=15)
    kw.update(case["kw"])
    U = list(case["init"])
    for t in range(1, case["steps"]):
        V = [(1 + math.tanh(u / kw["u_0"])) / 2 for u in U]
        at = lambda x, i: V[x * n + i % n]  # noqa: E731
        new, scale = [], []
        for x in range(n):
            for i in range(n):
                a = sum(at(x, j) for j in range(n) if j != i)
                b = sum(at(y, i) for y in range(n) if y != x)
                c = sum(V) - kw["n"]
                e = sum(dist(pts[x], pts[y]) * (at(y, i + 1) + at(y, i - 1)) for y in range(n))
                u = U[x * n + i]
                new.append(u + kw["dt"] * (-u - kw["A"] * a - kw["B"] * b - kw["C"] * c - kw["D"] * e))
                scale.append(abs(u) + kw["dt"] * (abs(u) + kw["A"] * a + kw["B"] * b + kw["C"] * (sum(V) + kw["n"]) + kw["D"] * e))
        for k in range(n * n):
            g = traj[t].activities[k]
            if not abs(g - new[k]) <= 1e-7 * max(1e-6, scale[k]):
                fail("t=%d, node %d (point %d, position %d): potential %r, expected %r", t, k, k // n, k % n, g, new[k])
        # go on from the actual potentials, so that rounding differences don't add up
        U = [traj[t].activities[k] for k in range(n * n)]
    acts = ntm.get_activities_over_time_as_list(traj)
    for given in (acts, np.array(acts)):
        P = net.get_permutation_matrix(given)
        eq(np.array(P).shape, (n, n), "shape of the permutation matrix")
        for k in range(n * n):
            close(float(P[k // n][k % n]), (1 + math.tanh(U[k] / kw["u_0"])) / 2, "entry %d of the permutation matrix" % k, 1e-7)
    return n >= 4, ["evolve"]


def tour(case, net):
    perm = case["perm"]
    # the tour is of the points that it is asked for, in other units, say
    pts = [(x * case["scale"], y * case["scale"]) for x, y in case["pts"]]
    n = len(pts)
    place = case["clash"] or [perm.index(x) for x in range(n)]      # position of every point
    M = [[0.0] * n for _ in range(n)]
    for x, i in enumerate(place):
        if case["soft"]:
            M[x] = [((7 * x + 3 * j) % 10) / 25.0 for j in range(n)]
        M[x][i] = 1 if not case["soft"] else 0.9
    given = np.array(M) if case["array"] else M
    if len(set(place)) < n:
        try:
            got = net.get_tour_graph(list(pts), given)
        except Exception:
            return True, ["clash"]
        fail("no error for two points at one position, but %r (positions %r)", got, place)
    perm = [place.index(i) for i in range(n)]
    G, pos, length = net.get_tour_graph(list(pts), given)
    eq(sorted(G.nodes), list(range(n)), "nodes of the tour")
    edges = {frozenset((perm[i], perm[(i + 1) % n])) for i in range(n)}
    eq({frozenset(e) for e in G.edges}, edges, "edges of the tour %r" % perm)
    eq({k: tuple(v) for k, v in pos.items()}, {k: tuple(p) for k, p in enumerate(pts)}, "positions")
    close(length, sum(dist(pts[perm[i]], pts[perm[(i + 1) % n]]) for i in range(n)), "length of the tour %r" % perm, 1e-7)
    if case["plot"]:
        plt.close("all")
        with Display("plot_tour"):
            net.plot_tour(G, pos)
        ax, = plt.gcf().axes
        nodes = [tuple(p) for c in ax.collections if isinstance(c, matplotlib.collections.PathCollection) for p in c.get_offsets().tolist()]
        eq(sorted(nodes), sorted(tuple(map(float, p)) for p in pts), "plot_tour: the points")
        lines = [s.tolist() for c in ax.collections if isinstance(c, matplotlib.collections.LineCollection) for s in c.get_segments()]
        eq(sorted(sorted(map(tuple, s)) for s in lines), sorted(sorted(tuple(map(float, pts[v])) for v in e) for e in map(tuple, edges)), "plot_tour: the lines")
        eq(sorted((t.get_text(), tuple(t.get_position())) for t in ax.texts), sorted((str(k), tuple(p)) for k, p in enumerate(pts)), "plot_tour: the labels")
        plt.close("all")
    return True, ["tour"]
