"""C16: lattice, complete, bipartite, disconnected and small-world networks."""
import itertools

import numpy as np
from netomaton import vis

from .. import ref
from ..base import check, eq, fail
from ..ref import ntm

RULE = """A case is a builder and its arguments: lattice (1 to 3 dimensions, periodic, self-loops, first label; positions
from lattice_pos are compared with the links they imply), complete, disconnected (number, list, array), bipartite (any
labels, with or without attributes), watts_strogatz_graph (n, k, p, seed, the global random states being disturbed
between two calls). Nodes and edges are compared with the definition. Non-trivial: at least three nodes."""
N = 6000
SPIKE = 4


def gen(d):
    kind = d.weighted([("lattice", 5), ("ws", 3), ("complete", 1), ("bipartite", 2), ("disconnected", 1)])
    c = {"kind": kind, "spoil": d.bool(0.2)}
    if kind == "lattice":
        k = d.choice([1, 2, 3, 1, 2, 3, 1, 2, 3, 4])
        hi = d.size(1, 5, {1: 40, 2: 12, 3: 6, 4: 4}[k])
        dim = [d.int(1, hi) for _ in range(k)]
        if d.bool(0.4) and k >= 2:
            dim = [1] + dim[-2:]
        c.update(dim=tuple(dim), periodic=d.choice([True, False, None]), loops=d.choice([True, False, None]),
                 first=d.choice([None, 0, 1, 5, -3, 100, 10 ** 6]), list=d.bool(0.2))
    elif kind == "ws":
        n = d.size(3, 10, 40)
        c.update(n=n, k=d.int(2, n - 1), p=d.choice([0, 0, 0.1, 0.5, 1, 0.9]), seed=d.choice([0, d.seed(), d.seed()]), noseed=d.bool(0.1))
    elif kind == "complete":
        c.update(n=d.size(1, 8, 30))
    elif kind == "bipartite":
        n1, n2 = d.size(1, 4, 10), d.size(1, 4, 10)
        if d.bool(0.1):
            n1, n2 = d.int(1, 25), d.int(1, 25)
        lab = ref.labels(d, n1 + n2)
        c.update(s1=lab[:n1], s2=lab[n1:], attrs=None, sets=d.bool(0.2))
        if d.bool(0.6):
            c["attrs"] = {u: {v: ref.attr(d) for v in lab[n1:]} for u in lab[:n1]}
    else:
        c.update(nodes=d.choice([d.size(1, 8, 30), ref.labels(d, d.size(1, 8, 30))]), array=d.bool(0.3))
    return c


def lattice_model(dim, periodic, loops, first):
    """The grid in which the last-but-one dimension is counted fastest after the first."""
    sizes = list(dim)                       # sizes[0] varies fastest
    pts = [tuple(reversed(p)) for p in itertools.product(*[range(s) for s in reversed(sizes)])]
    label = {p: first + i for i, p in enumerate(pts)}
    edges = set()
    for p in pts:
        for ax, s in enumerate(sizes):
            for step in (1, -1):
                x = p[ax] + step
                if periodic:
                    x %= s
                elif not 0 <= x < s:
                    continue
                q = p[:ax] + (x,) + p[ax + 1:]
                if q != p:
                    edges.add((label[p], label[q]))
        if loops:
            edges.add((label[p], label[p]))
    return [label[p] for p in pts], edges


def same(net, nodes, edges, what):
    """edges: {(i, j): attributes}, once each."""
    got = list(net.nodes)
    check(len(got) == len(nodes) and set(got) == set(nodes), "%s: nodes %r, expected %r", what, got, nodes)
    em = ref.edge_map(net)
    if set(em) != set(edges):
        fail("%s: missing edges %r, superfluous edges %r", what, sorted(set(edges) - set(em), key=repr)[:10],
             sorted(set(em) - set(edges), key=repr)[:10])
    for k, es in em.items():
        if len(es) != 1:
            fail("%s: edge %r occurs %d times", what, k, len(es))
        if edges[k] is not None:
            eq(es[0], edges[k], "%s: attributes of edge %r" % (what, k))


def run(case):
    T = ntm.topology
    kind = case["kind"]
    if kind == "lattice":
        dim = case["dim"]
        kw = {a: case[b] for a, b in (("periodic", "periodic"), ("self_loops", "loops"), ("first_label", "first"))
              if case[b] is not None}
        if case.get("spoil"):
            ref.spoil(T.lattice(dim=list(dim) if case["list"] else dim, **kw))
        net = T.lattice(dim=list(dim) if case["list"] else dim, **kw)
        nodes, edges = lattice_model(dim, bool(case["periodic"]), bool(case["loops"]), case["first"] or 0)
        what = "lattice(%r, %r)" % (dim, kw)
        same(net, nodes, {e: None for e in edges}, what)
        if len(dim) == 3 and dim[0] == 1 and not case["first"]:
            # the positions that go with such a lattice put linked nodes next to each other
            pos = vis.lattice_pos(dim[2], dim[1])
            eq(len(set(map(tuple, pos.values()))), len(nodes), what + ": distinct positions")
            eq(set(pos), set(nodes), what + ": labels with positions")
            where = {v: tuple(p) for v, p in pos.items()}
            for i, j in edges:
                (x, y), (u, v) = where[i], where[j]
                dist = (abs(x - u), abs(y - v))
                ok = dist in ((0, 0), (0, 1), (1, 0))
                if case["periodic"]:
                    ok = ok or dist in ((0, dim[1] - 1), (dim[2] - 1, 0))
                check(ok, "%s: linked nodes %r and %r are at %r and %r", what, i, j, where[i], where[j])
        return len(nodes) >= 3, [kind, "%dD" % len(dim), "periodic=%s" % case["periodic"]]
    if kind == "complete":
        n = case["n"]
        if case.get("spoil"):
            ref.spoil(T.complete(n))
        same(T.complete(n), list(range(n)), {(i, j): {"weight": 1} for i in range(n) for j in range(n) if i != j},
             "complete(%d)" % n)
        return n >= 3, [kind]
    if kind == "bipartite":
        s1, s2, at = case["s1"], case["s2"], case["attrs"]
        net = T.bipartite(set(s1) if case["sets"] else list(s1), list(s2), *([] if at is None else [at]))
        edges = {}
        for u in s1:
            for v in s2:
                a = {} if at is None else at[u][v]
                edges[(u, v)] = a
                edges[(v, u)] = a
        same(net, s1 + s2, edges, "bipartite(%r, %r)" % (s1, s2))
        # the directions don't share their attributes
        u, v = s1[0], s2[0]
        net.update_edge(u, v, fresh=1)
        eq(ref.edge_map(net)[(v, u)], [edges[(v, u)]], "attributes of the other direction after an update")
        return len(s1 + s2) >= 3, [kind, "attributes" if at else "no attributes"]
    if kind == "disconnected":
        nodes = case["nodes"]
        given = nodes
        if case["array"] and isinstance(nodes, list) and all(isinstance(v, int) for v in nodes):
            given = np.array(nodes)
        net = T.disconnected(given)
        same(net, list(range(nodes)) if isinstance(nodes, int) else nodes, {}, "disconnected(%r)" % (given,))
        return len(net) >= 3, [kind, type(given).__name__]
    n, k, p = case["n"], case["k"], case["p"]
    what = "watts_strogatz_graph(%d, %d, %r, %r)" % (n, k, p, case["seed"])
    if case.get("spoil"):
        ref.spoil(T.watts_strogatz_graph(n, k, p, case["seed"]))
    net = T.watts_strogatz_graph(n, k, p) if case["noseed"] else T.watts_strogatz_graph(n, k, p, case["seed"])
    em = ref.edge_map(net)
    eq(sorted(net.nodes), list(range(n)), what + ": nodes")
    for (i, j), es in em.items():
        check(i != j, "%s: self-loop at %r", what, i)
        check(len(es) == 1, "%s: %d edges from %r to %r", what, len(es), i, j)
        check((j, i) in em, "%s: an edge from %r to %r but none back", what, i, j)
    eq(len(em), 2 * n * (k // 2), what + ": number of edges")
    for v in range(n):
        check(net.in_degree(v) == net.out_degree(v) >= k // 2, "%s: degrees of %r are %r, %r", what, v,
              net.in_degree(v), net.out_degree(v))
    if p == 0:
        eq(set(em), {(i, (i + s * x) % n) for i in range(n) for s in (1, -1) for x in range(1, k // 2 + 1)},
           what + ": ring lattice")
    if not case["noseed"]:
        np.random.seed(1)
        import random
        random.seed(99)
        np.random.rand(3)
        again = T.watts_strogatz_graph(n, k, p, seed=case["seed"])
        eq(ref.edge_map(again), em, what + ": the same call again")
    return n >= 3 and k >= 2, [kind, "p=%r" % p]
