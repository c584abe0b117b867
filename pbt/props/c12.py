"""C12: NetworkX and adjacency matrix conversions."""
import copy

import networkx as nx
import numpy as np

from .. import ref
from ..base import check, eq, fail
from ..ref import NM, ntm

RULE = """A case is a random attributed multigraph, or a random square matrix (sparse or dense, integers, floats, negative
entries, isolated nodes; list of lists or array); conversions in both directions are compared with the model, round
trips with the original, with random node orders, weight attribute names (present on some edges only) and summing
options. Non-trivial: at least two nodes and one edge."""
N = 6000
SPIKE = 5


def gen(d):
    if d.bool(0.35):
        n = d.size(1, 6, 25)
        dens = d.choice([0.1, 0.3, 0.7, 1])
        vals = d.choice([[1], [1.0, 0.5], [1, -1, 3], [2, -0.25, 1e-9], [1, 3e-12, -2e-12, 1e9, -1e-300], [2 ** 53 + 1, -2 ** 60 - 3, 1]])
        return {"matrix": [[d.choice(vals) if d.bool(dens) else d.choice([0, 0.0]) for _ in range(n)] for _ in range(n)],
                "array": d.bool(0.4), "copy": d.bool(0.3)}
    spec = ref.net_spec(d, min_n=1, small=6, large=20)
    if d.bool(0.25):        # attributes of any name
        names = ["key", "u_for_edge", "data", "attr", "activity", "source", "u", "v"]
        spec["edges"] = [(i, j, dict(a, **{d.choice(names): d.choice([0, "x", 2.5, None])}) if d.bool(0.6) else a) for i, j, a in spec["edges"]]
    return {"names": d.bool(0.3), "net": spec, "nodeattr": {i: {d.choice(["color", "color", "activity", "label", "weight", "state", "name", "input"]): d.choice([0, 1, "red", None, [1, [2]], {"r": 0, "g": [1]}, (1, 2), [], {}, False])} for i in range(len(spec["nodes"])) if d.bool(0.3)},
            "perm": d.shuffle(range(len(spec["nodes"]))), "use_order": d.bool(0.6),
            "weight": d.choice(["weight", "weight", "w2", None]), "sum": d.bool(0.7),
            "multi": d.bool(), "w2": [d.choice([None, 1, 2.5, -3, 0] if not d.big else [None, 1, 2 ** 53 + 1, -3, -2 ** 60 - 1]) for _ in spec["edges"]]}


def run(case):
    if "matrix" in case:
        M = case["matrix"]
        n = len(M)
        given = np.array(M) if case["array"] else [list(r) for r in M]
        if case["array"]:
            M = given.tolist()      # the values that the array holds
        net = ntm.topology.from_adjacency_matrix(given)
        m = NM(range(n), [(i, j, {"weight": M[i][j]}) for i in range(n) for j in range(n) if M[i][j] != 0])
        ref.same_network(net, m, "from_adjacency_matrix")
        if case["copy"]:
            net = net.copy()
            ref.same_network(net, m, "a copy of from_adjacency_matrix")
        whole = all(type(x) is int for r in M for x in r)
        back = net.to_adjacency_matrix(nodelist=list(range(n)))
        check([[float(x) for x in r] for r in back] == [[float(x) for x in r] for r in M]
              and (not whole or [list(r) for r in back] == M),
              "to_adjacency_matrix(from_adjacency_matrix(M)) is %r for M=%r", back, M)
        order = list(net.nodes)
        back = net.to_adjacency_matrix()
        check([[float(x) for x in r] for r in back] == [[float(M[i][j]) for j in order] for i in order],
              "to_adjacency_matrix() is %r for nodes %r of M=%r", back, order, M)
        check(np.array_equal(np.array(given), np.array(M)), "the given matrix changed")
        return n > 1 and any(x for r in M for x in r), ["matrix"]
    spec = case["net"]
    spec = dict(spec, edges=[(i, j, dict(a, **({"w2": w} if w is not None else {})))
                             for (i, j, a), w in zip(spec["edges"], case["w2"])])
    net, m = ref.build(spec), ref.model(spec)
    for i, a in case["nodeattr"].items():
        net.add_node(spec["nodes"][i], **a)
        m.add_node(spec["nodes"][i], **a)
    G = net.to_networkx()
    check(isinstance(G, nx.MultiDiGraph), "to_networkx returned %s", type(G))
    eq({k: dict(v) for k, v in G.nodes(data=True)}, m.attrs, "nodes of to_networkx")
    got = {}
    for i, j, a in G.edges(data=True):
        got.setdefault((i, j), []).append(dict(a))
    eq(got, m.edge_map(), "edges of to_networkx")
    back = ntm.Network.from_networkx(G)
    ref.same_network(back, m, "from_networkx(to_networkx)")
    eq({k: dict(v) for k, v in back.to_networkx().nodes(data=True)}, m.attrs, "node attributes of from_networkx")
    # changing the graph doesn't change the network
    H = nx.MultiDiGraph() if case["multi"] else nx.DiGraph()
    hm = NM()
    for v in spec["nodes"]:
        H.add_node(v, **m.attrs[v])
        hm.add_node(v, **m.attrs[v])
        if case["names"]:
            H.nodes[v]["node_label"] = H.nodes[v]["self"] = "x"
            hm.attrs[v].update(node_label="x", self="x")
    for (i, j), es in m.edge_map().items():
        for n, a in enumerate(es if case["multi"] else es[:1]):
            a = copy.deepcopy(a)
            if case["names"]:
                a[["i", "j", "self", "key", "attr"][n % 5]] = n
            H.add_edges_from([(i, j, a)])
            hm.inc[j].setdefault(i, []).append(copy.deepcopy(a))
    net2 = ntm.Network.from_networkx(H)
    ref.same_network(net2, hm, "from_networkx of a %s" % type(H).__name__)
    eq({k: dict(v) for k, v in net2.to_networkx().nodes(data=True)}, hm.attrs, "node attributes of from_networkx")
    # adjacency matrix
    order = [spec["nodes"][i] for i in case["perm"]] if case["use_order"] else list(net.nodes)
    kw = {}
    if case["use_order"]:
        kw["nodelist"] = list(order)
    if case["weight"] != "weight":
        kw["weight"] = case["weight"]
    if not case["sum"]:
        kw["sum_multiedges"] = False
    A = net.to_adjacency_matrix(**kw)
    eq([len(r) for r in A], [len(order)] * len(order), "shape of the adjacency matrix")
    em = m.edge_map()
    for x, i in enumerate(order):
        for y, j in enumerate(order):
            ws = [a.get(case["weight"], 1) if case["weight"] is not None else 1 for a in em.get((i, j), [])]
            if case["sum"]:
                ok = A[x][y] == sum(ws) if all(type(w) is int for w in ws) else abs(A[x][y] - sum(ws)) <= 1e-9 * max(1, max(map(abs, ws)))
            else:
                ok = A[x][y] in ws if ws else A[x][y] == 0
            if not ok:
                fail("adjacency matrix with %r: entry (%r, %r) is %r, the weights of the edges are %r",
                     kw, i, j, A[x][y], ws)
    ref.same_network(net, m, "the network after its conversions")
    return len(spec["nodes"]) > 1 and bool(spec["edges"]), ["network", "sum" if case["sum"] else "no sum",
                                                            "weight=%s" % case["weight"]]
