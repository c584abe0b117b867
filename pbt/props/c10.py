"""C10: a Network is a directed multigraph, after any history of operations."""
from .. import ref
from ..base import check, eq, h, raises
from ..ref import NM, ntm

RULE = """A case is a history of 1 to 60 public operations (add_node, add_edge, add_edge_bidir, update_edge of all or of
given parallel edges, remove_node, del, remove_edge, update of a missing edge, changing an attribute dictionary obtained
from edge()) on an initially empty network or one of n nodes; after every operation (every few in long histories) all
queries are compared with a model multigraph, and at the end the network is compared with one built by the same
operations and one with a difference. Non-trivial: at least one removal of a node or edge with connections and one
parallel edge or self-loop at some time."""
N = 6000
SPIKE = 6
POOL = [0, 1, 2, 3, "a", "b", (1, 2), -5, 10, "x y", 100]


def gen(d):
    pool = POOL[:d.int(2, len(POOL))]
    if d.big:
        pool = pool + list(range(200, 200 + d.int(0, 20)))
    n0 = d.choice([0, 0, 1, 4])
    m = NM(range(n0))
    ops = []
    for _ in range(d.size(1, 12, 60)):
        kind = d.weighted([("edge", 8), ("bidir", 3), ("node", 3), ("update", 4), ("updk", 3), ("rmnode", 3),
                           ("rmedge", 3), ("updmissing", 1), ("updbeyond", 1), ("poke", 1)])
        pairs = sorted(m.edge_map(), key=repr)
        nodes = sorted(m.nodes, key=repr)
        i, j = d.choice(pool), d.choice(pool)
        if pairs and d.bool(0.35):
            i, j = d.choice(pairs)     # often a pair that is connected already
        a = ref.attr(d, 0.5)
        if d.bool(0.2):
            a["q"] = d.choice([[1], {"z": 1}, None, "v"])
        if kind == "edge":
            op = ("edge", i, j, a)
        elif kind == "bidir":
            op = ("bidir", i, j, a)
        elif kind == "node":
            op = ("node", i, {k: d.int(0, 3) for k in d.subset(["color", "size"], 0.4)})
        elif kind in ("update", "updk", "poke") and pairs:
            p = d.choice(pairs)
            k = len(m.inc[p[1]][p[0]])
            op = ("update", p[0], p[1], None if kind == "update" else d.sample(range(k), d.int(0, k)),
                  {"weight": d.int(5, 9), "u%d" % d.int(0, 1): d.int(0, 3)})
            if kind == "poke":
                op = ("poke", p[0], p[1], d.int(0, k - 1), d.int(10, 20))
        elif kind == "updbeyond" and pairs:
            p = d.choice(pairs)
            op = ("updbeyond", p[0], p[1], d.int(0, 2))
        elif kind == "rmnode" and nodes:
            op = ("rmnode", d.choice(nodes), d.bool())
        elif kind == "rmedge" and pairs:
            op = ("rmedge",) + d.choice(pairs)
        elif kind == "updmissing":
            if m.has_edge(i, j):
                continue
            op = ("updmissing", i, j)
        else:
            continue
        ops.append(op)
        apply(m, op, False)
    return {"n0": n0, "ops": ops}


def apply(net, op, real):
    k = op[0]
    if k == "edge":
        net.add_edge(op[1], op[2], **fresh(op[3]))
    elif k == "bidir":
        net.add_edge_bidir(op[1], op[2], **fresh(op[3]))
    elif k == "node":
        net.add_node(op[1], **op[2])
    elif k == "update":
        net.update_edge(op[1], op[2], indices=None if op[3] is None else list(op[3]), **op[4])
    elif k == "poke":
        es = net.edge(op[1], op[2]) if real else net.inc[op[2]][op[1]]
        es[op[3]]["weight"] = op[4]
    elif k == "rmnode":
        if real and op[2]:
            del net[op[1]]
        else:
            net.remove_node(op[1])
    elif k == "rmedge":
        net.remove_edge(op[1], op[2])
    elif k == "updbeyond":
        if real and net.has_edge(op[1], op[2]):
            k = len(net.edge(op[1], op[2])) + op[3]
            raises(lambda: net.update_edge(op[1], op[2], indices=[k], weight=1), "update of the edge %r, which does not exist" % (op[1:],))
    elif k == "updmissing":
        if real:
            raises(lambda: net.update_edge(op[1], op[2], weight=1), "update of the missing edge %r" % (op[1:3],))


def fresh(a):
    import copy
    return copy.deepcopy(a)


def compare(net, m, what, extra):
    ref.same_network(net, m, what)
    for v in m.nodes:
        eq({u: [dict(x) for x in es] for u, es in net.in_edges(v).items()}, m.inc[v], what + ": in_edges(%r)" % (v,))
        eq(net.degree(v), m.in_degree(v) + m.out_degree(v), what + ": degree(%r)" % (v,))
        check(v in net.nodes, what + ": %r is not in nodes", v)
    cand = m.nodes + extra
    for i in cand:
        for j in cand:
            eq(bool(net.has_edge(i, j)), m.has_edge(i, j), what + ": has_edge(%r, %r)" % (i, j))
            if m.has_edge(i, j):
                eq([dict(x) for x in net.edge(i, j)], m.inc[j][i], what + ": edge(%r, %r)" % (i, j))
    check(all(x not in net.nodes for x in extra if x not in m.attrs), what + ": unknown nodes")
    data = dict(net.to_networkx().nodes(data=True))
    eq({k: dict(v) for k, v in data.items()}, m.attrs, what + ": node attributes")


def run(case):
    net, m = ntm.Network(n=case["n0"]), NM(range(case["n0"]))
    ops = case["ops"]
    removal = special = False
    compare(net, m, "new network", ["no such node"])
    for k, op in enumerate(ops):
        if op[0] == "rmnode" and (m.in_degree(op[1]) or m.out_degree(op[1])) or op[0] == "rmedge":
            removal = True
        apply(net, op, True)
        apply(m, op, False)
        special = special or any(i == j or len(es) > 1 for (i, j), es in m.edge_map().items())
        if len(ops) <= 15 or k % 4 == 3 or k == len(ops) - 1:
            compare(net, m, "after operation %d, %r" % (k + 1, op), ["no such node", 0])
    twin = ntm.Network(n=case["n0"])
    for op in ops:
        apply(twin, op, True)
    check(net == twin, "two networks built by the same operations are not equal")
    if m.nodes:
        v = m.nodes[h(repr(ops)) % len(m.nodes)]
        other = ntm.Network(n=case["n0"])
        for op in ops:
            apply(other, op, True)
        other.add_node(v, **dict(m.attrs[v], another=1))
        check(not (net == other), "a network equals one whose node %r has another attribute", v)
        twin.add_edge(v, v, weight=1)
        check(not (net == twin), "a network equals one that has one more edge")
        es = [p for p in m.edge_map()]
        if es:
            other = ntm.Network(n=case["n0"])
            for op in ops:
                apply(other, op, True)
            p = es[h(repr(ops), 2) % len(es)]
            other.update_edge(p[0], p[1], weight="different")
            check(not (net == other), "a network equals one whose edge %r has another weight", p)
    return removal and special, [o[0] for o in ops]
