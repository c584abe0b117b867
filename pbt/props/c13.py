"""C13: evolution is equivariant under renaming, insertion order, and disjoint union."""
from .. import ref
from ..base import check, eq, fail
from ..ref import ntm

RULE = """A case is a random network (with or without a rotation system) with a rule that reads the node's and neighbours'
activities and connection attributes but no names, an optional topology rule given as a list of per-timestep edge
changes, a renaming, shuffled insertion orders of nodes and edges, and a second, disjoint network. The evolution of the
renamed and reordered network and of the disjoint union is compared with the original's. Non-trivial: at least three
nodes, an edge between different nodes, and some activity changes."""
N = 5000
SPIKE = 6
NOISE = "cmph"
ODD = [True, None, -1.5, "", b"b", (), 3.25, "None", False, "True", 10 ** 15, " ", "\n", "0"]


def gen(d):
    rot = d.bool(0.5)
    n = d.size(1, 6, 20)
    spec = ref.net_spec(d, n=n, lab=list(range(n)), rot=rot, dens=2)
    uses = d.subset(["cur", "t", "inp"], 0.5) + (["oacts"] if rot else ["acts"]) + (["wacts"] if d.bool() else [])
    uses = [u for u in uses if u != "inp"]
    prog = ref.rule_prog(d, uses=uses)
    kind = d.choice(["int", "str", "tuple", "mixed", "neg", "estr", "odd"])
    perm = d.shuffle(range(n))
    spaces = d.bool(0.3)
    names = {"int": lambda k: 10 * k + 7, "str": lambda k: "v%d" % k, "tuple": lambda k: (k % 3, k),
             "mixed": lambda k: k if k % 2 else "w%d" % k, "neg": lambda k: -k, "estr": lambda k: (" " if spaces else "x") * k, "odd": lambda k: ODD[k] if k < len(ODD) else "v%d" % k}[kind]
    steps = d.size(2, 5, 12)
    topo = None
    if not rot and d.bool(0.4):
        topo = [[(d.choice(["add", "remove"]), d.int(0, n - 1), d.int(0, n - 1), d.int(1, 3)) for _ in range(d.int(0, 2))]
                for _ in range(steps - 1)]
    n2 = d.int(1, 4)
    other = ref.net_spec(d, n=n2, lab=list(range(1000, 1000 + n2)), rot=rot)
    return {"net": spec, "rule": prog, "names": [names(k) for k in perm], "nodes2": d.shuffle(range(n)),
            "edges2": d.shuffle(range(len(spec["edges"]))), "topo": topo, "order": d.choice("AATS"), "steps": steps,
            "init": [ref.init_value(d, prog) for _ in range(n)], "other": other,
            "init2": [ref.init_value(d, prog) for _ in range(n2)], "memo": d.bool(0.2)}


def anon(prog, seen):
    def rule(ctx):
        seen.setdefault(ctx.timestep, list(ctx.activities))
        v = ref.ctx_view(ctx)
        parts = [prog["salt"]]
        for u in prog["uses"]:
            if u in ("cur", "t"):
                parts.append((u, v[u]))
            elif u == "acts":
                parts.append(sorted(v["acts"], key=repr))
            elif u == "oacts":
                parts.append(list(v["acts"]))
            else:
                parts.append(sorted(repr((a, sorted(repr(sorted(e.items())) for e in v["conn"][k])))
                                    for k, a in zip(v["nbrs"], v["acts"])))
        return ref.out_value(prog["out"], prog["k"], ref.h(parts))
    return rule


def evolve(case, nodes, edges, rot, init, f, seen=None):
    """f renames."""
    spec = {"nodes": [f(v) for v in nodes], "edges": [(f(i), f(j), a) for i, j, a in edges],
            "rot": None if rot is None else {f(v): [f(u) for u in us] for v, us in rot.items()}}
    topo = None
    if case["topo"] is not None:
        def topo(ctx):
            for op, i, j, w in case["topo"][ctx.timestep - 1]:
                if op == "add":
                    ctx.network.add_edge(f(i), f(j), weight=w)
                elif ctx.network.has_edge(f(i), f(j)):
                    ctx.network.remove_edge(f(i), f(j))
            return ctx.network
    memo = case["memo"] and not (set(case["rule"]["uses"]) & {"cur", "t", "wacts"})
    traj = ref.evolve(network=ref.build(spec), initial_conditions={f(v): init[v] for v in nodes}, timesteps=case["steps"],
                      activity_rule=anon(case["rule"], {} if seen is None else seen), topology_rule=topo, update_order=ref.order(case["order"]),
                      memoize=memo)
    return traj


def same(traj, base, f, what, named=()):
    eq(len(traj), len(base), what + ": number of states")
    for t, (s, b) in enumerate(zip(traj, base)):
        eq([v for v in s.activities if v in named], [f(v) for v in b.activities], what + ": t=%d: order of the activities" % t) if named else None
        for v, x in b.activities.items():
            if f(v) not in s.activities or s.activities[f(v)] != x:
                fail("%s: at t=%d node %r (was %r) has %r instead of %r", what, t, f(v), v,
                     s.activities.get(f(v)), x)
        em = ref.edge_map(s.network)
        for (i, j), es in ref.edge_map(b.network).items():
            got = em.get((f(i), f(j)), [])
            if sorted(map(repr, (sorted(e.items()) for e in got))) != sorted(map(repr, (sorted(e.items()) for e in es))):
                fail("%s: at t=%d edge %r has %r instead of %r", what, t, (f(i), f(j)), got, es)


def run(case):
    spec = case["net"]
    nodes, edges, rot = spec["nodes"], spec["edges"], spec["rot"]
    init = dict(enumerate(case["init"]))
    seen, seen2 = {}, {}
    base = evolve(case, nodes, edges, rot, init, lambda v: v, seen)
    ren = evolve(case, nodes, edges, rot, init, lambda v: case["names"][v], seen2)
    eq(seen2, {t: [case["names"][v] for v in vs] for t, vs in seen.items()}, "order of the activities that the rule gets in a renamed network")
    same(ren, base, lambda v: case["names"][v], "renamed network", named=set(case["names"]))
    for s, b in zip(ren, base):
        eq(len(s.activities), len(b.activities), "renamed network: number of activities")
        eq(len(list(s.network.edges)), len(list(b.network.edges)), "renamed network: number of edges")
    shuf = evolve(case, case["nodes2"], [edges[k] for k in case["edges2"]], rot, init, lambda v: v)
    same(shuf, base, lambda v: v, "other insertion order")
    o = case["other"]
    init2 = dict(zip(o["nodes"], case["init2"]))
    rot2 = None if rot is None else dict(rot, **{})
    if rot2 is not None:
        rot2.update(o["rot"])
    both = evolve(case, o["nodes"] + nodes, o["edges"] + edges, rot2, dict(init, **{}) | init2, lambda v: v)
    alone = evolve(dict(case, topo=None), o["nodes"], o["edges"], o["rot"], init2, lambda v: v)
    same(both, base, lambda v: v, "first part of a disjoint union")
    same(both, alone, lambda v: v, "second part of a disjoint union")
    eq([len(s.activities) for s in both], [len(nodes) + len(o["nodes"])] * case["steps"], "nodes of the union")
    changed = any(s.activities != base[0].activities for s in base)
    check(len(base) == case["steps"], "number of states")
    return changed and len(nodes) >= 3 and any(i != j for i, j, _ in edges), \
        ["rotation" if rot else "no rotation", "topology" if case["topo"] else "static"]
