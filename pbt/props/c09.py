"""C09: adding and removing nodes through the context."""
from .. import ref
from ..base import check, eq, h
from ..ref import ntm

RULE = """A case is a random multigraph and a plan of 1 to 8 timesteps: which rule removes which nodes (itself, others, the
same node several times) and which rule adds which fresh nodes with which state and outgoing, attributed connections
(to surviving nodes, to nodes added in the same timestep, to itself), now and then twice; all other activities come from a hash rule that
reads the neighbourhood (and the past activities, in part of the cases). Optionally a topology rule is in use as well. Part of the cases are evolved again with persistence off, compression
on or copying off. The networks, activities and neighbourhoods of every timestep are compared with a model. Non-trivial: at least one addition and one removal."""
N = 6000
SPIKE = 6
NOISE = "cmph"


def gen(d, npast=None):
    n = d.size(1, 5, 15)
    spec = ref.net_spec(d, n=n, lab=ref.labels(d, n, d.choice(["range", "str", "ints"])))
    if npast is None:
        npast = d.choice([1, 2, 3]) if d.bool(0.2) else 0
    prog = ref.rule_prog(d, past=npast > 0)
    alive = list(spec["nodes"])
    plan = []
    fresh = 1000
    growth = d.choice([0.15, 0.3, 0.5])
    shrink = d.choice([0.1, 0.25, 0.5])
    for _ in range(d.size(1, 4, 8)):
        remove, add = [], []
        if d.bool(0.8):
            gone = [v for v in alive if d.bool(shrink)]
        else:
            gone = list(alive)
        for v in gone:
            for _ in range(d.choice([1, 1, 1, 2])):
                by = v if d.bool(0.5) else d.choice(alive)
                remove.append((by, v))
        stay = [v for v in alive if v not in gone]
        new = []
        for v in alive:
            if d.bool(growth) and len(stay) + len(new) < 40:
                lab = fresh if d.bool(0.7) else "new%d" % fresh
                fresh += 1
                again = [u for u in gone if u not in new]
                if again and d.bool(0.25):
                    lab = d.choice(again)       # a removed node's label is used again at once
                new.append(lab)
                add.append((v, ref.init_value(d, prog), None, lab))
        if d.bool(0.15):        # as many nodes are added as are removed
            k = min(len(gone), len(new))
            remove = [r for r in remove if r[1] in gone[:k]]
            add, new, gone = add[:k], new[:k], gone[:k]
            stay = [v for v in alive if v not in gone]
            keep = [a[3] not in stay for a in add]
            add, new = [a for a, x in zip(add, keep) if x], [v for v, x in zip(new, keep) if x]
        if new and d.bool(0.12):    # a node that is added twice
            add.insert(d.int(0, len(add)), (d.choice(alive), ref.init_value(d, prog), None, d.choice(new)))
        # also to nodes that are added later in the same timestep
        targets = stay + new
        add = [(v, x, {t: ref.attr(d) for t in d.sample(targets, d.int(0, min(3, len(targets))))}, lab)
               for v, x, _, lab in add]
        plan.append({"remove": remove, "add": add})
        alive = stay + new
    return {"net": spec, "rule": prog, "plan": plan, "init": {v: ref.init_value(d, prog) for v in spec["nodes"]},
            "past": [{v: ref.init_value(d, prog) for v in spec["nodes"]} for _ in range(npast)],
            "topo": ref.topo_prog(d) if d.bool(0.3) else None, "extra": d.int(0, 2), "copy": d.bool(0.7),
            "store": d.subset(["persist_network", "persist_activities", "compression", "copy_network"], 0.5) if d.bool(0.3) else []}


def run(case):
    spec, plan = case["net"], case["plan"]
    steps = len(plan) + 1 + case["extra"]
    topo = case["topo"]
    copying = case["copy"] or bool(topo and topo["mode"] == "inplace")
    # the model
    acts, net = dict(case["init"]), ref.model(spec)
    states = [(acts, net)]
    past = case.get("past") or []

    def window(t):
        return (past + [a for a, _ in states])[t - 1:t - 1 + len(past)] if past else None

    for t in range(1, steps):
        p = plan[t - 1] if t <= len(plan) else {"remove": [], "add": []}
        new = {v: ref.apply_rule(case["rule"], ref.node_view(net, None, v, t, acts, window(t))) for v in net.nodes}
        net2 = net.copy()
        for v in {v for _, v in p["remove"]}:
            net2.remove_node(v)
            del new[v]
        order = {v: i for i, v in enumerate(net.nodes)}
        for by, state, links, lab in sorted(p["add"], key=lambda a: order[a[0]]):
            net2.add_node(lab)
            new[lab] = state    # the last one, of a node that is added twice
            for target, at in links.items():
                net2.add_edge(lab, target, **at)
        if topo:
            net2 = ref.topo_model(topo, net2, new, t)
        acts, net = new, net2
        states.append((acts, net))

    def rule(ctx):
        t, v = ctx.timestep, ctx.node_label
        a, m = states[t - 1]
        what = "t=%d node=%r: " % (t, v)
        check(v in m.inc, what + "is not a node any more")
        check(set(ctx.neighbour_labels) == set(m.inc[v]) and len(ctx.neighbour_labels) == len(m.inc[v]),
              what + "neighbours %r, expected %r", list(ctx.neighbour_labels), list(m.inc[v]))
        eq({u: [dict(x) for x in es] for u, es in ctx.connection_states.items()}, m.inc[v], what + "connections")
        if past:
            eq([dict(p) for p in ctx.past_activities], window(t), what + "past activities")
        if t <= len(plan):
            for by, u in plan[t - 1]["remove"]:
                if by == v:
                    ctx.remove_node(u)
            for by, state, links, lab in plan[t - 1]["add"]:
                if by == v:
                    ctx.add_node(state, {k: dict(x) for k, x in links.items()}, lab)
        return ref.apply_rule(case["rule"], ref.ctx_view(ctx))

    first = ref.build(spec)
    traj = ref.evolve(network=first, initial_conditions=dict(case["init"]), activity_rule=rule, timesteps=steps, past_conditions=[dict(p) for p in past] or None,
                      topology_rule=ref.Topo(topo, steps - 1) if topo else None, copy_network=copying)
    eq(len(traj), steps, "number of states")
    for t, s in enumerate(traj):
        check(s.activities is not None and s.network is not None, "state %d is incomplete: %r", t, s.activities)
        eq(sorted(s.activities, key=repr), sorted(s.network.nodes, key=repr), "nodes with an activity at t=%d" % t)
        ref.same_acts(s.activities, states[t][0], "activities at t=%d" % t)
        ref.same_network(s.network, states[t][1], "network at t=%d" % t)
    ref.same_network(first, ref.model(spec), "the given network after evolving")
    if case["store"]:   # the same with less stored
        kw = {"copy_network": copying}
        for k in case["store"]:
            if k != "copy_network":
                kw[k] = k == "compression"
            elif not (topo and topo["mode"] == "inplace"):
                kw[k] = False
        again = ntm.evolve(network=first, initial_conditions=dict(case["init"]), activity_rule=rule, timesteps=steps, past_conditions=[dict(p) for p in past] or None,
                           topology_rule=ref.Topo(topo, steps - 1) if topo else None, **kw)
        eq(len(again), steps, "number of states with %r" % (kw,))
        ref.same_network(first, ref.model(spec), "the given network after evolving with %r" % (kw,))
        for t, s in enumerate(again):
            if t == 0 or kw.get("persist_activities", True):
                ref.same_acts(s.activities, states[t][0], "activities at t=%d with %r" % (t, kw))
            if t == 0 or kw.get("persist_network", True):
                ref.same_network(s.network, states[t][1], "network at t=%d with %r" % (t, kw))
    added = sum(len(p["add"]) for p in plan)
    removed = sum(len(p["remove"]) for p in plan)
    tags = ["topology" if topo else "no topology"]
    if any(by != v for p in plan for by, v in p["remove"]):
        tags.append("removes others")
    if any(len(p["remove"]) != len({v for _, v in p["remove"]}) for p in plan):
        tags.append("same node twice")
    if any(not m.nodes for _, m in states):
        tags.append("dies out")
    return added > 0 and removed > 0, tags
