"""C02: the context of the activity rule, field by field, against the multigraph model."""
import numpy as np  # noqa: F401

from .. import ref
from ..base import check, eq, fail, raises
from ..ref import NM, ntm

RULE = """A case is a random directed multigraph with attributed parallel edges, optionally a rotation system (a
permutation of each node's incoming neighbours, or an arbitrary complete or partial-neighbourhood ordering of nodes of
the network), optional topology rule (which turns the rotation system, if there is one, at each timestep) and past conditions; every field and accessor of every context of every node and
timestep is compared with the model. Some cases set an invalid rotation system, which must be rejected. Non-trivial: some node has
at least two incoming neighbours or parallel edges."""
N = 8000
SPIKE = 6
NOISE = "cmpf"


def gen(d):
    if d.bool(0.06):
        spec = ref.net_spec(d, small=5, large=12)
        bad = d.choice(["unknown-node", 10 ** 9, (7, 8, 9)])
        rot = {v: d.sample(spec["nodes"], d.int(0, len(spec["nodes"]))) for v in spec["nodes"]}
        if d.bool():
            rot[bad] = [d.choice(spec["nodes"])]
        else:
            v = d.choice(spec["nodes"])
            rot[v].insert(d.int(0, len(rot[v])), bad)
        return {"badrot": rot, "net": spec}
    topo = d.bool(0.4)
    kind = d.choice(["none", "none", "none", "neighbours", "any"] if topo else ["none", "neighbours", "any"])
    spec = ref.net_spec(d, small=5, large=20, rot=(kind == "neighbours"), dens=8 if d.bool(0.12) else None)
    if kind == "any":
        most = d.choice([3, 5, 5, 12, 20])
        spec["rot"] = {v: d.sample(spec["nodes"], d.int(0, min(most, len(spec["nodes"])))) for v in spec["nodes"]}
    prog = ref.rule_prog(d, ordered=kind != "none", kinds=("int", "str", "float", "tuple"))
    nodes = spec["nodes"]
    return {"net": spec, "rule": prog, "order": d.choice("ATS"),
            "topo": ref.topo_prog(d) if topo else None,
            "init": {v: ref.init_value(d, prog) for v in nodes},
            "past": [{v: ref.init_value(d, prog) for v in nodes} for _ in range(d.choice([0, 0, 1, 3]))],
            "steps": d.size(2, 4, 12)}


def run(case):
    spec = case["net"]
    if "badrot" in case:
        net = ref.build(spec)

        def setit():
            net.rotation_system = case["badrot"]
        raises(setit, "setting a rotation system that names unknown nodes")
        eq(net.rotation_system, None, "rotation system after a rejected one")
        return True, ["invalid rotation"]
    net = ref.build(spec)
    m = ref.model(spec)
    past = case["past"]
    seen = []
    states = []     # (activities, model network) after each timestep, as the context's oracle

    def refrule(v):
        return ref.apply_rule(case["rule"], v)

    states = ref.ref_evolve(m, case["init"], case["steps"], rule=refrule, o=case["order"], rot=spec["rot"],
                            topo=None if not case["topo"] else
                            (lambda n, a, t: ref.turning_model(case["topo"], spec["rot"], n, a, t)) if spec["rot"] is not None else
                            (lambda n, a, t: ref.topo_model(case["topo"], n, a, t)),
                            past=past or None)
    hist = past + [s for s, _ in states]

    def rule(ctx):
        t, v = ctx.timestep, ctx.node_label
        check(isinstance(t, int) and 1 <= t < case["steps"], "timestep in the context is %r", t)
        acts = states[t - 1][0]
        a = states[t][1] if case["order"] == "T" else states[t - 1][1]
        what = "t=%d node=%r " % (t, v)
        check(v in a.inc, what + "is not a node of the network")
        seen.append((t, v))
        ref.same_acts(ctx.activities, acts, what + "activities")
        eq(ctx.current_activity, acts[v], what + "current_activity")
        nl = list(ctx.neighbour_labels)
        if spec["rot"] is not None:
            eq(nl, list(getattr(a, "rot", spec["rot"])[v]), what + "neighbour_labels (rotation system order)")
        else:
            check(len(nl) == len(set(nl)) and set(nl) == set(a.inc[v]),
                  what + "neighbour_labels are %r, expected %r in any order", nl, list(a.inc[v]))
        eq(list(ctx.neighbourhood_activities), [acts[u] for u in nl], what + "neighbourhood_activities for %r" % (nl,))
        eq({u: [dict(x) for x in es] for u, es in ctx.connection_states.items()},
           {u: [dict(x) for x in es] for u, es in a.inc[v].items()}, what + "connection_states")
        for u in spec["nodes"]:
            eq(ctx.activity_of(u), acts[u], what + "activity_of(%r)" % (u,))
        for u, es in a.inc[v].items():
            for k, x in enumerate(es):
                for key, val in x.items():
                    eq(ctx.edge_data(u, key, k), val, what + "edge_data(%r, %r, %d)" % (u, key, k))
                    if k == 0:
                        eq(ctx.edge_data(u, key), val, what + "edge_data(%r, %r)" % (u, key))
        if past:
            want = hist[t - 1:t - 1 + len(past)]
            for i in range(-len(past), len(past)):
                for u in spec["nodes"]:
                    eq(ctx.past_activity_of(u, i), want[i][u], what + "past_activity_of(%r, %d)" % (u, i))
            for u in spec["nodes"]:
                eq(ctx.past_activity_of(u), want[-1][u], what + "past_activity_of(%r)" % (u,))
        eq(ctx.input, None, what + "input")
        return refrule(ref.ctx_view(ctx))

    ref.evolve(network=net, initial_conditions=dict(case["init"]), activity_rule=rule, timesteps=case["steps"],
               topology_rule=None if not case["topo"] else ref.Turning(case["topo"], spec["rot"])
               if spec["rot"] is not None else ref.Topo(case["topo"]), update_order=ref.order(case["order"]),
               past_conditions=[dict(p) for p in past] or None)
    eq(len(seen), (case["steps"] - 1) * len(spec["nodes"]), "number of contexts seen")
    if spec["rot"] is not None and not case["topo"]:
        eq({k: list(v) for k, v in net.rotation_system.items()}, spec["rot"], "rotation_system of the network")
    nontriv = any(len(m.inc[v]) > 1 or any(len(e) > 1 for e in m.inc[v].values()) for v in m.nodes)
    return nontriv, ["rotation" if spec["rot"] else "no rotation", "topology" if case["topo"] else "static",
                     "past" if past else "no past"]
