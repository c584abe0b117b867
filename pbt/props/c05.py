"""C05: the sliding window of past activities."""
from . import c09
from .. import ref
from ..base import check, eq
from ..ref import ntm

RULE = """A case is a random network, a hash-based rule that reads all past activities, k past conditions (1 to 11, as
lists or dicts), storage options (compression, persist_activities, persist_network), a topology rule or none, and a
number of timesteps shorter or longer than k; at every application the whole window and the accessor are compared
with the true history, and the states with a reference. In some cases nodes are added and removed by the rule. Some cases have no past conditions. Non-trivial: k >= 1 and
at least two timesteps."""
N = 7000
SPIKE = 10
NOISE = "mpf"


def gen(d):
    if d.bool(0.08):     # nodes that come and go belong to the past activities too
        return {"nodes": c09.gen(d, npast=d.choice([1, 2, 3, 5]))}
    n = d.size(1, 5, 15)
    aslist = d.bool(0.5)
    spec = ref.net_spec(d, n=n, lab=list(range(n)) if aslist else None)
    prog = ref.rule_prog(d, past=True)
    k = d.choice([0, 1, 1, 2, 3, 4, 6, 8, 11] if d.bool(0.3) else [0, 1, 1, 2, 3, 4, 6])
    if k and d.bool(0.08):      # the very same object is given for all of them
        x = {v: ref.init_value(d, prog) for v in spec["nodes"]}
        return {"net": spec, "rule": prog, "aslist": aslist, "init": x, "past": [x] * k, "same": True, "steps": d.int(1, 9), "order": d.choice("ATS"),
                "topo": None, "compression": d.bool(0.3), "pa": d.bool(0.7), "pn": d.bool(0.7), "empty": "none"}
    return {"net": spec, "rule": prog, "aslist": aslist,
            "init": {v: ref.init_value(d, prog) for v in spec["nodes"]},
            "past": [{v: ref.init_value(d, prog) for v in spec["nodes"]} for _ in range(k)],
            "steps": d.size(1, 9, 30) + (k if k > 6 else 0), "order": d.choice("AATS"), "topo": ref.topo_prog(d) if d.bool(0.3) else None,
            "compression": d.bool(0.3), "pa": d.bool(0.7), "pn": d.bool(0.7), "empty": d.choice(["none", "list"])}


def run(case):
    if "nodes" in case:
        nontriv, _ = c09.run(case["nodes"])
        return nontriv, ["nodes added and removed"]
    spec, steps, past = case["net"], case["steps"], case["past"]
    k = len(past)
    expected = ref.ref_evolve(ref.model(spec), case["init"], steps, o=case["order"],
                              rule=lambda v: ref.apply_rule(case["rule"], v), past=past or None,
                              topo=(lambda n, a, t: ref.topo_model(case["topo"], n, a, t)) if case["topo"] else None)
    hist = past + [a for a, _ in expected]
    inner = ref.Rule(case["rule"], steps - 1)

    def rule(ctx):
        t = ctx.timestep
        what = "t=%s node=%r: " % (t, ctx.node_label)
        if not k:
            check(not ctx.past_activities, what + "past activities %r without past conditions", ctx.past_activities)
        else:
            want = hist[t - 1:t - 1 + k]
            eq(len(ctx.past_activities), k, what + "number of past activities")
            for i in range(k):
                ref.same_acts(ctx.past_activities[i], want[i], what + "past activities [%d]" % i)
                eq(ctx.past_activity_of(ctx.node_label, i - k), want[i - k][ctx.node_label],
                   what + "past_activity_of(.., %d)" % (i - k))
                eq(ctx.past_activity_of(ctx.node_label, i), want[i][ctx.node_label], what + "past_activity_of(.., %d)" % i)
            eq(ctx.past_activity_of(ctx.node_label), want[-1][ctx.node_label], what + "past_activity_of(node)")
        return inner(ctx)

    given = [[p[v] for v in spec["nodes"]] if case["aslist"] else dict(p) for p in past]
    init = dict(case["init"])
    if case.get("same"):
        init, given = given[0], [given[0]] * k
    traj = ref.evolve(network=ref.build(spec), initial_conditions=init, activity_rule=rule,
                      topology_rule=ref.Topo(case["topo"], steps - 1) if case["topo"] else None, timesteps=steps,
                      past_conditions=given if given or case["empty"] == "list" else None,
                      update_order=ref.order(case["order"]), compression=case["compression"],
                      persist_activities=case["pa"], persist_network=case["pn"])
    eq(len(traj), steps, "number of states")
    if case["pa"]:
        for t, (s, (a, _)) in enumerate(zip(traj, expected)):
            ref.same_acts(s.activities, a, "activities at t=%d" % t)
    eq(len(inner.calls), (steps - 1) * len(spec["nodes"]), "number of applications of the rule")
    return k >= 1 and steps > 2, ["k=%d" % k, "longer" if steps > k + 1 else "shorter",
                                  "persisted" if case["pa"] else "not persisted"]
