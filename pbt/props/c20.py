"""C20: asynchronous rules update one node per timestep, in the given cyclic order."""
import numpy as np

from .. import ref
from ..base import check, eq, raises
from ..ref import ntm

RULE = """A case is a random network (with or without a rotation system, any labels), a rule program, an update order (a list of
distinct labels, complete or partial, or a number of nodes n), with or without randomization, and an evolution of up to
several cycles. The updated node of every timestep is compared with the cyclic order, its new activity with the
program's value, every other node's activity with its previous one, and the calls of the wrapped rule with the updated
nodes. Giving neither order nor n must be an error. Non-trivial: at least two nodes and some activity changes."""
N = 6000
SPIKE = 6
NOISE = "cmphnk"


def gen(d):
    if d.bool(0.02):
        return {"none": d.bool()}
    byn = d.bool(0.25)
    n = d.size(1, 6, 20)
    spec = ref.net_spec(d, n=n, lab=list(range(n)) if byn else ref.labels(d, n, "mixed") if d.bool(0.1) else None, rot=d.bool(0.3))
    prog = ref.rule_prog(d, ordered=bool(spec["rot"]))
    lab = spec["nodes"]
    order = None if byn else d.sample(lab, n if d.bool(0.4) else d.int(1, n))
    m = n if byn else len(order)
    return {"net": spec, "rule": prog, "order": order, "rand": d.bool(0.35), "steps": 1 + d.size(1, 2 * m + 2, 4 * m),
            "init": [ref.init_value(d, prog) for _ in lab], "seed": d.seed(), "uo": d.choice("AATS")}


def run(case):
    if "none" in case:
        raises(lambda: ntm.AsynchronousRule(lambda ctx: 0, randomize_each_cycle=case["none"]),
               "an asynchronous rule with neither update order nor n")
        return False, ["neither"]
    spec = case["net"]
    lab = spec["nodes"]
    np.random.seed(case["seed"])
    inner = ref.Rule(case["rule"], limit=case["steps"] - 1)
    given = None if case["order"] is None else list(case["order"])
    kw = {"n": len(lab)} if given is None else {"update_order": given}
    if case["rand"]:
        kw["randomize_each_cycle"] = True
    rule = ntm.AsynchronousRule(activity_rule=inner, **kw)
    traj = ref.evolve(network=ref.build(spec), initial_conditions=dict(zip(lab, case["init"])), timesteps=case["steps"],
                      activity_rule=rule, update_order=ref.order(case["uo"]))
    eq(len(traj), case["steps"], "number of states")
    eq([t for t, _ in inner.calls], list(range(1, case["steps"])), "timesteps at which the wrapped rule was applied")
    updated = [v for _, v in inner.calls]
    if given is not None:
        eq(list(given), case["order"], "the given update order afterwards")
    m = ref.model(spec)
    allowed = set(lab if case["order"] is None else case["order"])
    check(set(updated) <= allowed, "updated nodes %r, the update order is %r", updated, case["order"])
    if not case["rand"]:
        if case["order"] is not None:
            cyc = case["order"]
        else:
            cyc = updated[:len(lab)]
            eq(len(set(cyc)), len(cyc), "distinct nodes in the first cycle %r of n=%d" % (cyc, len(lab)))
        eq(updated, [cyc[t % len(cyc)] for t in range(len(updated))], "updated nodes (order %r)" % (case["order"],))
    else:
        # the order changes (that two rounds agree is less likely than 1e-12 if the order has 15 nodes)
        k = len(allowed)
        if k >= 15 and len(updated) >= 2 * k:
            check(updated[:k] != updated[k:2 * k], "the order is randomized in each cycle, but %r is repeated", updated[:k])
    acts = dict(zip(lab, case["init"]))
    ref.same_acts(traj[0].activities, acts, "initial activities")
    changed = False
    for t in range(1, case["steps"]):
        v = updated[t - 1]
        new = dict(acts)
        new[v] = ref.apply_rule(case["rule"], ref.node_view(m, spec["rot"], v, t, acts))
        ref.same_acts(traj[t].activities, new, "activities at t=%d, when %r is updated" % (t, v))
        changed = changed or new != acts
        acts = new
    return changed and len(lab) >= 2, ["n" if case["order"] is None else
                                       "partial" if len(case["order"]) < len(lab) else "complete",
                                       "random" if case["rand"] else "cyclic"]
