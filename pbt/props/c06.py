"""C06: memoization is transparent."""
from .. import ref
from ..base import check, eq, h
from ..ref import ntm

RULE = """A case is a random network with or without a rotation system, static or with a topology rule (which turns the rotation system), and two rules
pure in the neighbourhood's activities (ordered with a rotation system, as a multiset without) or in a custom
memoization key; both rules are evolved one after the other with and without memoization, twice each, on activities of
several types, some with a perturbation that is a function of node and timestep. Compared: trajectories with the reference, number of rule calls with the number of distinct keys.
Non-trivial: the memoized evolution called the rule fewer times than there are node-timesteps, and at least twice."""
N = 5000
SPIKE = 6
NOISE = "cph"


def gen(d):
    topo = d.bool(0.25)
    rot = d.bool(0.3 if topo else 0.5)
    custom = d.bool(0.3)
    if d.bool(0.006):     # very many different neighbourhoods in one evolution, which come again
        n, k = d.int(300, 2500), d.choice([1, 2, 3])
        prog = ref.rule_prog(d, uses=["acts"], kinds=("int",))
        return {"net": {"nodes": list(range(n)), "edges": [(i, i, {}) for i in range(n)], "rot": None}, "rules": [prog, dict(prog)],
                "key": [], "order": d.choice("AT"), "np": False, "topo": None, "steps": d.int(3, 4), "many": True,
                "init": {v: v % (n // k) for v in range(n)}}
    hub = d.bool(0.12)
    if hub:     # every node has many neighbours, of few activities
        n = d.int(9, 14)
        lab = ref.labels(d, n)
        edges = [(i, j, {}) for i in lab for j in lab if d.bool(0.9)]
        spec = {"nodes": lab, "edges": edges, "rot": None}
        if rot:
            m = ref.NM(lab, edges)
            spec["rot"] = {v: d.shuffle(list(m.inc[v])) for v in lab}
    else:
        spec = ref.net_spec(d, small=6, large=25, rot=rot)
    use = ["oacts" if rot else "acts"]
    key = []
    if custom:
        key = d.sample(["cur", "label", "t", "acts", "oacts"] if rot else ["cur", "label", "t", "acts"], d.int(1, 3))
        use = list(key)
    progs = [ref.rule_prog(d, uses=use, kinds=("int", "neg", "neg", "str", "float", "tuple", "estr", "bool", "none", "nan")) for _ in range(2)]
    progs[1]["out"] = progs[0]["out"]
    progs[0]["k"] = progs[1]["k"] = 2 if hub else progs[0]["k"]
    return {"net": spec, "rules": progs, "key": key, "order": d.choice("AATS"), "np": d.bool(0.3),
            "topo": ref.topo_prog(d) if topo else None, "steps": d.size(2, 7, 20), "perturb": d.bool(0.3),
            "init": {v: ref.init_value(d, progs[0]) for v in spec["nodes"]}}


def key_of(key, v):
    parts = []
    for u in key:
        if u == "acts":
            parts.append(tuple(sorted((repr(a) for a in v["acts"]))))
        elif u == "oacts":
            parts.append(tuple(v["acts"]))
        else:
            parts.append(v[u])
    return tuple(parts)


def run(case):
    import numpy as np
    spec, steps = case["net"], case["steps"]

    class Key(ntm.MemoizationKey):
        def to_key(self, ctx):
            return key_of(case["key"], ref.ctx_view(ctx))

    turn = case["topo"] and spec["rot"] is not None
    model_topo = None if not case["topo"] else \
        (lambda n, a, t: ref.turning_model(case["topo"], spec["rot"], n, a, t)) if turn else \
        (lambda n, a, t: ref.topo_model(case["topo"], n, a, t))

    def disturb(v, x, t, inp):
        y = h(case["rules"][0]["salt"], "perturbation", repr(v), t)
        return ref.out_value(case["rules"][0]["out"], case["rules"][0]["k"], y // 2) if y % 2 else x

    p = disturb if case.get("perturb") else None
    nontriv = False
    shared_net = ref.build(spec)
    wrap = (lambda r: np.int64(r) if type(r) is int else np.float64(r) if type(r) is float else r) \
        if case["np"] else None
    for prog in case["rules"][:1] if case.get("many") else case["rules"] + case["rules"][:1]:
        expected = ref.ref_evolve(ref.model(spec), case["init"], steps, o=case["order"], rot=spec["rot"],
                                  rule=lambda v: ref.apply_rule(prog, v),
                                  topo=model_topo, perturb=p)
        distinct = set()
        ref.ref_evolve(ref.model(spec), case["init"], steps, o=case["order"], rot=spec["rot"],
                       rule=lambda v: (distinct.add(key_of(case["key"] or prog["uses"], v)), ref.apply_rule(prog, v))[1],
                       topo=model_topo, perturb=p)
        for memo in (True, False):
            rule = ref.Rule(prog, steps - 1, wrap=wrap)
            net = shared_net if not case["topo"] else ref.build(spec)
            traj = ref.evolve(network=net, initial_conditions=dict(case["init"]), activity_rule=rule, timesteps=steps,
                              topology_rule=ref.Turning(case["topo"], spec["rot"], steps - 1) if turn else
                              ref.Topo(case["topo"], steps - 1) if case["topo"] else None,
                              update_order=ref.order(case["order"]), memoize=memo,
                              perturbation=p and (lambda c: p(c.node_label, c.node_activity, c.timestep, None)),
                              memoization_key=Key() if case["key"] and memo else None)
            ref.same_states(traj, expected, "memoize=%s" % memo)
            total = (steps - 1) * len(spec["nodes"])
            if memo:
                check(prog["out"] == "nan" or len(rule.calls) <= len(distinct), "the memoized rule was called %d times for %d distinct keys",
                      len(rule.calls), len(distinct))
                nontriv = nontriv or 2 <= len(rule.calls) < total
                if case["np"]:
                    for s in traj:
                        for v, a in s.activities.items():
                            check(not isinstance(a, np.generic), "activity of %r stored as %s", v, type(a))
            else:
                eq(len(rule.calls), total, "number of rule calls without memoization")
    return nontriv, ["custom key" if case["key"] else "default key", "rotation" if spec["rot"] else "no rotation",
                     "topology" if case["topo"] else "static", case["rules"][0]["out"]]
