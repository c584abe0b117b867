"""C07: storage options do not change the evolution."""
import numpy as np

from .. import ref
from ..base import check, eq, fail
from ..ref import ntm

RULE = """A case is a random network, rule (results as plain values, NumPy scalars or tuples), topology rule or none (one
that does not modify its network in place when copying is varied), and 4 random combinations of compression,
persist_activities, persist_network, copy_network, memoize and form of the initial conditions (list, array, dict); all
available activities and networks are compared with a reference evolution, and the others must be None. Non-trivial:
at least two timesteps and some activity or edge changes."""
ASSUMES = ["The activities and attributes are values msgpack can represent (64-bit integers), tuples or NumPy scalars.",
           """Copying a network drops its rotation system (known finding), so cases with a topology rule have none."""]
N = 9000
SPIKE = 8


def gen(d):
    topo = d.bool(0.55)
    rot = not topo and d.bool(0.4)
    n = d.size(1, 5, 20) if d.bool(0.96) else 0
    spec = ref.net_spec(d, n=n, rot=rot, lab=ref.labels(d, n, "range") if d.bool(0.5) else None)
    kind = d.choice(["int", "int", "float", "str", "tuple"])
    prog = ref.rule_prog(d, ordered=rot, kinds=(kind,))
    tp = ref.topo_prog(d) if topo else None
    mixed = d.bool(0.25)    # initial conditions of several types
    combos = []
    for _ in range(4):
        combos.append({"compression": d.bool(), "persist_activities": d.bool(0.7), "persist_network": d.bool(0.7),
                       "copy_network": d.bool(),
                       "form": d.choice(["dict", "list", "array"] if spec["nodes"] == list(range(n)) else ["dict"])})
    if tp and tp["mode"] == "inplace":
        for c in combos:
            c["copy_network"] = True
    return {"net": spec, "rule": prog, "topo": tp, "combos": combos, "order": d.choice("AATS"),
            "init": {v: ref.init_value(d, prog) if not mixed else d.choice([0, 1, 7, -2, 0.5, -1.25, "a", "", (1, 2), True, 2.0])
                     for v in spec["nodes"]}, "mixed": mixed, "np": d.bool(0.5), "steps": d.size(1, 5, 15)}


def run(case):
    if "witness" in case:
        # known finding: an identity topology rule on an ordered CA
        res = []
        for copy in (True, False):
            net = ntm.topology.cellular_automaton(case["n"])
            traj = ntm.evolve(network=net, initial_conditions=list(case["init"]), timesteps=case["steps"],
                              activity_rule=ntm.rules.nks_ca_rule(case["rule"]), topology_rule=lambda c: c.network,
                              copy_network=copy)
            res.append([[int(v) for _, v in sorted(s.activities.items())] for s in traj])
        eq(res[0], res[1], "copy_network on versus off")
        return True, []
    spec, steps = case["net"], case["steps"]
    expected = ref.ref_evolve(ref.model(spec), case["init"], steps, o=case["order"], rot=spec["rot"],
                              rule=lambda v: ref.apply_rule(case["rule"], v),
                              topo=(lambda n, a, t: ref.topo_model(case["topo"], n, a, t)) if case["topo"] else None)

    def wrap(r):
        if not case["np"]:
            return r
        return np.int64(r) if type(r) is int else np.float64(r) if type(r) is float else r

    for c in case["combos"]:
        init = dict(case["init"])
        if c["form"] != "dict":
            init = [init[v] for v in spec["nodes"]]
            if c["form"] == "array":
                init = np.array(init) if case["rule"]["out"] not in ("tuple", "none") and not case["mixed"] else init
        what = "with %r: " % (c,)
        traj = ntm.evolve(network=ref.build(spec), initial_conditions=init, timesteps=steps,
                          activity_rule=ref.Rule(case["rule"], steps - 1, wrap=wrap),
                          topology_rule=ref.Topo(case["topo"], steps - 1) if case["topo"] else None,
                          update_order=ref.order(case["order"]), compression=c["compression"],
                          persist_activities=c["persist_activities"], persist_network=c["persist_network"],
                          copy_network=c["copy_network"])
        eq(len(traj), steps, what + "number of states")
        for t, s in enumerate(traj):
            if t == 0 or c["persist_activities"]:
                a = s.activities
                ref.same_acts(a, expected[t][0], what + "activities at t=%d" % t)
                for v, x in a.items():
                    if isinstance(x, np.generic) and not (c["form"] == "array" and isinstance(x, str)):
                        fail("%sactivity of %r at t=%d stored as %s", what, v, t, type(x))
            else:
                eq(s.activities, None, what + "activities at t=%d that are not persisted" % t)
            if t == 0 or c["persist_network"]:
                ref.same_network(s.network, expected[t][1], what + "network at t=%d" % t)
            else:
                check(s.network is None, what + "a network at t=%d that is not persisted", t)
    changed = any(expected[t][0] != expected[0][0] or expected[t][1].edge_map() != expected[0][1].edge_map()
                  for t in range(1, steps))
    return changed and steps > 2, ["topology" if case["topo"] else "static", "out " + case["rule"]["out"]] + \
        ["compressed" for c in case["combos"] if c["compression"]]
