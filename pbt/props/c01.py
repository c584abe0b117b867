"""C01: the evolution equations, for each update order, against a reference evolution."""
from .. import ref
from ..base import check, eq
from ..ref import ntm

RULE = """A case is a random directed multigraph (labels of several types, self-loops, parallel edges, optionally a
rotation system), a hash-based activity rule reading a random selection of everything its context offers, an optional
topology rule (in place, rebuilt or identity; also removing nodes, or adding some if only it evolves) driven by timestep, activities and edges, an update order, initial
activities (list or dict) and a number of timesteps; the states are compared with a reference evolution. Non-trivial:
some activity or edge changes after the initial state and there are at least two nodes."""
N = 9000
SPIKE = 10
NOISE = "cmphf"
THOROUGH = 30


def gen(d):
    has_rule = d.bool(0.93)
    has_topo = d.bool(0.6) or not has_rule
    rot = (not has_topo) and d.bool(0.4)
    spec = ref.net_spec(d, small=5, large=30, rot=rot)
    prog = ref.rule_prog(d, ordered=rot)
    init = {v: ref.init_value(d, prog) for v in spec["nodes"]} if has_rule else {}
    as_list = spec["nodes"] == list(range(len(spec["nodes"]))) and bool(init) and d.bool(0.5)
    topo = ref.topo_prog(d, nodes=["rm"] if has_rule else ["rm", "add"]) if has_topo else None
    return {"net": spec, "rule": prog if has_rule else None, "topo": topo,
            "nocopy": bool(topo) and topo["mode"] != "inplace" and d.bool(0.3),
            "order": d.choice("ATS"), "init": init, "as_list": as_list, "pa": d.bool(0.85),
            "steps": d.size(1, 5, 30)}


def run(case):
    spec, steps = case["net"], case["steps"]
    net = ref.build(spec)
    rule = ref.Rule(case["rule"], steps - 1) if case["rule"] else None
    topo = ref.Topo(case["topo"], steps - 1) if case["topo"] else None
    init = [case["init"][v] for v in spec["nodes"]] if case["as_list"] else dict(case["init"])
    traj = ref.evolve(network=net, initial_conditions=init, activity_rule=rule, topology_rule=topo,
                      timesteps=steps, **({"copy_network": False} if case.get("nocopy") else {}), update_order=ref.order(case["order"]), persist_activities=case["pa"])
    expected = ref.ref_evolve(
        ref.model(spec), case["init"], steps, o=case["order"], rot=spec["rot"],
        rule=(lambda v: ref.apply_rule(case["rule"], v)) if rule else None,
        topo=(lambda n, a, t: ref.topo_model(case["topo"], n, a, t)) if topo else None)
    ref.same_states(traj, expected, acts=bool(rule) and case["pa"])
    if rule:
        eq(sorted(rule.calls, key=repr), sorted(((t, v) for t in range(1, steps) for v in expected[t if case["order"] == "T" else t - 1][1].nodes), key=repr),
           "applications of the activity rule (timestep, node)")
        eq([t for t, _ in rule.calls], sorted(t for t, _ in rule.calls), "order of the timesteps")
    if topo:
        eq([t for t, _ in topo.calls], list(range(1, steps)), "timesteps of the topology rule")
        for t, acts in topo.calls:
            want = expected[t][0] if case["order"] == "A" else expected[t - 1][0]
            if rule or t == 1:
                ref.same_acts(acts, want, "activities given to the topology rule at t=%d" % t)
    changed = any(expected[t][0] != expected[0][0] or expected[t][1].edge_map() != expected[0][1].edge_map()
                  for t in range(1, steps))
    check(traj[0].network is not None, "the initial state has no network")
    return changed and len(spec["nodes"]) > 1, ["order " + case["order"], "topology" if topo else "static",
                                                "rotation" if spec["rot"] else "no rotation"]
