"""C08: arguments and earlier states stay untouched; evolutions repeat and compose."""
import copy

import numpy as np

from .. import ref
from ..base import check, eq, fail
from ..ref import ntm

RULE = """A case is a random network, pure rule, topology rule (in place with copying, rebuilt or none), optional past
conditions, inputs and node attributes. Snapshots of all arguments are compared before and after; every earlier state is
snapshotted while the evolution runs (through the rules) and compared at the end; the evolution is repeated with the
same argument objects (also without an activity rule); and it is split at every (or a random) timestep into two legs. Non-trivial: at least three
timesteps and some activity or edge changes."""
N = 4000
SPIKE = 6
NOISE = "m"


def gen(d):
    topo = d.bool(0.6)
    rot = not topo and d.bool(0.4)
    inp = d.bool(0.3)
    past = d.choice([0, 0, 0, 1, 2])
    n = d.size(1, 5, 18)
    spec = ref.net_spec(d, n=n, rot=rot, lab=list(range(n)) if inp else None)
    uses = None
    prog = ref.rule_prog(d, ordered=rot, inp=inp, past=past > 0)
    if d.bool(0.12):
        prog["out"] = "list"
    prog["uses"] = [u for u in prog["uses"] if u != "t"] or ["nbr"]   # pure in time: a second leg starts at t=0
    tp = ref.topo_prog(d) if topo else None
    if tp:
        tp["uses"] = [u for u in tp["uses"] if u != "t"]
    steps = d.size(1, 6, 14)
    return {"norule": d.choice(["empty", "some", "all", "none", "list"]) if tp and d.bool(0.15) else None, "net": spec, "rule": prog, "topo": tp, "order": d.choice("AATS"), "steps": steps,
            "init": {v: ref.init_value(d, prog) for v in spec["nodes"]}, "form": d.choice(["dict", "list", "list" if prog["out"] in ("tuple", "none", "list") else "array"]),
            "pastform": d.choice(["dict", "list", "list" if prog["out"] in ("tuple", "none", "list") else "array"]), "rottuple": rot and d.bool(0.5), "pn": d.bool(0.8), "comp": not rot and d.bool(0.3),
            "past": [{v: ref.init_value(d, prog) for v in spec["nodes"]} for _ in range(past)],
            "inputs": [d.choice([0, 1]) if d.bool() else [d.int(0, 3) for _ in range(n)] for _ in range(steps - 1)]
            if inp else None,
            "cuts": sorted({d.int(1, max(1, steps - 1)) for _ in range(2)})}


def snap(net):
    return (list(net.nodes), ref.edge_map(net), {n: (net.in_degree(n), net.out_degree(n)) for n in net.nodes},
            None if net.rotation_system is None else copy.deepcopy(net.rotation_system),
            copy.deepcopy(dict(net.to_networkx().nodes(data=True))))


def no_rule(case):
    """A topology rule alone, with whatever initial conditions."""
    spec, steps = case["net"], case["steps"]
    net = ref.build(spec)
    before = snap(net)
    init = {"empty": {}, "some": dict(list(case["init"].items())[::2]), "all": dict(case["init"]), "none": None, "list": []}[case["norule"]]
    init0 = copy.deepcopy(init)
    tp = dict(case["topo"], uses=[u for u in case["topo"]["uses"] if u != "acts"])
    first = None
    for again in range(2):
        traj = ref.evolve(network=net, initial_conditions=init, timesteps=steps, topology_rule=ref.Topo(tp, steps - 1),
                          update_order=ref.order(case["order"]), persist_network=True, compression=case["comp"])
        eq(init, init0, "the given initial conditions after evolving without an activity rule")
        eq(snap(net), before, "the given network after evolving without an activity rule")
        eq(dict(traj[0].activities or {}), dict(init0 or {}), "initial activities without an activity rule")
        now = [ref.edge_map(s.network) for s in traj]
        if first is not None:
            eq(now, first, "the second, identical evolution without an activity rule")
        first = now
    eq(len(first), steps, "number of states without an activity rule")
    return steps > 2 and any(x != first[0] for x in first), ["no activity rule", case["norule"]]


def run(case):
    if case.get("norule"):
        return no_rule(case)
    spec, steps = case["net"], case["steps"]
    net = ref.build(spec)
    if case.get("rottuple"):
        net.rotation_system = {v: tuple(us) for v, us in spec["rot"].items()}
    for i, v in enumerate(spec["nodes"]):
        net.add_node(v, mark=i)
    form = case["form"] if spec["nodes"] == list(range(len(spec["nodes"]))) else "dict"
    init = dict(case["init"])
    if form != "dict":
        init = [init[v] for v in spec["nodes"]]
        if form == "array":
            init = np.array(init)
    pform = case["pastform"] if spec["nodes"] == list(range(len(spec["nodes"]))) else "dict"
    past = [dict(p) if pform == "dict" else [p[v] for v in spec["nodes"]] if pform == "list"
            else np.array([p[v] for v in spec["nodes"]]) for p in case["past"]] or None
    inputs = copy.deepcopy(case["inputs"])
    args0 = (snap(net), repr(past), repr(inputs))
    init0 = copy.deepcopy(init)
    copying = not case["topo"] or case["topo"]["mode"] == "inplace" or len(case["cuts"]) % 2 == 1

    def go(network, initial, T, past_c, inp, pn=True):
        kw = {"timesteps": T} if inp is None else {"input": inp}
        live = {}

        inner = ref.Topo(case["topo"], T - 1) if case["topo"] else None

        def topo(ctx):
            r = inner(ctx)
            live[ctx.timestep] = snap(r)
            return r
        acts_live = {}

        def perturb(p):
            acts_live.setdefault(p.timestep, {})[p.node_label] = p.node_activity
            return p.node_activity
        tr = ref.evolve(network=network, initial_conditions=initial, activity_rule=ref.Rule(case["rule"], T - 1),
                        topology_rule=topo if inner else None, past_conditions=past_c, copy_network=copying,
                        update_order=ref.order(case["order"]), perturbation=perturb, persist_network=pn, compression=case["comp"], **kw)
        for t, s in enumerate(tr):
            if t:
                ref.same_acts(s.activities, acts_live[t], "state %d was changed after it was computed: activities" % t)
            if t in live and pn:
                eq(snap(s.network)[1:3], live[t][1:3], "state %d was changed after it was computed: network" % t)
        return tr

    traj = go(net, init, steps, past, inputs)
    eq(snap(net), args0[0], "the given network after evolving")
    eq((repr(past), repr(inputs)), args0[1:], "the given past conditions and input after evolving")
    if form == "array":
        check(init.dtype == init0.dtype and np.array_equal(init, init0), "the initial conditions changed")
    else:
        eq(init, init0, "the given initial conditions after evolving")
    first = [(dict(s.activities), ref.edge_map(s.network)) for s in traj]
    again = go(net, init, steps, past, inputs)
    eq([(dict(s.activities), ref.edge_map(s.network)) for s in again], first, "the second, identical evolution")
    eq([(dict(s.activities), ref.edge_map(s.network)) for s in traj], first, "the first evolution after the second")
    if not case["pn"]:
        unstored = go(net, init, steps, past, inputs, pn=False)
        eq([s.activities for s in unstored], [a for a, _ in first], "the evolution without persisted networks")
        eq(snap(net), args0[0], "the given network after evolving without persisting networks")
    check(len(first) == steps, "%d states instead of %d", len(first), steps)
    for cut in case["cuts"]:
        if cut >= steps:
            continue
        if past:
            hist = [dict(p) for p in case["past"]] + [a for a, _ in first]
            pc = hist[cut:cut + len(past)]
        else:
            pc = None
        leg = go(traj[cut].network, dict(traj[cut].activities), steps - cut, pc,
                 None if inputs is None else inputs[cut:])
        got = [(dict(s.activities), ref.edge_map(s.network)) for s in leg]
        if got != first[cut:]:
            k = next((k for k in range(min(len(got), len(first) - cut)) if got[k] != first[cut + k]), -1)
            fail("evolving on from state %d differs from evolving at once, first at state %d: %r instead of %r",
                 cut, cut + k, got[k], first[cut + k])
    changed = any(f != first[0] for f in first)
    return changed and steps > 2, ["topology" if case["topo"] else "static", form, "past" if past else "no past",
                                   "input" if inputs is not None else "no input"]
