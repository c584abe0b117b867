"""C04: perturbations."""
from .. import ref
from ..base import check, eq, h  # noqa: F401
from ..ref import ntm

RULE = """A case is a random network (static or with a topology rule), a hash-based rule (or, with memoization, one that
is pure in its neighbourhood), a perturbation that is a function of (label, computed activity, timestep, input) and
changes a random share of the activities (or none), optional scalar or per-node inputs, and an update order, with and without
compression and persistence; states,
calls and arguments are compared with the reference. Non-trivial: the perturbation changes some activity and a later
timestep follows."""
N = 8000
SPIKE = 8
NOISE = "chfk"


def gen(d):
    n = d.size(1, 5, 20)
    memo = d.bool(0.35)
    topo = d.bool(0.25)
    inp = d.bool(0.35)
    rot = not topo and d.bool(0.3)
    spec = ref.net_spec(d, n=n, lab=list(range(n)) if inp else None, rot=rot)
    uses = None
    if memo:
        uses = ["oacts"] if rot else ["acts"]
    prog = ref.rule_prog(d, uses=uses, ordered=rot, inp=inp and not memo)
    case = {"net": spec, "rule": prog, "memo": memo, "order": d.choice("AATS"), "salt": d.int(0, 99),
            "store": {k: v for k, v in [("persist_activities", False), ("persist_network", False), ("compression", True)] if d.bool(0.2)},
            "rate": d.choice([0, 1, 2, 4]), "topo": ref.topo_prog(d) if topo else None, "steps": d.size(1, 5, 20),
            "init": {v: ref.init_value(d, prog) for v in spec["nodes"]}, "np": d.bool(0.2), "retype": not memo and d.bool(0.25)}
    if inp:
        case["inputs"] = [d.choice([0, 1, 5]) if d.bool() else [d.int(0, 3) for _ in range(n)]
                          for _ in range(case["steps"] - 1)]
    return case


def run(case):
    spec, steps = case["net"], case["steps"]
    items = case.get("inputs")
    per_node = [{v: (it[v] if isinstance(it, list) else it) for v in spec["nodes"]} for it in items] \
        if items is not None else None
    changed = [0]

    def p(label, value, t, inp):
        x = h(case["salt"], label, value, t, inp)
        if case.get("retype") and x % 3 == 0 and type(value) in (int, float, bool) and value == value // 1:
            if abs(value) < 2 ** 50:        # an equal activity, of another type
                return int(value) if type(value) is not int else bool(value) if value in (0, 1) and x % 2 else float(value)
        if case["rate"] and x % case["rate"] == 0:
            return ref.out_value(case["rule"]["out"], case["rule"]["k"], x // 7)
        return value

    calls = []

    def perturb(ctx):
        calls.append((ctx.timestep, ctx.node_label, ctx.node_activity, ctx.input))
        check(ctx.timestep < steps, "perturbation at timestep %r", ctx.timestep)
        r = p(ctx.node_label, ctx.node_activity, ctx.timestep, ctx.input)
        if case["np"] and type(r) is int:
            import numpy as np
            return np.int64(r)
        return r

    rule = ref.Rule(case["rule"], steps - 1)
    kw = {"timesteps": steps} if items is None else {"input": [list(i) if isinstance(i, list) else i for i in items]}
    traj = ref.evolve(network=ref.build(spec), initial_conditions=dict(case["init"]), activity_rule=rule,
                      topology_rule=ref.Topo(case["topo"], steps - 1) if case["topo"] else None,
                      perturbation=perturb, memoize=case["memo"], update_order=ref.order(case["order"]),
                      **dict(kw, **case["store"]))
    want = []

    def rp(label, value, t, inp):
        r = p(label, value, t, inp)
        changed[0] += (r != value) and t < steps - 1
        want.append((t, label, value, inp))
        return r

    expected = ref.ref_evolve(ref.model(spec), case["init"], steps, o=case["order"], rot=spec["rot"],
                              rule=lambda v: ref.apply_rule(case["rule"], v), inputs=per_node, perturb=rp,
                              topo=(lambda n, a, t: ref.topo_model(case["topo"], n, a, t)) if case["topo"] else None)
    ref.same_states(traj, expected, acts="persist_activities" not in case["store"], nets="persist_network" not in case["store"])
    eq(sorted(calls, key=repr), sorted(want, key=repr), "calls of the perturbation (t, node, computed activity, input)")
    if case["np"]:
        for s in traj if "persist_activities" not in case["store"] else traj[:1]:
            for v, a in s.activities.items():
                check(type(a).__module__ == "builtins", "the activity of %r is stored as %s", v, type(a))
    elif "persist_activities" not in case["store"]:
        for t, (s, (a, _)) in enumerate(zip(traj, expected)):
            for v in a:
                check(type(s.activities[v]) is type(a[v]), "t=%d: the activity of %r is %r, expected %r", t, v, s.activities[v], a[v])
    if case["rate"] == 0 and not case.get("retype"):
        if "persist_activities" in case["store"]:
            return False, ["identity, not persisted"]
        plain = ref.evolve(network=ref.build(spec), initial_conditions=dict(case["init"]),
                           activity_rule=ref.Rule(case["rule"], steps - 1), update_order=ref.order(case["order"]),
                           topology_rule=ref.Topo(case["topo"], steps - 1) if case["topo"] else None,
                           memoize=case["memo"], **kw)
        eq([s.activities for s in traj], [s.activities for s in plain], "states with the identity perturbation")
    return changed[0] > 0 or len(traj) > 1 and case.get("retype", False), ["retyped" if case.get("retype") else "as it is", "memoized" if case["memo"] else "plain", "input" if items is not None else "no input",
                            "order " + case["order"]]
