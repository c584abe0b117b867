"""C21: reversible rules can be run backwards."""
from .. import ref
from ..base import check, eq
from ..ref import ntm

RULE = """A case is a binary rule (a program that does not depend on the timestep, or an elementary rule on a ring), a network,
initial and past conditions of 0s and 1s, and a length. The evolution under ReversibleRule is compared with rule XOR
previous activity computed directly; then every one of several pairs of successive states in swapped order is evolved
back and compared with the earlier states in reverse, up to the past condition. Non-trivial: at least three nodes and the
states of the forward evolution are not all equal."""
N = 4000
SPIKE = 8
NOISE = "mpnk"


def gen(d):
    ring = d.bool(0.4)
    if ring:
        r = d.int(1, 2)
        n = d.size(2 * r + 1, 9, 30)
        c = {"ring": [n, r], "rule": d.int(0, 255 if r == 1 else 2 ** 32 - 1)}
        lab = list(range(n))
    else:
        spec = ref.net_spec(d, rot=d.bool(0.4))
        prog = ref.rule_prog(d, uses=d.subset(["cur", "acts", "nbr", "conn", "label", "all"]
                                              + (["oacts"] if spec["rot"] else []), 0.5) or ["acts"], kinds=("int",))
        prog["k"] = 2
        c = {"net": spec, "rule": prog}
        lab = spec["nodes"]
    steps = d.size(2, 6, 15)
    c["older"] = [[d.int(0, 1) for _ in lab] for _ in range(d.choice([0, 0, 1, 2]))]
    c.update(init=[d.int(0, 1) for _ in lab], past=[d.int(0, 1) for _ in lab], steps=steps,
             cuts=sorted({d.int(1, steps - 1), steps - 1}), aslist=d.bool(0.5) and lab == list(range(len(lab))),
             order=d.choice("AATS"), compression=d.bool(0.2))
    if d.bool(0.12):    # the very same object is given as the past and the initial condition
        c["past"], c["older"] = list(c["init"]), [list(c["init"]) for _ in c["older"]]
        c["same"] = True
    return c


def run(case):
    if "ring" in case:
        n, r = case["ring"]
        lab = list(range(n))

        def g(acts, v):
            k = 0
            for j in range(-r, r + 1):
                k = 2 * k + acts[(v + j) % n]
            return (case["rule"] >> k) & 1

        def net():
            return ntm.topology.cellular_automaton(n, r)

        def rule():
            return ntm.ReversibleRule(ntm.rules.nks_ca_rule(case["rule"]))
    else:
        spec = case["net"]
        lab = spec["nodes"]
        m = ref.model(spec)

        def g(acts, v):
            return ref.apply_rule(case["rule"], ref.node_view(m, spec["rot"], v, 0, acts))

        def net():
            return ref.build(spec)

        def rule():
            return ntm.ReversibleRule(ref.Rule(case["rule"]))

    def form(acts):
        return [acts[v] for v in lab] if case["aslist"] else dict(acts)

    def evolve(init, past, steps):
        first, given = form(init), [form(dict(zip(lab, p))) for p in case["older"]] + [form(past)]
        if case.get("same") and init == past:
            given = [first for _ in given]
        return [s.activities for s in ref.evolve(network=net(), initial_conditions=first, past_conditions=given,
                                                 timesteps=steps, activity_rule=rule(), update_order=ref.order(case["order"]),
                                                 compression=case["compression"])]
    hist = [dict(zip(lab, case["past"])), dict(zip(lab, case["init"]))]
    for t in range(1, case["steps"]):
        hist.append({v: g(hist[-1], v) ^ hist[-2][v] for v in lab})
    got = evolve(hist[1], hist[0], case["steps"])
    eq(len(got), case["steps"], "number of states")
    for t, s in enumerate(got):
        ref.same_acts(s, hist[t + 1], "reversible evolution at t=%d" % t)
    for t in case["cuts"]:
        # got[t] = S(t), hist[t + 1] = S(t); run back from S(t-1) with S(t) as the past
        back = evolve(got[t - 1], got[t], t + 1)
        for i, s in enumerate(back):
            ref.same_acts(s, hist[t - i], "evolving back from t=%d, after %d timesteps" % (t, i))
    check(all(type(v) is int for s in got for v in s.values()), "activities aren't plain integers")
    return len(lab) >= 3 and any(s != hist[1] for s in hist), ["ring" if "ring" in case else "network"]
