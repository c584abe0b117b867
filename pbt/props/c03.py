"""C03: numbers of states, and the input each node gets."""
import functools

from .. import ref
from ..base import check, eq, fail, raises
from ..ref import ntm

RULE = """A case is a random network, a hash-based rule that reads its input, and one of: timesteps (1 to 40), an input
list, or an input function, whose items are scalars (falsy ones, None-like strings and floats included), or per-node
sequences (list, tuple, string; nodes are then labelled 0..n-1), with or without timesteps given as well, with or
without a perturbation; some cases have no activity rule or no nodes and items of any kind, empty sequences included. Compared: number of states, inputs seen by rule and perturbation at each timestep and node,
arguments of the input function, and activities. Non-trivial: at least two timesteps with input, or T at least 3."""
N = 8000
SPIKE = 10
NOISE = "cmhp"


def item(d, n):
    k = d.int(0, 9)
    if k < 3:
        return d.choice([0, 1, 0, 2, 7, -3])
    if k < 5:
        return d.choice([0.0, 0.5, False, True, -1.5])
    if k < 8:
        return [d.choice([0, 1, 2, 0.5, "a", "", False, None]) for _ in range(n)]
    if k < 9 and d.bool(0.3):
        a = d.int(-1, 2)
        return range(a, a + n)
    if k < 9:
        return tuple(d.int(0, 3) for _ in range(n))
    return "".join(d.choice("ab01") for _ in range(n))


def gen(d):
    n = d.size(1, 5, 20)
    spec = ref.net_spec(d, n=n, lab=list(range(n)))
    mode = d.weighted([("timesteps", 3), ("list", 5), ("fn", 4), ("neither", 1)])
    if d.bool(0.12):
        # without an activity rule, or nodes, no item is ever indexed, so any value can drive the evolution
        return {"net": spec, "mode": "free", "fn": d.bool(), "nodes": d.bool(),
                "items": [d.choice([0, "", (), [], 0.0, False, "abc", [1], {}, b"", 5, [[]]]) for _ in range(d.size(0, 5, 15))]}
    prog = ref.rule_prog(d, inp=True)
    case = {"net": spec, "mode": mode, "rule": prog, "init": [ref.init_value(d, prog) for _ in range(n)],
            "perturb": d.bool(0.4), "order": d.choice("AATS")}
    if mode == "timesteps":
        case["T"] = d.size(1, 6, 40)
    elif mode != "neither":
        L = d.size(0, 5, 25)
        case["items"] = [item(d, n) for _ in range(L)]
        case["T"] = d.choice([None, None, 1, 2, 50])
        case["tuple"] = d.bool(0.2)
        case["callable"] = d.choice(["function", "function", "object", "partial", "method"])
    return case


EXPLICIT = [
    {"net": {"nodes": [0], "edges": [], "rot": None}, "mode": "timesteps", "T": 1, "init": [1], "perturb": True,
     "order": "A", "rule": {"uses": ["inp"], "salt": 1, "k": 2, "out": "int"}},
]


def run(case):
    spec = case["net"]
    n = len(spec["nodes"])
    if case["mode"] == "free":
        items, topo = case["items"], []
        net = ref.build(spec if case["nodes"] else {"nodes": [], "edges": []})

        def rule(ctx):
            topo.append(ctx.timestep)
            return ctx.network
        traj = ntm.evolve(network=net, topology_rule=rule, activity_rule=None if case["nodes"] else lambda ctx: 0,
                          input=(lambda t, *_: items[t - 1] if t <= len(items) else None) if case["fn"] else list(items))
        eq(len(traj), len(items) + 1, "number of states for the inputs %r" % (items,))
        eq(topo, list(range(1, len(items) + 1)), "timesteps")
        return len(items) > 1, ["free"]
    if case["mode"] == "neither":
        raises(lambda: ntm.evolve(network=ref.build(spec), initial_conditions=list(case["init"]),
                                  activity_rule=ref.Rule(case["rule"])), "evolve without timesteps and input")
        return False, ["neither"]
    items = case.get("items")
    states = case["T"] if items is None else len(items) + 1
    per_node = None
    if items is not None:
        per_node = [{v: (it[v] if isinstance(it, (list, tuple, str, range)) else it) for v in range(n)} for it in items]
    inner = ref.Rule(case["rule"], states - 1)
    seen, pseen, fcalls = [], [], []

    def rule(ctx):
        seen.append((ctx.timestep, ctx.node_label, ctx.input))
        return inner(ctx)

    def perturb(p):
        pseen.append((p.timestep, p.node_label, p.input))
        return p.node_activity

    def fn(t, *args):
        fcalls.append(t)
        if len(fcalls) > len(items) + 1:
            fail("the input function was called again after it had returned None")
        return items[t - 1] if t <= len(items) else None

    kw = {}
    given = fn
    if case.get("callable") == "partial":
        given = functools.partial(lambda k, *args: fn(*args), 1)
    elif case.get("callable") in ("object", "method"):
        class Feed:
            def __call__(self, t, *args):
                return fn(t, *args)
        given = Feed() if case["callable"] == "object" else Feed().__call__
    if items is None:
        kw["timesteps"] = case["T"]
    else:
        kw["input"] = given if case["mode"] == "fn" else \
            (tuple if case.get("tuple") else list)(list(i) if isinstance(i, list) else i for i in items)
        if case["T"] is not None:
            kw["timesteps"] = case["T"]
    traj = ref.evolve(network=ref.build(spec), initial_conditions=list(case["init"]), activity_rule=rule,
                      perturbation=perturb if case["perturb"] else None, update_order=ref.order(case["order"]), **kw)
    eq(len(traj), states, "number of states")
    want = [(t, v, per_node[t - 1][v] if per_node else None) for t in range(1, states) for v in range(n)]
    key = lambda x: (x[0], x[1])  # noqa: E731
    for got, who in [(seen, "rule")] + ([(pseen, "perturbation")] if case["perturb"] else []):
        got = sorted(got, key=key)
        eq([key(g) for g in got], [key(w) for w in want], "applications of the " + who)
        for g, w in zip(got, want):
            if type(g[2]) is not type(w[2]) or g[2] != w[2]:
                fail("t=%d node=%d: the %s received input %r, expected %r", w[0], w[1], who, g[2], w[2])
    if case["mode"] == "fn":
        eq(fcalls, list(range(1, states + 1)), "timesteps the input function was called with")
    expected = ref.ref_evolve(ref.model(spec), dict(enumerate(case["init"])), states, inputs=per_node,
                              rule=lambda v: ref.apply_rule(case["rule"], v), o=case["order"])
    ref.same_states(traj, expected)
    check(bool(traj), "no states")
    return (states > 2), [case["mode"], "with timesteps" if items is not None and case["T"] else "alone"]
