"""Reference models: a directed multigraph, rule programs, and the documented evolution equations."""
import copy

import netomaton as ntm
import numpy as np

from .base import D, Invalid, check, eq, fail, h, norm, short  # noqa: F401

# ---------------------------------------------------------------- the multigraph


class NM:
    """A directed multigraph with attributes, written independently of netomaton.Network."""

    def __init__(self, nodes=(), edges=()):
        self.attrs = {}
        self.inc = {}     # j -> i -> [attribute dicts, in order of addition]
        for n in nodes:
            self.add_node(n)
        for i, j, a in edges:
            self.add_edge(i, j, **a)

    def add_node(self, n, **attr):
        self.attrs.setdefault(n, {})
        self.inc.setdefault(n, {})
        self.attrs[n].update(attr)

    def add_edge(self, i, j, **attr):
        self.add_node(i)
        self.add_node(j)
        self.inc[j].setdefault(i, []).append(dict(attr))

    def add_edge_bidir(self, i, j, **attr):
        self.add_edge(i, j, **attr)
        self.add_edge(j, i, **attr)

    def has_edge(self, i, j):
        return j in self.inc and i in self.inc[j]

    def update_edge(self, i, j, indices=None, **attr):
        es = self.inc[j][i]
        for k in (range(len(es)) if indices is None else indices):
            es[k].update(attr)

    def remove_edge(self, i, j):
        del self.inc[j][i]

    def remove_node(self, n):
        del self.attrs[n]
        del self.inc[n]
        for j in self.inc:
            self.inc[j].pop(n, None)

    @property
    def nodes(self):
        return list(self.attrs)

    @property
    def edges(self):
        return [(i, j, a) for j in self.inc for i in self.inc[j] for a in self.inc[j][i]]

    def in_degree(self, n):
        return sum(len(v) for v in self.inc[n].values())

    def out_degree(self, n):
        return sum(len(self.inc[j].get(n, ())) for j in self.inc)

    def copy(self):
        return copy.deepcopy(self)

    def edge_map(self):
        return {(i, j): [dict(a) for a in es] for j in self.inc for i, es in self.inc[j].items()}


def edge_map(net):
    """{(i, j): [attributes of the parallel edges, in order]} of a netomaton Network."""
    m = {}
    for i, j, a in net.edges:
        m.setdefault((i, j), []).append(dict(a))
    return m


def same_network(net, model, what, degrees=True):
    check(isinstance(net, ntm.Network), "%s: not a network but %s", what, short(net))
    got = list(net.nodes)
    check(len(got) == len(set(got)) and set(got) == set(model.attrs),
          "%s: the nodes are %s, expected %s", what, short(got), short(model.nodes))
    eq(edge_map(net), model.edge_map(), what + ": edges")
    eq(len(net), len(model.attrs), what + ": length")
    if degrees:
        for n in got:
            eq(net.in_degree(n), model.in_degree(n), "%s: in-degree of %r" % (what, n))
            eq(net.out_degree(n), model.out_degree(n), "%s: out-degree of %r" % (what, n))


# ---------------------------------------------------------------- networks as literals

def labels(d, n, kind=None):
    kind = kind or d.weighted([("range", 4), ("ints", 2), ("str", 3), ("tuple", 1), ("mixed", 1), ("large", 1)])
    if kind == "range":
        return list(range(n))
    if kind == "ints":
        return d.sample(range(-n, 2 * n + 1), n)
    if kind == "large":
        return [1000 * i - 7 if i % 4 else i * 10 ** 12 + 500 for i in d.sample(range(n + 3), n)]
    if kind == "str":
        out = ["n%s" % i if i % 3 else chr(97 + i % 26) * (1 + i // 26) for i in range(n)]
        if n and d.bool(0.2):
            out[0] = d.choice(["", " ", "0", "None"])
        return d.shuffle(out)
    if kind == "tuple":
        return [(i // 2, "x%d" % (i % 2)) for i in range(n)]
    if d.bool(0.4):    # labels that read the same
        return [i // 2 if i % 2 else str(i // 2) for i in range(n)]
    return [i if i % 2 else "s%d" % i for i in range(n)]


def spoil(x):
    """Changes a result that belongs to the caller; a later call must not show it."""
    if hasattr(x, "add_edge"):
        x.rotation_system = {}
        for v in list(x.nodes)[:1]:
            x.add_edge(v, v, weight=77)
            x.remove_node(v)
        for i, j, _ in list(x.edges)[:1]:
            x.update_edge(i, j, weight=78)
        x.add_edge("spoiled", "spoiled")
    elif isinstance(x, dict):
        x.clear()
    else:
        for k, y in enumerate(x):
            if hasattr(y, "__setitem__"):
                y[len(y) // 2] = 79
            elif hasattr(x, "__setitem__"):
                x[k] = 79


def attr(d, p=0.6):
    a = {}
    if d.bool(p):
        a["weight"] = d.choice([1, 2, -1, 0.5, 3, 0])
    if d.bool(0.25):
        a["label"] = d.choice(["a", "b", "c"])
    return a


def net_spec(d, n=None, lab=None, small=6, large=24, rot=None, min_n=1, attrs=True, dens=None):
    """A literal network {"nodes", "edges", "rot"}."""
    n = n if n is not None else d.size(min_n, small, large)
    lab = lab if lab is not None else labels(d, n)
    m = d.int(0, max(1, int(n * (dens or 2.5)))) if n else 0
    edges = []
    for _ in range(m):
        i, j = d.choice(lab), d.choice(lab)
        edges.append((i, j, attr(d) if attrs else {}))
        if d.bool(0.15):
            edges.append((i, j, attr(d) if attrs else {}))   # a parallel edge
        if d.bool(0.15):
            edges.append((j, i, attr(d) if attrs else {}))
    spec = {"nodes": list(lab), "edges": edges, "rot": None}
    if rot:
        m = NM(lab, edges)
        spec["rot"] = {v: d.shuffle(list(m.inc[v])) for v in lab}
    return spec


def twin(x):
    """An equal object that is another one, where Python allows that."""
    if isinstance(x, tuple):
        return tuple([twin(y) for y in x])
    if type(x) is int:
        return int(str(x))
    if type(x) is str:
        return "".join(list(x))
    return x


def build(spec):
    net = ntm.Network()
    for v in spec["nodes"]:
        net.add_node(twin(v))
    for i, j, a in spec["edges"]:
        net.add_edge(twin(i), twin(j), **a)
    if spec.get("rot") is not None:
        net.rotation_system = {twin(k): [twin(u) for u in v] for k, v in spec["rot"].items()}
    return net


def model(spec):
    return NM(spec["nodes"], spec["edges"])


# ---------------------------------------------------------------- activity rules as literals

def out_value(kind, k, x):
    if kind == "str":
        return "abcdefghijklmnop"[x % min(k, 16)]
    if kind == "float":
        return (x % k) / 7.0 - 0.5
    if kind == "tuple":
        return (x % k, x % 3) if x % 4 else (x % k,)
    if kind == "list":
        return [x % k] * (1 + x % 2)
    if kind == "neg":
        return x % k - 2
    if kind == "estr":
        return ["", "0", "ab", "a", "b", "None", " "][x % k]
    if kind == "none":
        return [None, 0, "x", None, "", "None", -1][x % k]
    if kind == "bool":
        return x % 2 == 1
    if kind == "nan":
        return [float("nan"), 0.0, float("inf"), -0.5, float("-inf"), 1e-300, 2.0][x % k]
    if kind == "big":
        return (x % k - 1) * 1234567890123 + (x % 3)
    return x % k


def rule_prog(d, uses=None, ordered=False, past=False, inp=False, kinds=("int", "int", "int", "str", "float", "neg", "estr", "bool", "none", "big", "tuple")):
    base = ["cur", "nbr", "acts", "conn", "all", "t", "label"] + (["oacts", "onbr"] if ordered else []) \
        + (["past"] if past else []) + (["inp"] if inp else [])
    if uses is None:
        uses = [u for u in base if d.bool(0.6)]
        if ordered and "oacts" not in uses:
            uses.append("oacts")
        if past and "past" not in uses:
            uses.append("past")
        if inp and "inp" not in uses:
            uses.append("inp")
        if not uses:
            uses = ["nbr"]
    return {"uses": uses, "salt": d.int(0, 999), "k": d.choice([2, 3, 5, 7]), "out": d.choice(list(kinds))}


def init_value(d, prog):
    return out_value(prog["out"], prog["k"], d.int(0, 15))


def apply_rule(prog, v):
    """v: label, t, cur, nbrs (labels in order), acts (their activities), conn, all, past, inp."""
    parts = [prog["salt"]]
    for u in prog["uses"]:
        if u in ("cur", "t", "label", "inp"):
            parts.append((u, v[u]))
        elif u == "nbr":
            parts.append(sorted(((repr(a), norm(b)) for a, b in zip(v["nbrs"], v["acts"])), key=repr))
        elif u == "acts":
            parts.append(sorted((norm(a) for a in v["acts"]), key=repr))
        elif u == "oacts":
            parts.append(list(v["acts"]))
        elif u == "onbr":
            parts.append(list(v["nbrs"]))
        elif u == "conn":
            parts.append({k: [dict(a) for a in es] for k, es in v["conn"].items()})
        elif u == "all":
            parts.append(v["all"])
        elif u == "past":
            parts.append(v["past"])
        else:
            raise KeyError(u)
    return out_value(prog["out"], prog["k"], h(parts))


def ctx_view(ctx):
    return {"label": ctx.node_label, "t": ctx.timestep, "cur": ctx.current_activity,
            "nbrs": list(ctx.neighbour_labels), "acts": list(ctx.neighbourhood_activities),
            "conn": ctx.connection_states, "all": ctx.activities, "past": ctx.past_activities, "inp": ctx.input}


class Rule:
    """The activity rule of a program, for netomaton; records which (timestep, label) it was applied to."""

    def __init__(self, prog, limit=None, wrap=None):
        self.prog = prog
        self.calls = []
        self.limit = limit
        self.wrap = wrap

    def __call__(self, ctx):
        if self.limit is not None and ctx.timestep > self.limit:
            fail("the rule was applied at timestep %s, although the last one is %s", ctx.timestep, self.limit)
        self.calls.append((ctx.timestep, ctx.node_label))
        r = apply_rule(self.prog, ctx_view(ctx))
        return self.wrap(r) if self.wrap else r


# ---------------------------------------------------------------- topology rules as literals

def topo_prog(d, mode=None, nodes=()):
    """nodes: may it remove ("rm") or add ("add") nodes?"""
    return {"salt": d.int(0, 999), "mode": mode or d.choice(["inplace", "fresh", "inplace", "fresh", "same"]),
            "ops": d.int(1, 3), "uses": d.subset(["t", "acts", "edges"], 0.8), "nodes": [k for k in nodes if d.bool(0.3)]}


def topo_ops(prog, net, activities, t):
    parts = [prog["salt"]]
    if "t" in prog["uses"]:
        parts.append(t)
    if "acts" in prog["uses"]:
        parts.append(norm(dict(activities)))
    if "edges" in prog["uses"]:
        parts.append(sorted(repr((i, j, sorted(a.items()))) for i, j, a in net.edges))
    x = h(parts)
    nodes = sorted(net.nodes, key=repr)
    for k in range(prog["ops"]):
        if not nodes:
            return
        a, b = nodes[h(x, k, 1) % len(nodes)], nodes[h(x, k, 2) % len(nodes)]
        op = h(x, k, 3) % 4
        if "rm" in prog["nodes"] and h(x, k, 5) % 4 == 0 and len(nodes) > 1:
            net.remove_node(a)
            nodes.remove(a)
            continue
        if "add" in prog["nodes"] and h(x, k, 6) % 3 == 0:
            net.add_node("new%d.%d" % (t, k), weight=t)
            a = "new%d.%d" % (t, k)
        if op == 0 and net.has_edge(a, b):
            net.remove_edge(a, b)
        elif op == 1 and net.has_edge(a, b):
            net.update_edge(a, b, weight=h(x, k, 4) % 6)
        else:
            net.add_edge(a, b, weight=h(x, k, 4) % 4)


def rebuild(net):
    """A new Network with the same content, made without Network.copy()."""
    new = ntm.Network()
    for v in net.nodes:
        new.add_node(v)
    for i, j, a in net.edges:
        new.add_edge(i, j, **dict(a))
    return new


class Topo:
    def __init__(self, prog, limit=None):
        self.prog = prog
        self.calls = []
        self.limit = limit

    def __call__(self, ctx):
        if self.limit is not None and ctx.timestep > self.limit:
            fail("the topology rule was applied at timestep %s, although the last one is %s", ctx.timestep, self.limit)
        self.calls.append((ctx.timestep, dict(ctx.activities)))
        net = ctx.network
        if self.prog["mode"] == "same":
            return net
        if self.prog["mode"] == "fresh":
            net = rebuild(net)
        topo_ops(self.prog, net, ctx.activities, ctx.timestep)
        return net


def topo_model(prog, net, activities, t):
    net = net.copy()
    if prog["mode"] != "same":
        topo_ops(prog, net, activities, t)
    return net


def turned(rot, t):
    """The rotation system after t timesteps of a topology rule that turns it."""
    return {v: list(us[t % len(us):]) + list(us[:t % len(us)]) if us else [] for v, us in rot.items()}


class Turning(Topo):
    """A topology rule that gives the network a new rotation system at each timestep."""

    def __init__(self, prog, rot, limit=None):
        super().__init__(prog, limit)
        self.rot = rot

    def __call__(self, ctx):
        net = super().__call__(ctx)
        net.rotation_system = turned(self.rot, ctx.timestep)
        return net


def turning_model(prog, rot, net, activities, t):
    net = topo_model(prog, net, activities, t)
    net.rot = turned(rot, t)
    return net


# ---------------------------------------------------------------- the equations

ORDERS = {"A": "ACTIVITIES_FIRST", "T": "TOPOLOGY_FIRST", "S": "SYNCHRONOUS"}


def order(o):
    return getattr(ntm.UpdateOrder, ORDERS[o])


def node_view(net, rot, v, t, acts, past=None, inp=None):
    rot = getattr(net, "rot", rot)
    nbrs = list(rot[v]) if rot is not None else list(net.inc[v])
    return {"label": v, "t": t, "cur": acts[v], "nbrs": nbrs, "acts": [acts[u] for u in nbrs],
            "conn": net.inc[v], "all": acts, "past": past, "inp": inp}


def ref_evolve(net, init, steps, rule=None, topo=None, o="A", rot=None, past=None, inputs=None, perturb=None):
    """steps = number of states. rule(view) -> value; topo(net, acts, t) -> net; inputs[t-1][label];
    perturb(label, value, t, inp) -> value. Returns [(activities, net)]."""
    states = [(dict(init), net)]
    hist = [dict(p) for p in (past or [])] + [dict(init)]

    def G(a_net, acts, t):
        if rule is None:
            return {}
        pa = hist[-1 - len(past):-1] if past else None
        new = {}
        for v in a_net.nodes:
            inp = inputs[t - 1][v] if inputs is not None else None
            x = rule(node_view(a_net, rot, v, t, acts, pa, inp))
            new[v] = perturb(v, x, t, inp) if perturb else x
        return new

    def F(a_net, acts, t):
        return topo(a_net, acts, t) if topo else a_net

    for t in range(1, steps):
        acts, a = states[-1]
        if o == "A":
            s2 = G(a, acts, t)
            a2 = F(a, s2, t)
        elif o == "T":
            a2 = F(a, acts, t)
            s2 = G(a2, acts, t)
        else:
            a2 = F(a, acts, t)
            s2 = G(a, acts, t)
        states.append((s2, a2))
        hist.append(s2)
    return states


def same_states(traj, ref, what="evolution", nets=True, acts=True):
    check(isinstance(traj, list), "%s: evolve returned %s", what, short(traj))
    eq(len(traj), len(ref), what + ": number of states")
    for t, (s, (a, net)) in enumerate(zip(traj, ref)):
        if acts:
            same_acts(s.activities, a, "%s: activities at t=%d" % (what, t))
        if nets:
            same_network(s.network, net, "%s: network at t=%d" % (what, t), degrees=False)


def same_acts(got, expected, what):
    """Equal label by label, and of the same plain Python types."""
    if not isinstance(got, dict):
        fail("%s: got %s, expected %s", what, short(got), short(expected))
    if set(got) != set(expected):
        fail("%s: nodes %s, expected %s", what, short(sorted(got, key=repr)), short(sorted(expected, key=repr)))
    for v in expected:
        if not _same_value(got[v], expected[v]):
            fail("%s: node %r has %s, expected %s", what, v, short(got[v]), short(expected[v]))


def _same_value(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) == isinstance(b, np.ndarray) and np.array_equal(a, b)
    if isinstance(a, str) != isinstance(b, str):
        return False
    try:
        return bool(a == b) or isinstance(a, float) and isinstance(b, float) and a != a and b != b
    except Exception:
        return False


# ---------------------------------------------------------------- options that must not matter

NOW = {"noise": None}      # the current case's, set by the engine

NOISE_KINDS = {"c": 0.12, "m": 0.12, "p": 0.15, "h": 0.12, "f": 0.3, "k": 0.2, "n": 0.15, "u": 0.4}


def noise(d, kinds):
    """Options of evolve that make no difference to what a check looks at: c compression, m memoization by a unique key,
    p an identity perturbation, h past conditions nothing reads, f another form of the initial conditions, k no copying of
    the network, n networks not persisted, u another update order (without a topology rule)."""
    out = {}
    if not d.bool(0.6):
        return out
    for k in kinds:
        if d.bool(NOISE_KINDS[k]):
            out[k] = d.int(1, 3)
    return out


class _Unique(ntm.MemoizationKey):
    def to_key(self, ctx):
        return (ctx.timestep, ctx.node_label)


def _plain_numbers(xs):
    return len(xs) > 0 and (all(type(x) is int and abs(x) < 2 ** 62 for x in xs) or all(type(x) is float for x in xs))


def evolve(**kw):
    """netomaton.evolve with the current case's irrelevant options."""
    n = NOW["noise"] or {}
    init = kw.get("initial_conditions")
    if "c" in n:
        kw.setdefault("compression", True)
    if "n" in n:
        kw.setdefault("persist_network", False)
    if "k" in n and kw.get("topology_rule") is None:
        kw.setdefault("copy_network", False)
    if "m" in n and not kw.get("memoize"):
        kw.update(memoize=True, memoization_key=_Unique())
    if "p" in n and kw.get("perturbation") is None:
        kw["perturbation"] = lambda p: p.node_activity
    if "u" in n and kw.get("topology_rule") is None and "update_order" not in kw:
        kw["update_order"] = order("ATS"[n["u"] - 1])
    if init is not None and len(init):
        asdict = init if isinstance(init, dict) else dict(enumerate(init))
        if "h" in n and not kw.get("past_conditions"):
            kw["past_conditions"] = [dict(asdict) for _ in range(n["h"])]
        if "f" in n:
            vals = list(asdict.values())
            if not isinstance(init, dict):
                if n["f"] == 1:
                    kw["initial_conditions"] = {k: v for k, v in reversed(list(asdict.items()))} \
                        if not isinstance(init, np.ndarray) else list(init)
                elif n["f"] == 2 and isinstance(init, list) and _plain_numbers(vals):
                    kw["initial_conditions"] = np.array(vals)
            elif n["f"] < 3:
                kw["initial_conditions"] = {k: asdict[k] for k in reversed(list(asdict))}
    return ntm.evolve(**kw)
