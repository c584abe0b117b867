"""C11: copies and compressed forms round-trip and are independent."""
import collections
import copy as pycopy
import enum

import numpy as np

from .. import ref
from ..base import check, eq
from ..ref import NM, ntm
from . import c10

RULE = """A case is a random network with labels (integers up to 64 bits, strings, tuples, floats), node and edge attributes
(nested lists, dicts, tuples, None, booleans, NumPy scalars, instances of derived types) and activities, plus histories of operations applied
to the copy and then to the original. Compared: copy, decompressed and State forms with the original (types of numbers
and tuples included), and each side with its own model after the other side changed. Non-trivial: at least one edge with
attributes, and operations on both sides."""
N = 5000
SPIKE = 8


class Level(enum.IntEnum):
    LOW, HIGH = 1, 700


class Text(str):
    pass


class Items(list):
    pass


Pair = collections.namedtuple("Pair", "left right")


def value(d, depth=0):
    if d.big and d.bool(0.03):
        return ("large", d.choice(["t", "l", "s", "b", "d", "deep", "int"]), d.choice([15, 16, 17, 31, 32, 33, 255, 256, 257, 40000, 65535, 65536, 66000]))
    if d.bool(0.06):
        return ("sub", d.choice(["enum", "text", "items", "ordered", "counter", "pair"]), value(d, 3))
    k = d.int(0, 11)
    if k < 3:
        return d.choice([0, 1, -1, 2 ** 40, -2 ** 63, 2 ** 63 - 1, 7])
    if k < 5:
        return d.choice(["", "a", "ünï", "long " * 5])
    if k == 5:
        return d.choice([0.5, -0.1, 1e300, 3.0])
    if k == 6:
        return d.choice([None, True, False])
    if k == 7 or depth > 2:
        return ("np", d.choice(["int64", "float64", "bool_", "int8", "float32"]), d.int(0, 3))
    if k == 8:
        return ("t",) + tuple(value(d, depth + 1) for _ in range(d.int(0, 3)))
    if k == 9:
        return {d.choice(["k", "l", 3]): value(d, depth + 1) for _ in range(d.int(0, 2))}
    return [value(d, depth + 1) for _ in range(d.int(0, 3))]


def deepen(n):
    x = n
    for k in range(n):
        x = [(x, k)] if k % 3 else {"deep": x}
    return x


def real(v):
    if isinstance(v, tuple) and v and v[0] == "np":
        return getattr(np, v[1])(v[2])
    if isinstance(v, tuple) and v and v[0] == "sub":
        x = real(v[2])
        return {"enum": Level.HIGH, "text": Text("t"), "items": Items([x, x]), "ordered": collections.OrderedDict(b=x, a=1),
                "counter": collections.Counter("aab"), "pair": Pair(x, 2)}[v[1]]
    if isinstance(v, tuple) and v and v[0] == "large":
        n = v[2]
        return {"t": lambda: tuple(range(n)), "l": lambda: list(range(n)), "s": lambda: "ä" * n, "b": lambda: b"b" * n,
                "d": lambda: {i: i for i in range(n)}, "deep": lambda: deepen(n % 40), "int": lambda: [n, -n, n - 1, 1 - n, n * n, 1.0 / n]}[v[1]]()
    if isinstance(v, tuple):
        return tuple(real(x) for x in v[1:]) if v[:1] == ("t",) else v
    if isinstance(v, list):
        return [real(x) for x in v]
    if isinstance(v, dict):
        return {k: real(x) for k, x in v.items()}
    return v


def plain(v):
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    for base in (str, int):     # values of other types derived from these
        if isinstance(v, base) and not isinstance(v, bool):
            return base.__str__(v) if base is str else int(v)
    return v


LABELS = [0, 1, -7, 2 ** 40, "a", "node b", "", (1, 2), ("x", (3, "y")), 2.5, 5, "5", (), 12]


def gen(d):
    n = d.size(0, 5, 14)
    lab = d.sample(LABELS, n) if n <= len(LABELS) else list(range(n))
    nodes = [(v, {k: value(d) for k in d.subset(["color", "x"], 0.3)}) for v in lab]
    edges = []
    if lab:
        for _ in range(d.int(0, 2 * n)):
            i, j = d.choice(lab), d.choice(lab)
            for _ in range(d.choice([1, 1, 2])):
                edges.append((i, j, {k: value(d) for k in d.subset(["weight", "w2"], 0.6)}))
    side = []
    for _ in range(2):
        sub = c10.gen(d)
        side.append(sub["ops"][:8])
    return {"nodes": nodes, "edges": edges, "ops": side, "deep": d.bool(),
            "acts": {v: value(d) for v in lab}, "form": d.choice(["copy", "compress", "state"])}


def types(v):
    """Types, where a NumPy number counts as the plain one."""
    v = plain(v)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [types(x) for x in v])
    if isinstance(v, dict):
        return {k: types(x) for k, x in v.items()}
    return type(v).__name__


def safe(net, ops):
    """The operations that are possible on this network (the histories were generated for another one)."""
    m = NM()
    m.attrs, m.inc = pycopy.deepcopy(net.attrs), pycopy.deepcopy(net.inc)
    out = []
    for op in ops:
        if op[0] in ("update", "poke", "rmedge") and not m.has_edge(op[1], op[2]):
            continue
        if op[0] in ("update", "poke"):
            k = len(m.inc[op[2]][op[1]])
            if op[0] == "update" and op[3] and max(op[3]) >= k or op[0] == "poke" and op[3] >= k:
                continue
        if op[0] == "rmnode" and op[1] not in m.attrs:
            continue
        if op[0] == "updmissing" and m.has_edge(op[1], op[2]):
            continue
        out.append(op)
        c10.apply(m, op, False)
    return out


def run(case):
    net, m = ntm.Network(), NM()
    for v, a in case["nodes"]:
        net.add_node(v, **{k: real(x) for k, x in a.items()})
        m.add_node(v, **{k: plain(real(x)) for k, x in a.items()})
    for i, j, a in case["edges"]:
        net.add_edge(i, j, **{k: real(x) for k, x in a.items()})
        m.add_edge(i, j, **{k: plain(real(x)) for k, x in a.items()})
    acts = {v: real(x) for v, x in case["acts"].items()}
    if case["form"] == "copy":
        cp = net.copy()
    elif case["form"] == "compress":
        packed = net.compress()
        check(isinstance(packed, (bytes, bytearray)), "compress returned %s", type(packed))
        cp = ntm.Network.decompress(packed)
        c10.compare(ntm.Network.decompress(packed), m, "decompressed twice", ["nobody"])
    else:
        st = ntm.State(activities=acts, network=net, compression=True)
        cp = st.network
        check(cp is not None and st.activities is not None, "a compressed state lost its network or activities")
        got = st.activities
        eq(got, plain(acts), "activities of a compressed state")
        eq(types(got), types(plain(acts)), "types of the activities of a compressed state")
        c10.compare(st.network, m, "network of a compressed state, read twice", ["nobody"])
        st2 = ntm.State(activities=acts, network=net)
        check(st2.activities == acts and st2.network == net, "an uncompressed state")
    check(cp is not net and isinstance(cp, ntm.Network), "the copy is %r", type(cp))
    c10.compare(cp, m, "the copy", ["nobody"])
    check(cp == net and net == cp, "the copy does not equal the original")
    eq(list(cp.nodes), list(net.nodes), "order of the copy's nodes")
    for (i, j), es in m.edge_map().items():
        for k, e in enumerate(es):
            eq(types(dict(cp.edge(i, j)[k])), types(e), "types of the attributes of edge %r of the copy" % ((i, j),))
    m2, m0 = m.copy(), m.copy()
    # changes on one side never show on the other
    deep = False
    if case["deep"]:
        for (i, j), es in m2.edge_map().items():
            for k, e in enumerate(es):
                for name, val in e.items():
                    if isinstance(val, list):
                        cp.edge(i, j)[k][name].append("changed")
                        m2.inc[j][i][k][name] = val + ["changed"]
                        deep = True
                    elif isinstance(val, dict):
                        cp.edge(i, j)[k][name]["changed"] = 1
                        m2.inc[j][i][k][name] = dict(val, changed=1)
                        deep = True
    c10.compare(net, m, "the original after attribute values of the copy changed", ["nobody"])
    for op in safe(m2, case["ops"][0]):
        c10.apply(cp, op, True)
        c10.apply(m2, op, False)
    c10.compare(cp, m2, "the copy after it changed", ["nobody"])
    c10.compare(net, m, "the original after its copy changed", ["nobody"])
    for op in safe(m, case["ops"][1]):
        c10.apply(net, op, True)
        c10.apply(m, op, False)
    c10.compare(net, m, "the original after it changed", ["nobody"])
    c10.compare(cp, m2, "the copy after its original changed", ["nobody"])
    if case["form"] == "state":
        c10.compare(st.network, m0, "the network of a compressed state, read after the given one changed", ["nobody"])
        for v in list(acts):
            acts[v] = "changed"
        eq(st.activities, got, "the activities of a compressed state, read after the given ones changed")
    return bool(case["edges"]) and any(a for _, _, a in case["edges"]), \
        [case["form"]] + (["deep"] if deep else []) + (["empty"] if not case["nodes"] else [])
