"""C37: the visualisations of networks and configurations."""
import collections
import os
import re
import shutil
import tempfile
import warnings

import matplotlib
import matplotlib.animation as animation
import matplotlib.colors as mcolors
import matplotlib.pyplot as plt
import networkx as nx
import numpy as np
from netomaton import vis
from netomaton.vis import vis_utils

from .. import ref
from ..base import check, eq, raises
from ..ref import ntm
from ..display import Display
from .c36 import Recorder, one_animation

RULE = """A case is a configuration for configuration_to_nx (relations of one to five nodes, repeated relations), a network or
NetworkX multi-digraph (parallel edges and self-loops) for get_html and show_network, a grid size for lattice_pos, a
network with a layout and colors for plot_network, or a list of states with layouts and colors (one, or one per state)
for animate_network, whose frames are driven one by one; nodes, edges, positions, labels and colors of the page or of
the axes are compared with the network. Non-trivial: at least two nodes and two edges (a grid: two by two)."""
N = 1600
THOROUGH = 30
ASSUMES = ["Matplotlib draws its artists as their properties say", "the layout algorithms are NetworkX's"]
LAYOUTS = {"shell": nx.shell_layout, "spring": nx.spring_layout, "planar": nx.planar_layout, "kamada-kawai": nx.kamada_kawai_layout}
COLORS = ["b", "r", "green", "#1f78b4", "burlywood", "black"]


def positions(d, nodes):
    """Distinct positions."""
    pts = d.sample([(i, j) for i in range(-4, 5) for j in range(-4, 5)], len(nodes))
    return {v: (x / 2.0, y + 0.25) for v, (x, y) in zip(nodes, pts)}


def numeric(d, n):
    return d.choice([list(range(n)), d.sample(range(-n, 2 * n), n), [i / 2.0 for i in range(n)]])


def colors(d, n):
    return d.choice([d.choice(COLORS), [d.choice(COLORS) for _ in range(n)]])


def gen(d):
    kind = d.weighted([("nx", 2), ("html", 3), ("pos", 1), ("plot", 4), ("animate", 4)])
    c = {"kind": kind}
    if kind == "nx":
        lab = ref.labels(d, d.size(1, 6, 15))
        rel = [tuple(d.choice(lab) for _ in range(d.weighted([(1, 1), (2, 3), (3, 3), (5, 1)]))) for _ in range(d.size(1, 5, 20))]
        c.update(config=rel + d.subset(rel, 0.2), lists=d.bool(0.5))
    elif kind == "html":
        n = d.size(0, 5, 20)
        c.update(net=ref.net_spec(d, lab=numeric(d, n), n=n) if n else {"nodes": [], "edges": [], "rot": None},
                 src=d.choice(["net", "nx"]), show=d.choice([None, "notebook", "browser"]), twice=d.bool(0.3))
        for _ in range(d.int(0, 3) if n else 0):
            v = d.choice(c["net"]["nodes"])
            c["net"]["edges"].append((v, v, {}))
    elif kind == "pos":
        c.update(n_x=d.size(0, 6, 30), n_y=d.size(0, 6, 30))
    elif kind == "plot":
        spec = ref.net_spec(d, small=6, large=14)
        c.update(net=spec, layout=d.choice([None, "shell", "spring", "dict", "dict", "dict"]), labels=d.choice([None, True, False]),
                 color=colors(d, len(spec["nodes"])) if d.bool(0.6) else None, size=d.choice([None, 40, 500]))
        c["pos"] = positions(d, spec["nodes"])
        c["bad"] = d.bool(0.04)
    else:
        k = d.size(1, 3, 5) if not d.bool(0.1) else d.int(6, 11)
        lab = ref.labels(d, 6)
        nets = []
        for _ in range(k):
            nodes = d.sample(lab, d.int(1, len(lab)))
            nets.append(ref.net_spec(d, n=len(nodes), lab=nodes, attrs=False))
        names = ["shell", "spring", "kamada-kawai", "dict", "dict"]
        many = d.bool(0.4)
        lay = [d.choice(names) for _ in range(k)] if many else d.choice(names + ["planar", None])
        if d.bool(0.1):
            lay = "planar"
        if lay == "planar":       # at most four nodes are always planar
            for s in nets:
                s["nodes"] = s["nodes"][:4]
                s["edges"] = [e for e in s["edges"] if e[0] in s["nodes"] and e[1] in s["nodes"]]
        # one dict of positions, for the nodes of all the states; or one per state
        c.update(nets=nets, layout=lay, tup=d.bool(0.3), pos=positions(d, lab) if not many else [positions(d, s["nodes"]) for s in nets],
                 labels=d.choice([None, True, False]), arrows=d.choice([None, True, False]), timestep=d.bool(0.5),
                 color=None, show=d.choice([True, False, None]))
        m = d.choice([None, "one", "dict"])
        if m:
            c["color"] = d.choice(COLORS) if m == "one" else {i: colors(d, len(s["nodes"])) for i, s in enumerate(nets)}
        c["bad"] = d.bool(0.04)
        c["how"] = {k: v for k, v in (("save", True), ("interval", d.choice([50, 20, 200])), ("dpi", d.choice([40, 80]))) if d.bool(0.2)}
    return c


def run(case):
    plt.close("all")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return globals()["run_" + case["kind"]](case), [case["kind"]]
    finally:
        plt.close("all")


def multigraph(spec):
    G = nx.MultiDiGraph()
    G.add_nodes_from(spec["nodes"])
    for i, j, a in spec["edges"]:
        G.add_edge(i, j, **a)
    return G


def counted(spec):
    return collections.Counter((i, j) for i, j, _ in spec["edges"])


def run_nx(case):
    config = [list(r) for r in case["config"]] if case["lists"] else list(case["config"])
    before = repr(config)
    G = vis.configuration_to_nx(config)
    check(G.is_multigraph() and G.is_directed(), "configuration_to_nx: not a multi-digraph: %r", type(G))
    eq(set(G.nodes), {v for r in case["config"] for v in r}, "configuration_to_nx: the nodes")
    eq(collections.Counter((i, j) for i, j, _ in G.edges), collections.Counter(p for r in case["config"] for p in zip(r, r[1:])), "configuration_to_nx: the edges")
    eq(repr(config), before, "configuration_to_nx: the configuration afterwards")
    return G.number_of_nodes() >= 2 and G.number_of_edges() >= 2


TOKEN = re.compile(r"""\s*(?:(?P<num>[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)|(?P<str>"(?:[^"\\\n]|\\.)*"|'(?:[^'\\\n]|\\.)*')|(?P<name>[A-Za-z_$][\w$]*)|(?P<sign>[\[\]{}:,]))""")


def literal(text, at, what):
    """The JavaScript literal (arrays, objects, strings, numbers) that starts there."""
    def token():
        nonlocal at
        m = TOKEN.match(text, at)
        check(m, "%s: no JavaScript: %r", what, text[at:at + 40])
        at = m.end()
        return m.lastgroup, m.group(m.lastgroup)

    def value(tok=None):
        kind, s = tok or token()
        if kind == "num":
            return float(s)
        if kind == "str":
            return re.sub(r"\\(.)", r"\1", s[1:-1])
        if kind == "name" and s in ("true", "false", "null"):
            return {"true": True, "false": False, "null": None}[s]
        check(s in "[{", "%s: no JavaScript value: %r", what, s)
        out, close = ([], "]") if s == "[" else ({}, "}")
        tok = token()
        while tok[1] != close or tok[0] != "sign":
            if close == "]":
                out.append(value(tok))
            else:
                key = value(tok) if tok[0] in ("str", "num") else tok[1]
                check(tok[0] != "sign" and token() == ("sign", ":"), "%s: no JavaScript object: %r", what, text[at - 20:at + 20])
                out[key] = value()
            tok = token()
            check(tok in (("sign", ","), ("sign", close)), "%s: no JavaScript: %r", what, text[at - 20:at + 20])
            if tok[1] == ",":
                tok = token()
        return out
    v = value()
    return v, at


def dataset(html, name, what):
    m = re.search(r"\b%s\s*=\s*new vis\.DataSet\(" % name, html)
    check(m, "%s: no data set of %s", what, name)
    out, at = literal(html, m.end(), what)
    check(re.match(r"\s*\)", html[at:]) and isinstance(out, list) and all(isinstance(o, dict) for o in out), "%s: the %s are not a list of objects: %r", what, name, out)
    return out


def ident(v):
    """The number that labels a node."""
    try:
        return float(v)
    except (TypeError, ValueError):
        check(False, "get_html: not the label of a node: %r", v)


def page(html, spec, what):
    nodes, edges = dataset(html, "nodes", what), dataset(html, "edges", what)
    eq(sorted(ident(o.get("id")) for o in nodes), sorted(map(float, spec["nodes"])), what + ": the nodes")
    for o in nodes:
        eq(ident(o.get("label")), ident(o["id"]), what + ": the label")
    eq({type(o.get(k)) for o in edges for k in ("from", "to")} - {type(o["id"]) for o in nodes}, set(), what + ": the types of the ends of the edges that are not those of the nodes")
    eq(collections.Counter((ident(o.get("from")), ident(o.get("to"))) for o in edges), collections.Counter((float(i), float(j)) for i, j, _ in spec["edges"]), what + ": the edges")
    sizes = collections.defaultdict(list)
    for o in edges:
        eq(o.get("arrows"), "to", what + ": the direction")
        if o["from"] == o["to"]:
            check("selfReferenceSize" in o, "%s: a self-loop without a size: %r", what, o)
            sizes[o["from"]].append(float(o["selfReferenceSize"]))
    for v, s in sizes.items():
        check(s[0] > 0 and all(a < b for a, b in zip(s, s[1:])), "%s: the sizes of the self-loops of %s do not grow: %r", what, v, s)


def run_html(case):
    spec = case["net"]
    G = ref.build(spec) if case["src"] == "net" else multigraph(spec)
    html = vis.get_html(G)
    page(html, spec, "get_html")
    if case["twice"]:
        eq(vis.get_html(G), html, "get_html again")
    if case["show"]:
        tmp = tempfile.mkdtemp(prefix="c37")
        opened = []
        old = vis_utils.webbrowser.open
        vis_utils.webbrowser.open = lambda url, *a, **k: opened.append(url)
        try:
            name = os.path.join(tmp, "net.html")
            with open(name, "w") as f:
                f.write("something longer than the page" * 2000)
            vis.show_network(G, name, **({"is_notebook": True} if case["show"] == "notebook" else {}))
            with open(name) as f:
                content = f.read()
            page(content, spec, "show_network")
            check("something longer" not in content, "show_network: what was in the file before is still there")
            eq(opened, [] if case["show"] == "notebook" else ["file://" + os.path.realpath(name)], "show_network: the pages opened")
        finally:
            vis_utils.webbrowser.open = old
            shutil.rmtree(tmp, ignore_errors=True)
    if case["src"] == "net":
        ref.same_network(G, ref.model(spec), "get_html: the network afterwards")
    return len(spec["nodes"]) >= 2 and len(spec["edges"]) >= 2


def run_pos(case):
    n, m = case["n_x"], case["n_y"]
    eq({k: tuple(p) for k, p in vis.lattice_pos(n, m).items()}, {i * m + j: (i, j) for i in range(n) for j in range(m)}, "lattice_pos(%d, %d)" % (n, m))
    return n >= 2 and m >= 2


def drawing(ax, spec, pos, with_labels, color, arrows, what, size=None):
    """Compares what the axes show; pos is None when the layout is random (spring)."""
    nodes = [c for c in ax.collections if isinstance(c, matplotlib.collections.PathCollection)]
    lines = [c for c in ax.collections if isinstance(c, matplotlib.collections.LineCollection)]
    got = [tuple(p) for c in nodes for p in np.asarray(c.get_offsets())]
    eq(len(got), len(spec["nodes"]), what + ": the number of nodes")
    if pos is None:     # it must be the same everywhere, and the nodes are drawn in their order
        pos = dict(zip(spec["nodes"], got))
    want = [tuple(map(float, pos[v])) for v in spec["nodes"]]
    near = lambda a, b: abs(a[0] - b[0]) < 1e-6 and abs(a[1] - b[1]) < 1e-6
    check(all(near(a, b) for a, b in zip(sorted(got), sorted(want))), "%s: nodes at %r, expected %r", what, got, want)
    if color is not None and spec["nodes"]:
        fc = np.concatenate([c.get_facecolors() if len(c.get_facecolors()) == len(c.get_offsets()) else np.repeat(c.get_facecolors(), len(c.get_offsets()), 0) for c in nodes])
        for i, v in enumerate(spec["nodes"]):
            k = [q for q in range(len(got)) if near(got[q], want[i])]
            w = mcolors.to_rgba(color[i] if isinstance(color, list) else color)
            check(any(np.allclose(fc[q], w) for q in k), "%s: node %r has color %r, expected %r", what, v, [fc[q].tolist() for q in k], w)
    if size is not None:
        check(all(set(np.asarray(c.get_sizes()).tolist()) == {float(size)} for c in nodes), "%s: the size of the nodes", what)
    if arrows:
        segs = [tuple(map(tuple, p._posA_posB)) for p in ax.patches if isinstance(p, matplotlib.patches.FancyArrowPatch)]
        eq(len(lines), 0, what + ": lines besides the arrows")
    else:
        segs = [tuple(map(tuple, s)) for c in lines for s in c.get_segments()]
        eq(len([p for p in ax.patches if isinstance(p, matplotlib.patches.FancyArrowPatch)]), 0, what + ": arrows")
    left = [(tuple(map(float, pos[i])), tuple(map(float, pos[j]))) for i, j, _ in spec["edges"]]
    eq(len(segs), len(left), what + ": the number of edges")
    for s in segs:
        at = [k for k, (a, b) in enumerate(left) if (near(s[0], a) and near(s[1], b)) or (not arrows and near(s[0], b) and near(s[1], a))]
        check(at, "%s: an edge %r that is not one of (or drawn more often than in) %r at %r", what, s, spec["edges"], pos)
        left.pop(at[0])
    texts = [(t.get_text(), tuple(map(float, t.get_position()))) for t in ax.texts]
    if with_labels:
        eq(sorted(t for t, _ in texts), sorted(str(v) for v in spec["nodes"]), what + ": the labels")
        for v in spec["nodes"]:
            check(any(t == str(v) and near(p, tuple(map(float, pos[v]))) for t, p in texts), "%s: the label of %r is at %r, the node at %r", what, v, texts, pos[v])
    else:
        eq(texts, [], what + ": the labels")


def kw(**k):
    return {n: v for n, v in k.items() if v is not None}


def layout_of(name, spec, pos):
    """The expected positions (None: unknown)."""
    if name == "dict":
        return pos
    if name in ("spring", "planar"):        # random, or dependent on the order of the edges
        return None
    return LAYOUTS[name](multigraph(spec))


def run_plot(case):
    spec = case["net"]
    net = ref.build(spec)
    if case["bad"]:
        raises(lambda: ntm.plot_network(net, layout="no such layout"), "plot_network with an unsupported layout")
        return False
    pos = {v: tuple(p) for v, p in case["pos"].items()}
    k = kw(layout=pos if case["layout"] == "dict" else case["layout"], with_labels=case["labels"], node_color=case["color"], node_size=case["size"])
    what = "plot_network (%s)" % (case["layout"] or "default layout")
    with Display(what):
        ntm.plot_network(net, **k)
    eq(len(plt.gcf().axes), 1, what + ": the number of axes")
    ref.same_network(net, ref.model(spec), what + ": the network afterwards")
    eq(pos, case["pos"], what + ": the layout afterwards")
    drawing(plt.gca(), spec, layout_of(case["layout"] or "shell", spec, case["pos"]), case["labels"] is not False, case["color"], True, what, case["size"])
    return len(spec["nodes"]) >= 2 and len(spec["edges"]) >= 2


def run_animate(case):
    nets = [ref.build(s) for s in case["nets"]]
    traj = [ntm.State(activities={v: 0 for v in s["nodes"]}, network=n) for s, n in zip(case["nets"], nets)]
    lay, pos = case["layout"], case["pos"]
    if isinstance(lay, list):
        names = lay
        arg = [dict(pos[i]) if name == "dict" else name for i, name in enumerate(lay)]
        arg = tuple(arg) if case["tup"] else arg
    else:
        names = [lay or "shell"] * len(nets)
        arg = dict(pos) if lay == "dict" else lay
    many = isinstance(lay, list)
    if case["bad"]:
        arg = "no such layout"
    k = kw(layout=arg, with_labels=case["labels"], with_arrows=case["arrows"], node_color=case["color"], show=case["show"])
    if case["timestep"]:
        k["with_timestep"] = True
    if case["bad"]:
        def attempt():
            a = ntm.animate_network(traj, **k)
            a._init_draw()
        raises(attempt, "animate_network with an unsupported layout")
        return False
    o = case.get("how") or {}
    with Display("animate_network", shows=case["show"] is not False,
                 save=({"dpi": o["dpi"]} if "dpi" in o else {}) if o.get("save") else None), Recorder() as rec:
        ani = ntm.animate_network(traj, **k, **o)
    if "interval" in o:
        eq(ani._interval, o["interval"], "animate_network: the interval")
    check(ani is one_animation(rec), "animate_network does not return the animation: %r", ani)
    ax = plt.gcf().axes[0]
    ani._draw_was_started = True
    ani._init_draw()
    seen = 0
    for i, f in enumerate(ani.new_saved_frame_seq()):
        ani._draw_frame(f)
        what = "animate_network (%s): frame %d" % (names[i] if i < len(names) else "?", i)
        check(i < len(nets), "%s for %d states", what, len(nets))
        s = case["nets"][i]
        col = case["color"]
        col = col[i] if isinstance(col, dict) else col
        drawing(ax, s, layout_of(names[i], s, pos[i] if many else pos), case["labels"] is not False, col, case["arrows"] is not False, what)
        eq(ax.get_title(), "timestep: %d" % (i + 1) if case["timestep"] else "", what + ": the title")
        seen += 1
    eq(seen, len(nets), "animate_network: the number of frames")
    for n, s in zip(nets, case["nets"]):
        ref.same_network(n, ref.model(s), "animate_network: the network afterwards")
    return any(len(s["nodes"]) >= 2 and len(s["edges"]) >= 2 for s in case["nets"])
