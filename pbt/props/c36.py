"""C36: the plots of activities, series, hexagonal grids and degree distributions."""
import collections
import logging
import math
import warnings

import matplotlib
import matplotlib.animation as animation
import matplotlib.colors as mcolors
import matplotlib.pyplot as plt
import numpy as np

from .. import ref
from ..base import check, close, eq, norm, raises
from ..display import Display
from ..ref import ntm

logging.getLogger("matplotlib").setLevel(logging.ERROR)

RULE = """A case is one call of one plot function with generated data and options (activities as lists, arrays or a trajectory;
shapes and slices; limits; annotations; series; labels and colors; networks); the figure is left open under the Agg
backend and its images, lines, bars, points, patches, texts and limits are compared with the data. Animations are driven
frame by frame through more than one cycle. Non-trivial: at least four values are shown."""
N = 3000
THOROUGH = 30
ASSUMES = ["Matplotlib draws its artists as their properties say"]

CMAPS = ["Greys", "viridis", "jet", "Purples"]
COLORS = ["b", "r", "green", "#1f78b4", (0.5, 0.25, 0.0), "black"]
KINDS = [("activities", 3), ("grid", 2), ("multiple", 1), ("animate", 4), ("animate1d", 1), ("plot1d", 4), ("hex", 3), ("anihex", 2),
         ("degree", 4), ("poincare", 2), ("bifurcation", 1)]


def val(d, kind):
    if kind == "bit":
        return d.int(0, 1)
    if kind == "int":
        return d.int(-3, 12)
    return d.num(-4, 4)


def rows(d, r, c, kind=None):
    kind = kind or d.choice(["bit", "int", "float"])
    return [[val(d, kind) for _ in range(c)] for _ in range(r)]


def limits(d):
    return d.weighted([((None, None), 2), ((0, 1), 1), ((-2, 10), 1), ((-4, None), 1), ((None, 12.5), 1), ((-1.5, 2.5), 1), ((-4, 0), 1), ((None, 0), 1), ((0, None), 1)])


def gen(d):
    kind = d.weighted(KINDS)
    c = {"kind": kind}
    if kind in ("activities", "grid", "animate", "hex", "anihex"):
        t = d.size(1, 4, 10 if kind not in ("animate", "anihex") else 30)
        shape = None
        if kind in ("animate", "anihex") or d.bool(0.6):
            shape = (d.size(1, 4, 9), d.size(1, 4, 9))
            if kind == "animate" and d.bool(0.25):
                shape = (d.size(1, 5, 12),)
        n = int(np.prod(shape)) if shape else d.size(1, 6, 14)
        if kind == "animate" and shape and len(shape) == 2 and d.bool(0.25):
            c["nested"] = True
        vmin, vmax = limits(d)
        c.update(data=rows(d, t, n), shape=shape, vmin=vmin, vmax=vmax, title=d.choice(["", "A title", None]), cmap=d.choice(CMAPS),
                 src=d.choice(["list", "array", "traj", "trajshuf"]), slice=None)
        if kind in ("hex", "anihex"):
            c["src"] = d.choice(["traj", "trajshuf"])
            c["edge"] = d.choice([None, "k"])
        if kind in ("activities", "grid", "hex") and shape:
            c["slice"] = d.choice([None, d.int(-t, t - 1)])
        if kind in ("activities", "grid"):
            r, k = shape or (t, n)
            c["ann"] = [[d.choice(["a", "bb", "3", "", 0, 7, 2.5, True]) for _ in range(k)] for _ in range(d.int(1, r))] if d.bool(0.3) else None
            c["show_grid"] = d.bool(0.3)
        if kind == "animate":
            c.update(show_grid=d.bool(0.3), margin=d.bool(0.7), with_timestep=d.bool(0.4), blit=d.bool(0.7))
        if c["src"] in ("traj", "trajshuf"):
            c["labels"] = d.shuffle(range(n)) if c["src"] == "trajshuf" else list(range(n))
    elif kind == "multiple":
        shape = (d.size(1, 3, 6), d.size(1, 3, 6)) if d.bool(0.5) else None
        k = d.choice([1, 2, 3, 4, 4, 5, 6])
        n = shape[0] * shape[1] if shape else d.size(1, 5, 10)
        t = d.size(1, 4, 8)
        vmin, vmax = limits(d)
        c.update(data=[rows(d, t, n) for _ in range(k)], shape=shape, vmin=vmin, vmax=vmax, cmap=d.choice(CMAPS),
                 titles=["T%d" % i for i in range(k)] if d.bool(0.5) else None,
                 slice=d.choice([None, d.int(-t, t - 1)]) if shape else None)
    elif kind == "animate1d":
        n = d.size(1, 6, 20)
        c.update(x=list(range(n)) if d.bool(0.5) else [d.num() for _ in range(n)], data=rows(d, d.size(2, 4, 30), n),
                 src=d.choice(["list", "traj"]))
    elif kind == "plot1d":
        n = d.size(1, 6, 30)
        twinx = d.bool(0.35)
        k = d.size(2, 4, 14) if twinx else d.size(1, 4, 14)
        single = not twinx and d.bool(0.35)
        if single:
            k = 1
        c.update(x=[d.num() for _ in range(n)], data=rows(d, k, n), single=single, twinx=twinx,
                 arr=d.bool(0.3), xlist=d.bool(0.7), color=None, label=None, xlabel=d.choice([None, "x-axis"]),
                 ylabel=d.choice([None, "y", ["y0", "y1"]]), xlim=d.choice([None, (-2, 3), (0, 10.5)]),
                 ylim=d.choice([None, (-1, 4), [(-1, 4), (0, 0.5)]]), legend=d.choice([None, {"loc": "upper left"}]),
                 tight=d.choice([None, {"pad": 1.5}]), title=d.choice([None, "The title"]))
        if isinstance(c["ylim"], tuple):
            c["ylim"] = [c["ylim"], c["ylim"]]      # a tuple of two numbers is taken for a list
        m = d.choice([None, "one", "list"])
        if m:
            c["color"] = d.choice([x for x in COLORS if isinstance(x, str)]) if m == "one" else [d.choice(COLORS) for _ in range(k)]
        m = d.choice([None, "one", "list"])
        if m:
            c["label"] = d.choice(["L", 7]) if m == "one" else [d.choice(["s%d" % i, i + 1]) for i in range(k)]
        c["bad"] = twinx and d.bool(0.15)
    elif kind == "degree":
        spec = ref.net_spec(d, small=8, large=30, attrs=False, dens=d.choice([0.4, 1, 2.5, 8]))
        if not spec["edges"]:
            spec["edges"].append((spec["nodes"][0], spec["nodes"][-1], {}))
        c.update(net=spec, mode=d.choice([None, "in_degree", "out_degree"]), equation=d.bool(0.4), labels=d.bool(0.5),
                 title=d.choice([None, "Degrees"]))
    elif kind == "poincare":
        n = d.size(2, 8, 40)
        k = d.size(1, 5, 14)
        c.update(data=rows(d, k, n), single=d.bool(0.4), arr=d.bool(0.2), timesteps=d.int(2, n), title=d.choice([None, "P"]),
                 xlabel=d.choice([None, "xx"]), ylabel=d.choice([None, "yy"]), xlim=d.choice([None, (-1, 2)]), ylim=d.choice([None, (0, 3.5)]))
    else:
        k = d.size(1, 4, 8)
        n = d.size(1, 8, 30)
        c.update(x=[d.num() for _ in range(k)], data=rows(d, k, n), timesteps=d.int(1, n), arr=d.bool(0.2),
                 title=d.choice([None, "B"]), xlabel=d.choice([None, "xx"]), ylabel=d.choice([None, "yy"]))
    if "vmin" in c:     # the lower limit must not be above the upper one
        vals = [x for r in (sum(c["data"], []) if kind == "multiple" else c["data"]) for x in r]
        if c["vmax"] is None and c["vmin"] is not None and any(x < c["vmin"] for x in vals):
            c["vmax"] = c["vmin"] + 4
        if c["vmin"] is None and c["vmax"] is not None and any(x > c["vmax"] for x in vals):
            c["vmin"] = c["vmax"] - 4
    if kind in ("animate", "animate1d", "anihex"):
        c["how"] = {k: v for k, v in (("save", True), ("interval", d.choice([50, 20, 200])), ("dpi", d.choice([40, 80, 120]))) if d.bool(0.3)}
    return c


class Recorder:
    """The animations that are created meanwhile."""
    def __enter__(self):
        self.made, self.old = [], animation.Animation.__init__
        rec = self

        def init(ani, *a, **k):
            rec.made.append(ani)
            return rec.old(ani, *a, **k)
        animation.Animation.__init__ = init
        return self

    def __exit__(self, *_):
        animation.Animation.__init__ = self.old


def frames(ani, limit):
    """Draws the frames, from the first draw on; yields after each one."""
    ani._draw_was_started = True
    ani._init_draw()
    yield
    k = 0
    for f in ani.new_frame_seq():
        ani._draw_frame(f)
        yield
        k += 1
        if k >= limit:
            return


def one_animation(rec):
    eq(len(rec.made), 1, "the number of animations")
    return rec.made[0]


def animate(case, what, call, dpi=True):
    """Calls an animating function; the animation that it makes."""
    o = case.get("how") or {}
    save = {"dpi": o["dpi"]} if o.get("save") and "dpi" in o and dpi else {} if o.get("save") else None
    if not dpi:
        o = {k: v for k, v in o.items() if k != "dpi"}
    with Display(what, save=save), Recorder() as rec:
        call(**o)
    ani = one_animation(rec)
    if "interval" in o:
        eq(ani._interval, o["interval"], what + ": the interval")
    return ani


def cyclic(shown, states, what):
    """`shown` runs through the states in order, over and over, from some state on; at least one whole cycle."""
    check(len(shown) >= len(states), "%s: %d frames for %d states", what, len(shown), len(states))
    for s in range(len(states)):
        if all(states[(s + k) % len(states)] == g for k, g in enumerate(shown)):
            return
    check(False, "%s: the frames %r do not follow the states %r in order", what, shown, states)


def trajectory(data, labels):
    """States with the activities of each row, the value at index i being the one of the i-th smallest label."""
    net = ntm.Network(len(data[0]))
    out = []
    for t, row in enumerate(data):
        out.append(ntm.State(activities={k: row[k] for k in labels}, network=net))
    return out


def source(case):
    if case["src"] == "list":
        return [list(r) for r in case["data"]]
    if case["src"] == "array":
        return np.array(case["data"])
    return trajectory(case["data"], case.get("labels") or range(len(case["data"][0])))


def frozen(x):
    if isinstance(x, list) and x and hasattr(x[0], "activities"):
        return [(list(s.activities.items()), s.network is not None) for s in x]
    return norm(x)


def reshape(data, shape):
    return [[list(r[i * shape[1]:(i + 1) * shape[1]]) for i in range(shape[0])] for r in data]


def image(ax, what):
    eq(len(ax.images), 1, what + ": the number of images")
    return np.asarray(ax.images[0].get_array()).tolist(), ax.images[0]


def same_limits(im, data, vmin, vmax, what):
    vals = [x for r in data for x in r]
    lo, hi = im.get_clim()
    close(lo, min(vals) if vmin is None else vmin, what + ": the lower limit")
    close(hi, max(vals) if vmax is None else vmax, what + ": the upper limit")


def kw(case, **extra):
    k = dict(extra)
    for key, name in (("shape", "shape"), ("slice", "slice"), ("vmin", "vmin"), ("vmax", "vmax"), ("title", "title"), ("cmap", "colormap")):
        if case.get(key) is not None:
            k[name] = case[key]
    return k


def run(case):
    plt.close("all")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return globals()["run_" + case["kind"]](case), [case["kind"]]
    finally:
        plt.close("all")


def grid_lines(case, ax, shown, what):
    """With show_grid, there are lines between all the rows and all the columns, and none through the cells."""
    ax.figure.canvas.draw() if case["show_grid"] else None
    xs, ys = set(), set()
    for axis, where in ((ax.xaxis, xs), (ax.yaxis, ys)):
        for tick in axis.get_major_ticks() + axis.get_minor_ticks():
            if tick.gridline.get_visible():
                where.add(float(tick.get_loc()))
    for c in ax.collections:
        if isinstance(c, matplotlib.collections.LineCollection) and max(c.get_linewidths()) > 0:
            for (x0, y0), (x1, y1) in c.get_segments():
                if x0 == x1:
                    xs.add(float(x0))
                if y0 == y1:
                    ys.add(float(y0))
    if not case["show_grid"]:
        check(not xs and not ys, "%s: grid lines at x=%r, y=%r without show_grid", what, xs, ys)
        return
    for where, n, name in ((xs, len(shown[0]), "columns"), (ys, len(shown), "rows")):
        inner = {k + 0.5 for k in range(n - 1)}
        check(inner <= where <= inner | {-0.5, n - 0.5}, "%s: grid lines between %d %s at %r", what, n, name, sorted(where))


def run_activities(case, fn=None):
    src = source(case)
    before = frozen(src)
    k = kw(case)
    if case["ann"]:
        k["node_annotations"] = [list(r) for r in case["ann"]]
    if case["show_grid"]:
        k["show_grid"] = True
    what = "plot_%s" % case["kind"]
    with Display(what):
        (fn or ntm.plot_activities)(src, **k)
    ax = plt.gca()
    shown = case["data"]
    if case["shape"]:
        shown = reshape(case["data"], case["shape"])[-1 if case["slice"] is None else case["slice"]]
    got, im = image(ax, what)
    eq(got, shown, what + ": the image")
    same_limits(im, shown, case["vmin"], case["vmax"], what)
    eq(im.get_cmap().name, case["cmap"], what + ": the colormap")
    eq(ax.get_title(), case["title"] or "", what + ": the title")
    grid_lines(case, ax, shown, what)
    texts = sorted((t.get_position(), t.get_text()) for t in ax.texts)
    eq(texts, sorted(((j, i), str(a)) for i, r in enumerate(case["ann"] or []) for j, a in enumerate(r)), what + ": the annotations")
    eq(frozen(src), before, what + ": the data afterwards")
    return sum(map(len, shown)) >= 4


def run_grid(case):
    if case["src"] in ("traj", "trajshuf"):
        t = trajectory(case["data"], case["labels"])
        eq(ntm.get_activities_over_time_as_list(t), case["data"], "get_activities_over_time_as_list")
        return run_activities(dict(case, src="list"), ntm.plot_grid)
    return run_activities(case, ntm.plot_grid)


def run_multiple(case):
    data = [[list(r) for r in m] for m in case["data"]]
    before = norm(data)
    k = kw(case)
    if case["titles"]:
        k["titles"] = list(case["titles"])
    what = "plot_grid_multiple"
    with Display(what):
        ntm.plot_grid_multiple(data, **k)
    eq(len(plt.get_fignums()), len(data), what + ": the number of figures")
    for i, (num, m) in enumerate(zip(sorted(plt.get_fignums()), case["data"])):
        ax = plt.figure(num).axes[0]
        shown = reshape(m, case["shape"])[-1 if case["slice"] is None else case["slice"]] if case["shape"] else m
        got, im = image(ax, what)
        eq(got, shown, "%s: image %d" % (what, i))
        same_limits(im, shown, case["vmin"], case["vmax"], what)
        eq(ax.get_title(), case["titles"][i] if case["titles"] else "", what + ": the title")
    eq(norm(data), before, what + ": the data afterwards")
    return len(data) * len(case["data"][0]) >= 4


def run_animate(case):
    if case.get("nested"):
        src = reshape(case["data"], case["shape"])
        k = kw(dict(case, shape=None))
        if case["src"] == "array":
            src = np.array(src)
    else:
        src = source(case)
        k = kw(case)
    before = frozen(src)
    if case["show_grid"]:
        k["show_grid"] = True
    if not case["margin"]:
        k["show_margin"] = False
    if case["with_timestep"]:
        k["with_timestep"] = True
    what = "animate_activities"
    ani = animate(case, what, lambda **o: ntm.animate_activities(src, blit=case["blit"], **k, **o))
    ax = plt.gca()
    if not case["with_timestep"]:
        eq(ax.get_title(), case["title"] or "", what + ": the title")
    eq(tuple(np.round(ax.get_position(True).bounds, 9)) == (0, 0, 1, 1), not case["margin"], what + ": without margin")
    if not case["margin"]:
        wide, high = ax.figure.get_size_inches()
        got = image(ax, what)[0]
        close(wide / high, len(got[0]) / len(got), what + ": width to height of the figure, without margin", 1e-9)
    n, w = len(case["data"]), len(case["data"][0])
    if len(case["shape"]) == 1:     # the evolution so far
        states = [[list(case["data"][i]) if i <= t else [0] * w for i in range(n)] for t in range(n)]
    else:
        states = reshape(case["data"], case["shape"])
    if not case["blit"]:        # with blitting, the first frame has already been drawn
        eq(image(ax, what)[0], states[0], what + ": the image at first")
    shown = []
    for _ in frames(ani, 2 * n + 1):
        got, im = image(ax, what)
        shown.append(got)
        if case["with_timestep"] and len(shown) > 1:
            title = ax.get_title()
            check(title.startswith("timestep: ") and 1 <= int(title[10:]) <= n and states[int(title[10:]) - 1] == got,
                  "%s: the frame %r has the title %r; the states are %r", what, got, title, states)
    cyclic(shown, states, what)
    grid_lines(case, ax, states[0], what)
    eq(len(list(ani.new_saved_frame_seq())), n, what + ": the number of frames to save")
    for name, lim in zip(("vmin", "vmax"), im.get_clim()):
        if case[name] is not None:
            eq(lim, case[name], what + ": " + name)
    eq(im.get_cmap().name, case["cmap"], what + ": the colormap")
    eq(frozen(src), before, what + ": the data afterwards")
    return n * w >= 4


def run_animate1d(case):
    y = source(dict(case, labels=None))
    x = list(case["x"])
    before = frozen(y)
    ani = animate(case, "animate_plot1D", lambda **o: ntm.animate_plot1D(x, y, **o))
    ax = plt.gca()
    shown = []
    for _ in frames(ani, len(case["data"])):
        eq(len(ax.lines), 1, "animate_plot1D: the number of lines")
        eq(list(ax.lines[0].get_xdata()), case["x"], "animate_plot1D: x")
        shown.append(list(ax.lines[0].get_ydata()))
    cyclic(shown[1:], case["data"], "animate_plot1D")
    eq((x, frozen(y)), (case["x"], before), "animate_plot1D: the data afterwards")
    return len(case["data"]) * len(x) >= 4


def run_plot1d(case):
    conv = (lambda r: np.array(r)) if case["arr"] else list
    y = conv(case["data"][0]) if case["single"] else [conv(r) for r in case["data"]]
    x = list(case["x"]) if case["xlist"] else np.array(case["x"])
    before = norm((x, y))
    k = {}
    for name in ("color", "label", "xlabel", "ylabel", "xlim", "legend", "title", "ylim"):
        if case[name] is not None:
            k[name] = list(case[name]) if isinstance(case[name], list) else case[name]
    if case["tight"]:
        k["tight_layout"] = case["tight"]
    if case["twinx"]:
        k["twinx"] = True
        if case["bad"]:
            raises(lambda: ntm.plot1D(x, y[:1], **k), "plot1D with twinx and one series")
            raises(lambda: ntm.plot1D(x, list(case["data"][0]) + [0, 0], **k), "plot1D with twinx and single values")
            return False
    with Display("plot1D"):
        ntm.plot1D(x, y, **k)
    axes = plt.gcf().axes
    na = 2 if case["twinx"] else 1
    eq(len(axes), na, "plot1D: the number of axes")
    pick = lambda v, i: v[i] if isinstance(v, list) else v
    if na == 2:
        check(axes[0].get_shared_x_axes().joined(axes[0], axes[1]), "plot1D: the axes do not share x")
    for a in range(na):
        ax = axes[a]
        series = [i for i in range(len(case["data"])) if i % na == a]
        eq(len(ax.lines), len(series), "plot1D: the number of series on axis %d" % a)
        for ln, i in zip(ax.lines, series):
            eq(list(ln.get_xdata()), case["x"], "plot1D: x of series %d" % i)
            eq(list(ln.get_ydata()), case["data"][i], "plot1D: y of series %d" % i)
            if case["color"]:
                eq(mcolors.to_hex(ln.get_color()), mcolors.to_hex(pick(case["color"], i)), "plot1D: the color of series %d" % i)
            if case["label"]:
                eq(str(ln.get_label()), str(pick(case["label"], i)), "plot1D: the label of series %d" % i)
        if case["xlabel"] and a == 0:
            eq(ax.get_xlabel(), case["xlabel"], "plot1D: the label of x")
        if isinstance(case["ylabel"], str) or (case["twinx"] and case["ylabel"]):
            eq(ax.get_ylabel(), pick(case["ylabel"], a), "plot1D: the label of y axis %d" % a)
        if case["xlim"]:
            eq(tuple(ax.get_xlim()), case["xlim"], "plot1D: xlim")
        if case["ylim"] and (case["twinx"] or case["ylim"][0] == case["ylim"][1]):
            eq(tuple(ax.get_ylim()), tuple(pick(case["ylim"], a)), "plot1D: ylim of axis %d" % a)
        if case["legend"]:
            leg = ax.get_legend()
            check(leg is not None, "plot1D: no legend")
            if case["label"]:
                eq([t.get_text() for t in leg.get_texts()], [str(pick(case["label"], i)) for i in series], "plot1D: the legend of axis %d" % a)
    eq([a.get_title() for a in axes if a.get_title()], [case["title"]] if case["title"] else [], "plot1D: the title")
    eq(norm((x, y)), before, "plot1D: the data afterwards")
    return sum(map(len, case["data"])) >= 4


def centers(r, k):
    """Rows of hexagons of radius 1, every other row being half a hexagon further right (odd number of rows) or left."""
    s = 1 if r % 2 else -1
    return {(x, y): (math.sqrt(3) * (x + s * 0.5 * (y % 2)), 1.5 * y) for y in range(r) for x in range(k)}


def tiles(corners, at, ax, what):
    """The cell is a hexagon that shares its edges with the ones around it, and is inside the axes."""
    want = [(at[0] + math.sin(k * math.pi / 3), at[1] + math.cos(k * math.pi / 3)) for k in range(6)]
    got = [tuple(float(x) for x in p) for p in corners]
    near = {k for g in got for k, w in enumerate(want) if abs(g[0] - w[0]) + abs(g[1] - w[1]) < 1e-6}
    check(len(got) == 6 and len(near) == 6, "%s: the cell at %r has the corners %r, expected %r", what, at, got, want)
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    check(all(min(x0, x1) - 1e-6 <= x <= max(x0, x1) + 1e-6 and min(y0, y1) - 1e-6 <= y <= max(y0, y1) + 1e-6 for x, y in got),
          "%s: the cell at %r is outside of the axes, %r, %r", what, at, (x0, x1), (y0, y1))


def hex_axes(ax, what):
    x, y = ax.get_xlim(), ax.get_ylim()
    check(x[0] < x[1] and y[0] > y[1], "%s: the first row is not at the top, or the first column not at the left: %r, %r", what, x, y)
    check(ax.get_aspect() in (1, "equal"), "%s: the aspect is %r", what, ax.get_aspect())


def run_hex(case):
    src = source(case)
    before = frozen(src)
    with Display("plot_hex_grid"):
        ntm.plot_hex_grid(src, edgecolor=case["edge"], **kw(case))
    shown = reshape(case["data"], case["shape"])[-1 if case["slice"] is None else case["slice"]] if case["shape"] else case["data"]
    ax = plt.gca()
    vals = [v for r in shown for v in r]
    nm = mcolors.Normalize(min(vals) if case["vmin"] is None else case["vmin"], max(vals) if case["vmax"] is None else case["vmax"])
    cmap = matplotlib.colormaps[case["cmap"]]
    eq(len(ax.patches), len(vals), "plot_hex_grid: the number of cells")
    left = dict(centers(len(shown), len(shown[0])))
    for p in ax.patches:
        eq(p.numvertices, 6, "plot_hex_grid: the number of corners")
        at = [q for q, (a, b) in left.items() if abs(p.xy[0] - a) + abs(p.xy[1] - b) < 1e-6]
        check(at, "plot_hex_grid: a cell at %r; expected %r", p.xy, list(left.values()))
        tiles(p.get_patch_transform().transform(p.get_path().vertices[:6]), left[at[0]], ax, "plot_hex_grid")
        if case["edge"]:
            eq(tuple(p.get_edgecolor()), mcolors.to_rgba(case["edge"]), "plot_hex_grid: the color of the edges")
        del left[at[0]]
        v = shown[at[0][1]][at[0][0]]
        want = cmap(nm(v))
        check(np.allclose(p.get_facecolor(), want), "plot_hex_grid: cell %r (%r) has color %r, expected %r", at[0], v, p.get_facecolor(), want)
    hex_axes(ax, "plot_hex_grid")
    eq(ax.get_title(), case["title"] or "", "plot_hex_grid: the title")
    eq(frozen(src), before, "plot_hex_grid: the data afterwards")
    return len(vals) >= 4


def run_anihex(case):
    src = source(case)
    before = frozen(src)
    ani = animate(case, "animate_hex", lambda **o: ntm.animate_hex(src, edgecolor=case["edge"], **kw(case), **o), dpi=False)
    ax = plt.gca()
    eq(ax.get_title(), case["title"] or "", "animate_hex: the title")
    cols = [c for c in ax.collections if isinstance(c, matplotlib.collections.PatchCollection)]
    eq(len(cols), 1, "animate_hex: the number of patch collections")
    col = cols[0]
    states = reshape(case["data"], case["shape"])
    want = centers(*case["shape"])
    keys = []
    for path in col.get_paths():
        v = path.vertices[:6]
        x, y = v.mean(axis=0)
        at = [q for q, (a, b) in want.items() if abs(x - a) + abs(y - b) < 1e-6]
        check(at, "animate_hex: a cell at %r; expected %r", (x, y), list(want.values()))
        tiles(v, want[at[0]], ax, "animate_hex")
        keys.append(at[0])
    eq(sorted(keys), sorted(want), "animate_hex: the cells")
    hex_axes(ax, "animate_hex")
    if case["edge"]:
        ec = col.get_edgecolor()
        eq({tuple(float(x) for x in e) for e in ec}, {mcolors.to_rgba(case["edge"])}, "animate_hex: the color of the edges")
    shown = []
    for _ in frames(ani, 2 * len(states) + 1):
        arr = np.asarray(col.get_array()).tolist()
        eq(len(arr), len(keys), "animate_hex: the number of values")
        g = {k: v for k, v in zip(keys, arr)}
        shown.append([[g[(x, y)] for x in range(case["shape"][1])] for y in range(case["shape"][0])])
    cyclic(shown, states, "animate_hex")
    eq(len(list(ani.new_saved_frame_seq())), len(states), "animate_hex: the number of frames to save")
    lo, hi = col.get_clim()
    if case["vmin"] is not None:
        eq(lo, case["vmin"], "animate_hex: vmin")
    if case["vmax"] is not None:
        eq(hi, case["vmax"], "animate_hex: vmax")
    eq(col.get_cmap().name, case["cmap"], "animate_hex: the colormap")
    eq(frozen(src), before, "animate_hex: the data afterwards")
    return len(states) * len(keys) >= 4


def run_degree(case):
    net = ref.build(case["net"])
    ind, out = collections.Counter(), collections.Counter()
    for i, j, _ in case["net"]["edges"]:
        out[i] += 1
        ind[j] += 1
    m = case["mode"]
    deg = collections.Counter((0 if m == "out_degree" else ind[v]) + (0 if m == "in_degree" else out[v]) for v in case["net"]["nodes"])
    k = {m: True} if m else {}
    if case["labels"]:
        k.update(xlabel="XL", ylabel_freq="FQ", ylabel_prob="PR")
    if case["title"]:
        k["title"] = case["title"]
    if case["equation"]:
        k.update(equation=lambda q: 1.0 / (q + 1), equation_text="1/(k+1)", color="g", equation_color="k")
    with Display("plot_degree_distribution"):
        ntm.plot_degree_distribution(net, **k)
    axes = plt.gcf().axes
    what = "plot_degree_distribution (%s)" % (m or "degree")
    eq([(round(b.get_x() + b.get_width() / 2, 6), b.get_height()) for b in sorted(axes[0].patches, key=lambda b: b.get_x())],
       [(i, deg[i]) for i in range(1, max(deg) + 1)], what)
    eq((axes[0].get_xlabel(), axes[0].get_ylabel()), ("XL", "FQ") if case["labels"] else ("Node degree", "Frequency"), what + ": the labels")
    eq(len(axes), 2 if case["equation"] else 1, what + ": the number of axes")
    if case["equation"]:
        ln = axes[1].lines
        eq(len(ln), 1, what + ": the number of lines")
        eq((list(ln[0].get_xdata()), list(ln[0].get_ydata())),
           (list(range(1, max(deg) + 1)), [1.0 / (q + 1) for q in range(1, max(deg) + 1)]), what + ": the equation")
        eq(axes[1].get_ylabel(), "PR" if case["labels"] else "Probability", what + ": the label of the equation")
        eq([t.get_text() for t in axes[1].texts], ["1/(k+1)"], what + ": the text")
    eq([a.get_title() for a in axes if a.get_title()], [case["title"]] if case["title"] else [], what + ": the title")
    ref.same_network(net, ref.model(case["net"]), what + ": the network afterwards")
    return len(case["net"]["nodes"]) >= 4


def axes_text(case, ax, what):
    eq(ax.get_xlabel(), case["xlabel"] or "", what + ": the label of x")
    eq(ax.get_ylabel(), case["ylabel"] or "", what + ": the label of y")
    eq(ax.get_title(), case["title"] or "", what + ": the title")


def points(col):
    return [tuple(float(v) for v in p) for p in np.asarray(col.get_offsets())]


def run_poincare(case):
    conv = (lambda r: np.array(r)) if case["arr"] else list
    data = case["data"][:1] if case["single"] else case["data"]
    src = conv(data[0]) if case["single"] else [conv(r) for r in data]
    before = norm(src)
    k = {n: case[n] for n in ("xlabel", "ylabel", "xlim", "ylim", "title") if case[n] is not None}
    with Display("poincare_plot"):
        ntm.poincare_plot(src, case["timesteps"], **k)
    ax = plt.gca()
    eq(len(ax.collections), len(data), "poincare_plot: the number of series")
    colors = set()
    for col, a in zip(ax.collections, data):
        last = [float(v) for v in a[len(a) - case["timesteps"]:]]
        eq(points(col), list(zip(last, last[1:])), "poincare_plot")
        colors.add(tuple(col.get_facecolor()[0]))
    eq(len(colors), len(data), "poincare_plot: the number of colors")
    axes_text(case, ax, "poincare_plot")
    for name, lim in (("xlim", ax.get_xlim()), ("ylim", ax.get_ylim())):
        if case[name]:
            eq(tuple(lim), case[name], "poincare_plot: " + name)
    eq(norm(src), before, "poincare_plot: the data afterwards")
    return case["timesteps"] >= 4


def run_bifurcation(case):
    conv = (lambda r: np.array(r)) if case["arr"] else list
    src = [conv(r) for r in case["data"]]
    x = list(case["x"])
    before = norm(src)
    k = {n: case[n] for n in ("xlabel", "ylabel", "title") if case[n] is not None}
    with Display("bifurcation_plot"):
        ntm.bifurcation_plot(x, src, case["timesteps"], **k)
    ax = plt.gca()
    got = collections.Counter(p for col in ax.collections for p in points(col))
    want = collections.Counter((float(xe), float(v)) for xe, r in zip(case["x"], case["data"]) for v in set(r[len(r) - case["timesteps"]:]))
    eq(got, want, "bifurcation_plot")
    axes_text(case, ax, "bifurcation_plot")
    eq((norm(src), x), (before, case["x"]), "bifurcation_plot: the data afterwards")
    return sum(want.values()) >= 4
