"""C35: the turtle and L-system drawings."""
import math

import matplotlib.pyplot as plt

from .. import ref
from ..base import check, close, eq
from ..ref import ntm
from ..display import Display
from .c36 import Recorder, one_animation

RULE = """A case is a start (position, orientation) and a sequence of forward (also 0, negative, default), rotate, push and pop, as
calls or as bindings of the symbols of an L-system's string (single instructions, instructions with arguments, lists
of both); position, orientation, trajectory and abs after every operation are compared with turtle geometry (tolerance
1e-9), and in some cases the drawn lines (for an animation, those of every frame, and the limits) with the trajectory.
Non-trivial: at least three operations, with a turn and a
forward."""
N = 3500
SPIKE = 12
NOISE = "c"


def gen(d):
    start = d.choice([None, (0, 0, 0), (d.num(-5, 5), d.num(-5, 5), d.int(-400, 400))])
    if d.bool(0.5):
        ops = []
        depth = 0
        if d.bool(0.04):     # many positions on the stack
            ops = [(k, amount(d, k)) for _ in range(d.int(10, 120)) for k in ("push", "f")]
            ops += [("pop", None)] * (len(ops) // 2 if d.bool() else d.int(0, len(ops) // 2))
        for _ in range(d.size(1, 10, 60)):
            k = d.choice(["f", "f", "f", "r", "r", "push", "pop"])
            if k == "pop":
                if depth == 0:
                    k = "f"
                else:
                    depth -= 1
            depth += k == "push"
            ops.append((k, amount(d, k)))
        return {"start": start, "ops": ops, "plot": d.weighted([(None, 94), ("plot", 3), ("animate", 3)]),
                "repeat": d.choice([None, True, False]), "marker": d.bool(0.3), "how": how(d)}
    sym = "FGXAB+-[]"
    out, depth = [], 0
    for _ in range(d.size(1, 10, 40)):
        c = d.choice(sym)
        if c == "]":
            if depth == 0:
                c = "F"
            else:
                depth -= 1
        depth += c == "["
        out.append(c)
    bind = {"F": [("f", amount(d, "f"))], "G": [(k, amount(d, k)) for k in d.choice([["f"], ["f", "f"], ["f", "r"], ["f", "r", "f", "f", "r", "f"], ["r"] * 5])] * d.choice([1, 1, 2, 3]),
            "X": [], "A": [(k, amount(d, k)) for k in d.choice([["push", "r", "f", "pop"], ["r", "f"], ["push", "f", "pop", "r"]])],
            "B": [(k, amount(d, k)) for k in ["f"]], "+": [("r", d.choice([25, 90, 60, 22.5]))],
            "-": [("r", -d.choice([25, 90, 60, 22.5]))], "[": [("push", None)] + ([("r", -45)] if d.bool(0.3) else []),
            "]": [("pop", None)] + ([("r", 45)] if d.bool(0.3) else [])}
    return {"start": start, "string": "".join(out), "bind": bind, "aslist": d.subset(sym, 0.4), "marker": d.bool(0.2),
            "animate": d.bool(0.15), "repeat": d.choice([None, True, False]), "how": how(d)}


def how(d):
    return {k: v for k, v in (("save", True), ("interval", d.choice([50, 20, 200])), ("dpi", d.choice([40, 80])), ("fps", d.choice([10, 50]))) if d.bool(0.3)}


def amount(d, k):
    if k == "f":
        return d.choice([None, 1, 2.5, d.num(-3, 9), 0])
    if k == "r":
        return d.choice([90, -90, 60, 45, 22.5, 360, d.int(-720, 720), d.num(-90, 90)])
    return None


class Model:
    def __init__(self, start):
        self.x, self.y, self.o = start or (0, 0, 0)
        self.stack, self.segs = [], []

    def do(self, k, a):
        if k == "f":
            a = 1 if a is None else a
            x = self.x + a * math.sin(self.o * math.pi / 180)
            y = self.y + a * math.cos(self.o * math.pi / 180)
            self.segs.append(((self.x, self.y), (x, y)))
            self.x, self.y = x, y
        elif k == "r":
            self.o += a
        elif k == "push":
            self.stack.append((self.x, self.y, self.o))
        else:
            self.x, self.y, self.o = self.stack.pop()


def call(turtle, k, a):
    """(function, arguments)"""
    if k == "f":
        return turtle.forward, (() if a is None else (a,))
    if k == "r":
        return turtle.rotate, (a,)
    return (turtle.push if k == "push" else turtle.pop), ()


def same(turtle, m, what):
    close(turtle.pos[0], m.x, what + ": x", 1e-9)
    close(turtle.pos[1], m.y, what + ": y", 1e-9)
    check(abs((turtle.orientation - m.o + 180) % 360 - 180) < 1e-6, "%s: orientation %r, expected %r", what, turtle.orientation, m.o)
    close(turtle.abs, math.hypot(m.x, m.y), what + ": abs", 1e-9)
    eq(len(turtle.trajectory), len(m.segs), what + ": number of segments")


def same_segments(got, m, what):
    eq(len(got), len(m.segs), what + ": number of segments")
    for k, ((xs, ys), ((a, b), (c, e))) in enumerate(zip(got, m.segs)):
        eq((len(xs), len(ys)), (2, 2), "%s: points of segment %d" % (what, k))
        for u, v in zip((xs[0], ys[0], xs[1], ys[1]), (a, b, c, e)):
            close(float(u), v, "%s: segment %d" % (what, k), 1e-9)


def drawn():
    return [(list(ln.get_xdata()), list(ln.get_ydata())) for ax in plt.gcf().axes for ln in ax.lines]


def check_marker(case, m, what):
    lines = [ln for ax in plt.gcf().axes for ln in ax.lines]
    check(all((ln.get_marker() == "o") == bool(case["marker"]) for ln in lines), "%s: markers %r", what, [ln.get_marker() for ln in lines])


def animate(case, what, call):
    o = case.get("how") or {}
    save = {k: o[k] for k in ("dpi", "fps") if k in o} if o.get("save") else None
    with Display(what, save=save), Recorder() as rec:
        call(**o)
    ani = one_animation(rec)
    if "interval" in o:
        eq(ani._interval, o["interval"], what + ": the interval")
    return ani


def animated(ani, m, case, what):
    """The frames draw the segments one after the other (a repeating animation may start over at its last frame)."""
    r = lambda *v: tuple(round(float(x), 7) + 0.0 for x in v)  # noqa: E731
    segs = [r(a, b, c, e) for (a, b), (c, e) in m.segs]
    ani._draw_was_started = True
    ani._init_draw()
    limits = None
    for cycle in range(2 if case["repeat"] else 1):
        for k, f in enumerate(ani.new_frame_seq()):
            ani._draw_frame(f)
            check(k < len(segs), "%s: more frames than segments", what)
            ax, = plt.gcf().axes
            lines = [(list(ln.get_xdata()), list(ln.get_ydata())) for ln in ax.lines]
            got = {r(xs[0], ys[0], xs[1], ys[1]) for xs, ys in lines if len(xs) == 2}
            eq(sum(len(xs) != 2 for xs, _ in lines), 0, what + ": lines that are no segments")
            if case["repeat"] and k == len(segs) - 1:
                ok = got in (set(segs), set())
            else:
                ok = got == set(segs[:k + 1])
            check(ok, "%s: frame %d shows %r, the segments are %r", what, k, sorted(got), segs)
            check_marker(case, m, what)
            (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
            limits = limits or (x0, x1, y0, y1)
            check(limits == (x0, x1, y0, y1), "%s: the limits change from %r to %r at frame %d", what, limits, (x0, x1, y0, y1), k)
            check(all(x0 - 1e-6 <= x <= x1 + 1e-6 and y0 - 1e-6 <= y <= y1 + 1e-6 for s in m.segs for x, y in s),
                  "%s: the limits at frame %d are %r, %r, the segments %r", what, k, (x0, x1), (y0, y1), segs)
        eq(k, len(segs) - 1, what + ": the last frame")


def run(case):
    t = ntm.Turtle(*case["start"]) if case["start"] else ntm.Turtle()
    m = Model(case["start"])
    same(t, m, "a new turtle")
    if "ops" in case:
        pushed = []
        for i, (k, a) in enumerate(case["ops"]):
            fn, args = call(t, k, a)
            fn(*args)
            m.do(k, a)
            what = "after %r" % (case["ops"][:i + 1],)
            same(t, m, what)
            if k == "push":
                pushed.append((t.pos, t.orientation))
            elif k == "pop":
                eq((t.pos, t.orientation), pushed.pop(), what + ": position and orientation of the push")
        same_segments(t.trajectory, m, "%r" % (case["ops"],))
        kw = {"marker": "o"} if case["marker"] else {}
        plt.close("all")
        if case["plot"] == "plot":
            with Display("plot"):
                t.plot(**kw)
            same_segments(drawn(), m, "plot")
            check_marker(case, m, "plot")
        elif case["plot"] == "animate" and m.segs:
            if case["repeat"] is not None:
                kw["repeat"] = case["repeat"]
            animated(animate(case, "animate", lambda **o: t.animate(**kw, **o)), m, case, "animate")
        same(t, m, "after drawing")
        plt.close("all")
        kinds = {k for k, _ in case["ops"]}
        return len(case["ops"]) >= 3 and {"f", "r"} <= kinds, ["calls"]
    bindings = {}
    for c, ins in case["bind"].items():
        if c not in case["string"]:
            continue
        real = []
        for k, a in ins:
            fn, args = call(t, k, a)
            real.append(fn if not args else (fn,) + args)
        bindings[c] = real if c in case["aslist"] or len(real) != 1 else real[0]
    for c in case["string"]:
        for k, a in case["bind"][c]:
            m.do(k, a)
    ss = ntm.SubstitutionSystem(axiom=case["string"], rules={c: c for c in set(case["string"])})
    state = ref.evolve(network=ss.network, initial_conditions=ss.initial_conditions, timesteps=2, activity_rule=ss.activity_rule)[-1]
    plt.close("all")
    kw = {"marker": "o"} if case["marker"] else {}
    name = "animate_L_system" if case["animate"] and m.segs else "plot_L_system"
    what = "%s of %r with %r" % (name, case["string"], case["bind"])
    if name == "plot_L_system":
        with Display(what):
            ntm.plot_L_system(state, t, bindings, **kw)
        same_segments(drawn(), m, what)
        check_marker(case, m, what)
    else:
        if case["repeat"] is not None:
            kw["repeat"] = case["repeat"]
        animated(animate(case, what, lambda **o: ntm.animate_L_system(state, t, bindings, **kw, **o)), m, case, what)
    same(t, m, what)
    same_segments(t.trajectory, m, "trajectory")
    plt.close("all")
    return len(case["string"]) >= 3 and bool(m.segs), ["L-system"]
