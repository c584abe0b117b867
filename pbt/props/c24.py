"""C24: the sandpile."""
import numpy as np

from .. import ref
from ..base import check, eq
from ..ref import ntm

RULE = """A case is a grid of 3x3 to 9x9 cells, open or closed, initial grains (some far above four, also on the boundary), grains
added by a perturbation at some timesteps, and a length. Every timestep is compared with parallel toppling computed
directly; an open sandpile must keep the sum; a closed one is run until it is stable and compared with toppling single
cells in a random order. Non-trivial: some cell topples."""
N = 2500
NOISE = "cmphfunk"
THOROUGH = 15


def gen(d):
    rows, cols = d.size(3, 5, 9), d.size(3, 5, 9)
    hi = d.choice([4, 6, 9, 30, 4, 6, 9, 30, 400])
    steps = d.size(2, 6, 12)
    closed = d.weighted([(True, 3), (None, 1), (False, 2)])
    return {"rows": rows, "cols": cols, "closed": closed, "steps": steps, "seed": d.seed(),
            "init": [d.int(0, hi) if d.bool(0.7) else 0 for _ in range(rows * cols)],
            "add": {t: {d.int(0, rows * cols - 1): d.int(1, 6)} for t in range(1, steps) if d.bool(0.3)},
            "settle": d.bool(0.3) and hi < 100}


def topple(g, R, C, closed):
    new = {}
    for (i, j), x in g.items():
        if closed and (i in (0, R - 1) or j in (0, C - 1)):
            new[(i, j)] = 0
            continue
        y = x - 4 if x >= 4 else x
        for a, b in ((-1, 0), (1, 0), (0, -1), (0, 1)):
            if g[((i + a) % R, (j + b) % C)] >= 4:
                y += 1
        new[(i, j)] = y
    return new


def run(case):
    R, C = case["rows"], case["cols"]
    closed = case["closed"] is not False
    pile = ntm.Sandpile(R, C) if case["closed"] is None else ntm.Sandpile(rows=R, cols=C, is_closed_boundary=case["closed"])

    def evolve(init, steps, add=None):
        def perturb(pctx):
            return pctx.node_activity + add.get(pctx.timestep, {}).get(pctx.node_label, 0)
        return ref.evolve(network=pile.network, initial_conditions=list(init), timesteps=steps,
                          activity_rule=pile.activity_rule, **({"perturbation": perturb} if add else {}))
    g = {(i, j): case["init"][i * C + j] for i in range(R) for j in range(C)}
    active = False
    traj = evolve(case["init"], case["steps"], case["add"])
    eq(len(traj), case["steps"], "number of states")
    total = sum(g.values())
    for t, s in enumerate(traj):
        if t:
            active = active or any(x >= 4 for x in g.values())
            g = topple(g, R, C, closed)
            for v, k in case["add"].get(t, {}).items():
                g[divmod(v, C)] += k
                total += k
        eq(s.activities, {i * C + j: x for (i, j), x in g.items()},
           "%dx%d, closed=%s, from %r, t=%d" % (R, C, closed, case["init"], t))
        if not closed:
            eq(sum(s.activities.values()), total, "grains at t=%d" % t)
        elif t and not case["add"]:
            check(all(x == 0 for v, x in s.activities.items() if v // C in (0, R - 1) or v % C in (0, C - 1)),
                  "boundary cells at t=%d: %r", t, s.activities)
    if closed and case["settle"]:
        # from a state with an empty boundary, run until nothing is left to topple
        start = dict(traj[-1].activities)
        for v in start:
            if v // C in (0, R - 1) or v % C in (0, C - 1):
                start[v] = 0
        acts, k = dict(start), 0
        while any(x >= 4 for x in acts.values()):
            acts = evolve([acts[v] for v in range(R * C)], 26)[-1].activities
            k += 1
            check(k < 200, "the closed sandpile %r doesn't settle", start)
        one = {divmod(v, C): x for v, x in start.items()}
        rnd = np.random.RandomState(case["seed"])
        while True:
            high = [c for c, x in one.items() if x >= 4]
            if not high:
                break
            i, j = high[rnd.randint(len(high))]
            one[(i, j)] -= 4
            for a, b in ((-1, 0), (1, 0), (0, -1), (0, 1)):
                q = ((i + a) % R, (j + b) % C)
                if not (q[0] in (0, R - 1) or q[1] in (0, C - 1)):
                    one[q] += 1
        eq({v: acts[v] for v in acts}, {i * C + j: x for (i, j), x in one.items()},
           "settled %dx%d sandpile from %r" % (R, C, start))
    return active, ["closed" if closed else "open", "settle" if closed and case["settle"] else "steps"]
