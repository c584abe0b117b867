"""C19: Game of Life, Wireworld and majority rules."""
import collections
import random

import numpy as np

from .. import ref
from ..base import check, eq
from ..ref import ntm

RULE = """A case is a grid (3x3 to 12x12, square or not) with a random pattern evolved by the Game of Life or Wireworld rule,
with ordered or unordered networks, and compared with the rule applied to the grid
directly; or a multiset of neighbour states for majority_rule, repeated with different random states: the result must
be a most frequent state, and with a tie every tied state must turn up. Non-trivial: some cell changes, or at least
three neighbours."""
N = 2500
NOISE = "cmphfunk"
THOROUGH = 15

# every neighbourhood of a cell, the others being seen by their neighbours too
EXPLICIT = [{"kind": "life", "grid": [[x >> (3 * i + j) & 1 for j in range(3)] for i in range(3)], "steps": 2, "ordered": x % 2 == 0, "np": False}
            for x in range(512)] + \
           [{"kind": "wire", "grid": [[3 if (i, j) == (1, 1) else 1 if x >> (3 * i + j) & 1 else (0, 2, 3)[(i + j + x) % 3] for j in range(3)] for i in range(3)],
             "steps": 2, "ordered": x % 2 == 0, "np": False} for x in range(512)] + \
           [{"kind": kind, "grid": [[random.Random(100 * x + 10 * i + j).choice(pool) for j in range(6)] for i in range(4 + x % 3)], "steps": 45, "ordered": x % 2 == 0, "np": False}
            for x in range(12) for kind, pool in (("life", [0, 1]), ("wire", [0, 1, 2, 3, 3]))]


def gen(d):
    kind = d.weighted([("life", 4), ("wire", 3), ("majority", 3)])
    if kind == "majority":
        n = d.size(1, 7, 15)
        pool = d.choice([[0, 1], [0, 1, 2], ["a", "b"], ["a", "bb", "ccc"], [-1, 1], [0.5, 1.5, 2], list(range(9)),
                         ["10", "9"], [(0, 1), (0,), "(0, 1)"], [1, "1", "a"], [None, 0, "None"], [2 ** 60 + 1, 1.5, True], [0.5, "0.5"]])
        acts = [d.choice(pool) for _ in range(n)]
        if d.bool(0.4) and n >= 2:       # a tie
            x, y = pool[0], pool[1]
            acts = d.shuffle([x, y] * (n // 2) + ([z for z in pool[2:]][:n % 2]))
        if d.bool(0.1):      # many states, all different or each twice
            n = d.int(3, 14)
            acts = d.shuffle(range(n)) * d.choice([1, 1, 2])
        return {"kind": kind, "acts": acts, "seed": d.seed()}
    rows, cols = d.size(3, 6, 12), d.size(3, 6, 12)
    dens = d.choice([10, 25, 40, 60, 90])
    if kind == "life":
        grid = [[1 if d.int(0, 99) < dens else 0 for _ in range(cols)] for _ in range(rows)]
    else:
        heads = d.choice([2, 2, 2, 20])
        grid = [[d.weighted([(0, 2), (1, heads), (2, 1), (3, 4)]) for _ in range(cols)] for _ in range(rows)]
    return {"kind": kind, "grid": grid, "steps": d.size(2, 4, 8) if rows * cols > 16 or not d.bool(0.08) else 45, "ordered": d.bool(),
            "np": d.bool(0.3)}


def run(case):
    if case["kind"] == "majority":
        return majority(case)
    grid = case["grid"]
    R, C = len(grid), len(grid[0])
    net = ntm.topology.cellular_automaton2d(R, C, ordered=case["ordered"])
    init = [x for row in grid for x in row]
    rule = ntm.rules.game_of_life_rule if case["kind"] == "life" else ntm.rules.wireworld_rule
    traj = ref.evolve(network=net, initial_conditions=np.array(init) if case["np"] else init, timesteps=case["steps"],
                      activity_rule=rule)
    changed = False
    for t, s in enumerate(traj):
        want = {i * C + j: grid[i][j] for i in range(R) for j in range(C)}
        eq({v: s.activities[v] for v in want}, want, "%s on %dx%d, t=%d" % (case["kind"], R, C, t))
        eq(len(s.activities), R * C, "number of cells")
        new = []
        for i in range(R):
            row = []
            for j in range(C):
                around = [grid[(i + a) % R][(j + b) % C] for a in (-1, 0, 1) for b in (-1, 0, 1) if (a, b) != (0, 0)]
                x = grid[i][j]
                if case["kind"] == "life":
                    k = sum(around)
                    row.append(1 if k == 3 or (x == 1 and k == 2) else 0)
                else:
                    heads = around.count(1)
                    row.append([0, 2, 3, 1 if heads in (1, 2) else 3][x])
            new.append(row)
        changed = changed or new != grid
        grid = new
    return changed, [case["kind"], "square" if R == C else "not square"]


def majority(case):
    acts = case["acts"]
    counts = collections.Counter(acts)
    top = {a for a in counts if counts[a] == max(counts.values())}
    n = len(acts)
    net = ntm.Network()
    for i in range(n + 1):
        net.add_node(i)
    for i in range(n):
        net.add_edge(i, n)

    def rule(ctx):
        return ntm.rules.majority_rule(ctx) if ctx.node_label == n else ctx.current_activity
    np.random.seed(case["seed"])
    seen = collections.Counter()
    # with m tied states, m at most 14, the chance to miss one is below m * (1 - 1/m)^(40*m) < 14 * exp(-40) < 1e-16
    reps = 3 if len(top) == 1 else 40 * len(top)
    for _ in range(reps):
        got = ref.evolve(network=net, initial_conditions=list(acts) + [acts[0]], timesteps=2,
                         activity_rule=rule)[-1].activities[n]
        check(got in top, "majority_rule gives %r for the neighbours %r", got, acts)
        check(any(isinstance(got, str) == isinstance(a, str) for a in top if a == got), "majority_rule gives %r for the neighbours %r", got, acts)
        seen[got] += 1
        if len(seen) == len(top) and sum(seen.values()) >= 3:
            break
    eq(set(seen), top, "the states chosen among the tied ones of %r" % acts)
    return n >= 3, ["majority", "tie" if len(top) > 1 else "no tie"]
