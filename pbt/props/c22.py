"""C22: CTRBL rules."""
import random

from .. import ref
from ..base import check, eq, fail
from ..ref import ntm

RULE = """A case is a torus of 3x3 to 9x9 cells, a number of states (numbers or letters), a table (complete, or partial: each state
kept with some probability; with add_rotations one representative per class of rotations) whose images are random, a
pattern and a length. The evolution is compared with the table applied to the grid directly, up to the timestep where a
state is missing, which must be an error; the neighbourhood map with the coordinates; with add_rotations on a square
torus, the evolution of the pattern turned by 90 degrees with the turned evolution. Non-trivial: some cell changes."""
N = 2500
NOISE = "cmphfunk"
THOROUGH = 15


def gen(d):
    rows, cols = d.size(3, 5, 9), d.size(3, 5, 9)
    if d.bool(0.3):
        cols = rows
    k = d.choice([2, 2, 3, 4])
    return {"rows": rows, "cols": cols, "k": k, "rot": d.bool(0.5), "salt": d.seed(), "steps": d.size(2, 4, 7),
            "keep": d.choice([100, 100, 100, 95, 99]), "letters": d.bool(0.2), "lazy": d.bool(0.3),
            "grid": [[d.int(0, k - 1) for _ in range(cols)] for _ in range(rows)]}


def turns(key):
    c, t, r, b, l = key
    return [(c, t, r, b, l), (c, l, t, r, b), (c, b, l, t, r), (c, r, b, l, t)]


def step(grid, table):
    R, C = len(grid), len(grid[0])
    new, missing = [], None
    for i in range(R):
        row = []
        for j in range(C):
            key = (grid[i][j], grid[i - 1][j], grid[i][(j + 1) % C], grid[(i + 1) % R][j], grid[i][j - 1])
            if key not in table:
                missing = key
                row.append(None)
            else:
                row.append(table[key])
        new.append(row)
    return new, missing


def turn(grid):
    """A quarter turn clockwise."""
    return [list(row) for row in zip(*grid[::-1])]


def history(grid, table, steps):
    out = [grid]
    for _ in range(steps - 1):
        grid, missing = step(grid, table)
        if missing is not None:
            return out, missing
        out.append(grid)
    return out, None


def run(case):
    R, C, k = case["rows"], case["cols"], case["k"]
    rnd = random.Random(case["salt"])
    sym = (lambda x: "abcd"[x]) if case["letters"] else (lambda x: x)
    keys = [tuple(sym((x // k ** e) % k) for e in range(5)) for x in range(k ** 5)]
    given = {}
    for key in keys:
        if case["rot"] and any(q in given for q in turns(key)):
            continue
        given[rnd.choice(turns(key)) if case["rot"] else key] = key[0] if case["lazy"] and rnd.random() < 0.7 \
            else sym(rnd.randrange(k))
    for key in list(given):
        if rnd.randrange(100) >= case["keep"]:
            del given[key]
    full = {q: v for key, v in given.items() for q in (turns(key) if case["rot"] else [key])}
    grid = [[sym(x) for x in row] for row in case["grid"]]
    copy = dict(given)
    ctrbl = ntm.CTRBLRule(dim=(R, C), rule_table=given, **({"add_rotations": True} if case["rot"] else {}))
    eq(given, copy, "the given table afterwards")
    eq(dict(ctrbl.rule_table), full, "rule_table with add_rotations=%s" % case["rot"])
    nm = ctrbl.neighbourhood_map
    eq(sorted(nm), list(range(R * C)), "cells of the neighbourhood map")
    for i in range(R):
        for j in range(C):
            x = nm[i * C + j]
            eq((x.center, x.top, x.right, x.bottom, x.left),
               (i * C + j, ((i - 1) % R) * C + j, i * C + (j + 1) % C, ((i + 1) % R) * C + j, i * C + (j - 1) % C),
               "center, top, right, bottom, left of cell (%d, %d) of %dx%d" % (i, j, R, C))
    changed = compare(case, ctrbl, grid, full, "pattern")
    if case["rot"] and R == C:
        want, missing = history(turn(grid), full, case["steps"])
        straight, _ = history(grid, full, case["steps"])
        assert [turn(g) for g in straight] == want
        compare(case, ctrbl, turn(grid), full, "turned pattern")
    return changed, ["rotations" if case["rot"] else "no rotations", "%d states" % k,
                     "partial" if case["keep"] < 100 else "complete"]


def compare(case, ctrbl, grid, full, what):
    R, C = len(grid), len(grid[0])
    want, missing = history(grid, full, case["steps"])

    def evolve(steps):
        return ref.evolve(network=ctrbl.network, initial_conditions=[x for row in grid for x in row], timesteps=steps,
                          activity_rule=ctrbl.activity_rule)
    if missing is not None:
        try:
            evolve(len(want) + 1)
        except Exception:
            pass
        else:
            fail("%s: no error although the state %r is not in the table at t=%d", what, missing, len(want))
    traj = evolve(len(want))
    eq(len(traj), len(want), "%s: number of states" % what)
    for t, (s, g) in enumerate(zip(traj, want)):
        check(s.activities == {i * C + j: g[i][j] for i in range(R) for j in range(C)},
              "%s on %dx%d at t=%d: %r, expected %r", what, R, C, t, s.activities, g)
    return any(g != grid for g in want)
