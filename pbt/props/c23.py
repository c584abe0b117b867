"""C23: Langton's loop."""
from .. import ref
from ..base import check, eq
from ..ref import ntm
from .c22 import history, turns
from .langton_table import TABLE

RULE = """A case is a torus, the places of one to three loops that do not touch, and a number of timesteps; the initial
conditions are compared with Langton's initial loop at those places, and the evolution with the published transitions
(and rotations) applied to the grid directly. Explicit cases run 151 timesteps, after which there must be two loops. The
table is compared as a whole. Non-trivial: at least two timesteps."""
N = 240
NOISE = "cmphfunk"
THOROUGH = 12
MIN_DISTINCT = 2

LOOP = """
.22222222.....
2170140142....
2022222202....
272....212....
212....212....
202....212....
272....212....
21222222122222
207107107111112
.2222222222222
""".split()
FULL = {}
for _s in TABLE:
    for _q in turns(tuple(map(int, _s[:5]))):
        FULL[_q] = int(_s[5])

EXPLICIT = [{"dim": [16, 34], "at": [(3, 4)], "steps": 152}, {"dim": [17, 36], "at": [(0, 0)], "steps": 152},
            {"dim": [20, 33], "at": [(10, 19)], "steps": 152}]


def gen(d):
    if d.bool(0.1):     # many places on a large torus; not evolved far
        rows, cols = d.int(12, 90), d.int(18, 90)
        spots = [(13 * i, 18 * j) for i in range(rows // 13 or 1) for j in range(cols // 18)]
        at = [tuple(p) for p in d.sample(spots, d.int(1, min(8, len(spots))))]
        return {"dim": [rows, cols], "at": at, "steps": d.int(1, 2)}
    n = d.weighted([(1, 3), (2, 2), (3, 1)])
    rows, cols = 12 + d.int(0, 8), 18 + d.int(0, 8)
    at = []
    side = d.bool()
    for i in range(n):
        if side:
            at.append((d.int(0, rows - 10), 18 * i + d.int(0, 2)))
        else:
            at.append((13 * i + d.int(0, 1), d.int(0, cols - 14)))
    if n > 1:
        rows, cols = (rows, 18 * n + 4) if side else (13 * n, cols)
    return {"dim": [rows, cols], "at": at, "steps": d.int(1, d.size(3, 12, 50))}


def grid_of(case):
    R, C = case["dim"]
    g = [[0] * C for _ in range(R)]
    for r, c in case["at"]:
        for i, line in enumerate(LOOP):
            for j, ch in enumerate(line):
                if ch not in ".0":
                    g[(r + i) % R][(c + j - 1) % C] = int(ch)
    return g


def sheaths(g):
    """How many closed 8x8 rings of sheath cells (2) enclose an empty 4x4 interior: the loops."""
    R, C = len(g), len(g[0])
    found = 0
    for r in range(R):
        for c in range(C):
            ring = [(r + i, c + j) for i in range(6) for j in range(6) if i in (0, 5) or j in (0, 5)]
            inner = [(r + i, c + j) for i in range(1, 5) for j in range(1, 5)]
            if all(g[i % R][j % C] == 2 for i, j in ring) and all(g[i % R][j % C] == 0 for i, j in inner):
                found += 1
    return found


def run(case):
    R, C = case["dim"]
    ll = ntm.LangtonsLoop(dim=(R, C))
    check(dict(ll.rule_table) == FULL, "the transitions differ from Langton's: %r",
          sorted((set(ll.rule_table.items()) ^ set(FULL.items())))[:5])
    grid = grid_of(case)
    init = ll.init_loops(len(case["at"]), [r for r, _ in case["at"]], [c for _, c in case["at"]])
    eq([int(x) for x in init], [x for row in grid for x in row], "initial conditions of %r" % case)
    want, missing = history(grid, FULL, case["steps"])
    traj = ref.evolve(network=ll.network, initial_conditions=init, timesteps=len(want), activity_rule=ll.activity_rule)
    eq(len(traj), len(want), "number of states")
    for t, (s, g) in enumerate(zip(traj, want)):
        bad = [(i, j, s.activities[i * C + j], g[i][j]) for i in range(R) for j in range(C)
               if s.activities[i * C + j] != g[i][j]]
        check(not bad, "t=%d: (row, column, state, expected state) %r", t, bad[:8])
    if case["steps"] == 152:
        assert missing is None
        final = [[traj[-1].activities[i * C + j] for j in range(C)] for i in range(R)]
        eq(sheaths(final), 2, "number of loops after 151 timesteps")
    return len(want) >= 2, ["%d loops" % len(case["at"]), "replication" if case["steps"] == 152 else "short"]
