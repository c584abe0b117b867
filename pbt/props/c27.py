"""C27: Turing machines."""
from .. import ref
from ..base import check, eq, raises
from ..ref import ntm

RULE = """A case is a transition table over 1-4 head states and 1-4 symbols (numbers or strings; sometimes with missing transitions), a
tape of 3-20 cells, a head position, and a length or terminating state. Both machines are compared, at every timestep,
with a Turing machine on a ring simulated directly, up to the first missing transition, which must be an error in both.
Non-trivial: the head moves and at least 4 timesteps."""
N = 5000
SPIKE = 12
NOISE = "cmp"


def gen(d):
    ns, nk = d.int(1, 4), d.int(1, 4)
    hs = d.choice([list(range(ns)), ["q%d" % i for i in range(ns)], [i + 1 for i in range(ns)],
                   [10 ** 6 * i - 1000 for i in range(ns)], ["state number %d" % i for i in range(ns)], [("q", i) for i in range(ns)]])
    sy = d.choice([list(range(nk)), list("abcd"[:nk]), list(range(nk)), [100 * i - 100 for i in range(nk)], ["symbol %d" % i for i in range(nk)],
                   [(i, i) for i in range(nk)]])
    holes = d.bool(0.2)
    table = {h: {s: [d.choice(hs), d.choice(sy), d.choice([0, 2, 0, 2, 1])] for s in sy if not (holes and d.bool(0.15))}
             for h in hs}
    if holes and ns > 1 and d.bool(0.3):
        del table[hs[-1]]
    n = d.size(3, 7, 20)
    return {"table": table, "hs": hs, "tape": [d.choice(sy) for _ in range(n)], "head": d.choice(hs), "pos": d.choice([0, n - 1, d.int(0, n - 1)]),
            "max": d.size(1, 12, 60), "end": d.choice([None, None] + hs)}


def run(case):
    table, n = case["table"], len(case["tape"])
    L = case["max"]
    # tapes[t], heads[t]: the machine after t steps, without any halting
    tapes, heads, stuck = [list(case["tape"])], [(case["head"], case["pos"])], False
    for _ in range(L - 1):
        h, p = heads[-1]
        if h not in table or tapes[-1][p] not in table[h]:
            stuck = True
            break
        h2, s2, mv = table[h][tapes[-1][p]]
        new = list(tapes[-1])
        new[p] = s2
        tapes.append(new)
        heads.append((h2, (p + mv - 1) % n))
    T = ntm.TuringMachine
    eq((T.LEFT, T.STAY, T.RIGHT), (0, 1, 2), "moves")

    def marks(hd):
        return [[str(h) if i == p else None for i in range(n)] for h, p in hd]

    # tape-centric
    def tape_centric(steps):
        tm = ntm.TapeCentricTuringMachine(n=n, rule_table=table, initial_head_state=case["head"],
                                          initial_head_position=case["pos"])
        return tm, ref.evolve(network=tm.network, initial_conditions=list(case["tape"]), timesteps=steps,
                              activity_rule=tm.activity_rule)
    if stuck:
        raises(lambda: tape_centric(len(tapes) + 1), "the tape-centric machine without a transition at t=%d" % len(tapes))
    tm, traj = tape_centric(len(tapes))
    eq(len(traj), len(tapes), "tape-centric: number of states")
    for t, s in enumerate(traj):
        eq([s.activities[i] for i in range(n)], tapes[t], "tape-centric: tape at t=%d" % t)
    eq(tm.head_activities(traj), marks(heads), "tape-centric: head annotations")

    # head-centric
    def head_centric(end, mx):
        tm = ntm.HeadCentricTuringMachine(tape=list(case["tape"]), rule_table=table, initial_head_state=case["head"],
                                          initial_head_position=case["pos"], terminating_state=end, max_timesteps=mx)
        return tm, ref.evolve(network=tm.network, initial_conditions=tm.initial_conditions,
                              activity_rule=tm.activity_rule, input=tm.input_function)

    def compare(end, mx, k):
        what = "head-centric (terminating state %r, max_timesteps %r)" % (end, mx)
        tm, traj = head_centric(end, mx)
        eq([tuple(s.activities[0]) for s in traj], heads[:k], what + ": heads")
        check(all(len(s.activities) == 1 for s in traj), "%s: not a single node", what)
        th, ha = tm.activities_for_plotting(traj)
        eq([list(x) for x in th], tapes[:k], what + ": tapes")
        eq(ha, marks(heads[:k]), what + ": head annotations")

    end = case["end"] if case["end"] != case["head"] else None
    ends = [t for t in range(1, len(heads)) if end is not None and heads[t][0] == end]
    k = ends[0] + 1 if ends else len(heads)
    if stuck and not ends:
        raises(lambda: head_centric(end, L), "the head-centric machine without a transition at t=%d" % len(tapes))
        compare(end, len(tapes), len(tapes))
    else:
        compare(end, L, k)
        if ends:
            compare(end, None, k)
            compare(end, k, k)
            if k > 2:
                compare(end, k - 1, k - 1)
    raises(lambda: ntm.HeadCentricTuringMachine(tape=[0] * 3, rule_table={}, initial_head_state=0, initial_head_position=0),
           "a machine with neither terminating state nor maximum")
    return len(tapes) >= 4 and len({p for _, p in heads}) > 1, ["stuck" if stuck else "runs", "halts" if ends else "doesn't halt"]
