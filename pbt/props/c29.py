"""C29: the Wolfram Physics Model."""
import collections

from .. import ref
from ..base import Invalid, check, eq, fail
from ..ref import ntm

RULE = """A case is a configuration of 0-14 relations (now and then 80-600) of arity 1-4 (now and then up to 14; repeated nodes and relations), a rule with 1-4 relations on the left
and 0-4 on the right, and a number of steps. The configuration must survive the conversion to a network and back; each
step is accepted if a set of disjoint matches exists whose replacement (with distinct new integers per group) gives the
new configuration and that leaves no match among the relations that stayed: first the matches found greedily are tried,
then, exhaustively with a limit, all other sets. Non-trivial: something is rewritten and something else stays, or at
least two groups are rewritten."""
N = 5000
NOISE = "c"
LIMIT = 20000


def gen(d):
    if d.bool(0.008):    # many relations
        k = d.int(1, 3)
        n = d.int(80, 600) if not d.bool(0.15) else d.int(1001, 1100)
        ns = d.choice([2, n, 10 ** 4])
        return {"config": [tuple(d.int(1, ns) for _ in range(k if d.bool(0.9) else 4)) for _ in range(n)], "in": [("x", "y", "z")[:k]],
                "out": [("x", "y", "w")[:k], ("w", "x")][:d.int(1, 2)], "steps": 1, "tuples": True}
    ar = d.choice([[2], [2], [2], [1, 2], [2, 3], [3], [1, 2, 3, 4], [1]] + [[2, d.int(5, 14)]] * d.bool(0.1))
    nn = d.size(1, 5, 12)
    first = d.choice([0, 1, 1, 7, 95])
    nodes = list(range(first, first + nn)) if d.bool(0.7) else d.sample(range(0, 3 * nn + 20), nn)
    config = [tuple(d.choice(nodes) for _ in range(d.choice(ar))) for _ in range(d.size(0 if d.bool(0.1) else 1, 6, 14))]
    sym = ["x", "y", "z", "w", "v"] if d.bool(0.8) else [1, 2, 3, 4, 5]
    ns = d.int(1, 4)
    left = [tuple(sym[d.int(0, ns - 1)] for _ in range(d.choice(ar))) for _ in range(d.weighted([(1, 4), (2, 4), (3, 1)]))]
    if d.bool(0.12):    # a path, which has to be matched with backtracking
        ar = [2]
        left = list(zip(sym, sym[1:]))[:d.int(2, 4)]
        config = [tuple(d.choice(nodes) for _ in range(2)) for _ in range(d.size(3, 6, 9))]
        config = d.shuffle(config + [(a, b) for a, b in zip(nodes, nodes[1:])][:4])
    right = [tuple(sym[d.int(0, 4)] for _ in range(d.choice(ar + [2]))) for _ in range(d.weighted([(0, 1), (1, 3), (2, 4), (3, 2), (4, 1)]))]
    return {"config": config, "in": left, "out": right, "steps": d.int(1, 4), "tuples": d.bool(0.8)}


def bind(symbols, relation, b):
    """The extended binding, or None."""
    if len(symbols) != len(relation):
        return None
    b = dict(b)
    for s, x in zip(symbols, relation):
        if b.setdefault(s, x) != x:
            return None
    return b


def matches(left, config, avail, budget):
    """All (indices, binding) of matches among the available indices."""
    def go(k, used, b):
        if k == len(left):
            yield used, b
            return
        for i in avail:
            budget[0] -= 1
            if budget[0] < 0:
                raise Invalid
            if i not in used:
                b2 = bind(left[k], config[i], b)
                if b2 is not None:
                    yield from go(k + 1, used + (i,), b2)
    return go(0, (), {})


def greedy(case, config, last):
    avail = list(range(len(config)))
    groups = []
    while True:
        m = next(matches(case["in"], config, avail, [10 ** 7]), None)
        if m is None:
            break
        groups.append(m[1])
        avail = [i for i in avail if i not in m[0]]
    new = [config[i] for i in avail]
    for b in groups:
        for rel in case["out"]:
            row = []
            for s in rel:
                if s not in b:
                    last += 1
                    b[s] = last
                row.append(b[s])
            new.append(tuple(row))
    return new, len(groups), len(avail)


def explained(case, old, new):
    """(number of groups, number of relations that stayed) of some explanation of the step, or None."""
    budget = [LIMIT]
    oldnodes = {x for r in old for x in r}
    target = collections.Counter(new)

    def assign(outs, left, fresh):
        """Can the relations with new symbols be mapped onto `left`?"""
        budget[0] -= 1
        if budget[0] < 0:
            raise Invalid
        if not outs:
            return not left
        rel, b, key = outs[0]
        for cand in list(left):
            if len(cand) != len(rel):
                continue
            add, ok = {}, True
            for s, x in zip(rel, cand):
                want = b.get(s, fresh.get((key, s), add.get((key, s))))
                if want is None:
                    if x in oldnodes or x in fresh.values() or x in add.values():
                        ok = False
                        break
                    add[(key, s)] = x
                elif want != x:
                    ok = False
                    break
            if ok:
                rest = left.copy()
                rest[cand] -= 1
                rest += collections.Counter()
                if assign(outs[1:], rest, {**fresh, **add}):
                    return True
        return False

    def go(avail, lo, groups):
        budget[0] -= 1
        if budget[0] < 0:
            raise Invalid
        if next(matches(case["in"], old, avail, budget), None) is None:
            stay = collections.Counter(old[i] for i in avail)
            if not (stay - target):
                outs = [(rel, b, g) for g, b in enumerate(groups) for rel in case["out"]]
                if len(outs) == sum((target - stay).values()) and assign(outs, target - stay, {}):
                    return len(groups), len(avail)
        for idx, b in matches(case["in"], old, avail, budget):
            if min(idx) >= lo:
                r = go([i for i in avail if i not in idx], min(idx), groups + [b])
                if r:
                    return r
        return None
    return go(list(range(len(old))), 0, [])


def run(case):
    config = [tuple(r) for r in case["config"]]
    rules = {"in": list(case["in"]), "out": list(case["out"])}
    given = list(config)
    wpm = ntm.WolframPhysicsModel(given, rules)
    what = "rule %r -> %r" % (case["in"], case["out"])
    eq([tuple(r) for r in wpm.network_to_config(wpm.network)], config, "configuration %r as a network and back" % (config,))
    eq(sorted(wpm.network.nodes), sorted({x for r in config for x in r}), "nodes of the network of %r" % (config,))
    steps = 1
    size = len(config)
    while steps < case["steps"] + 1 and (size <= 40 or steps == 1):
        size = max(size, size * max(1, len(case["out"])) / max(1, len(case["in"])))
        steps += 1
    traj = ref.evolve(network=wpm.network, topology_rule=wpm.topology_rule, initial_conditions={}, timesteps=steps) \
        if not config else ref.evolve(network=wpm.network, topology_rule=wpm.topology_rule,
                                      initial_conditions=[1] * len(wpm.network.nodes), timesteps=steps)
    configs = wpm.to_configurations(traj)
    eq(len(configs), steps, "number of configurations")
    eq(configs[0], config, "first configuration")
    eq(given, config, "the given configuration afterwards")
    good = False
    undecided = False
    for t in range(1, steps):
        old, new = configs[t - 1], [tuple(r) for r in configs[t]]
        check(all(isinstance(x, int) for r in new for x in r), "%s: t=%d: nodes aren't integers: %r", what, t, new)
        last = max([x for r in old for x in r], default=0)
        want, groups, stay = greedy(case, old, last)
        if new != want:
            if len(case["in"]) == 1:     # every match is used
                must, k = collections.Counter(), 0
                for r in old:
                    b = bind(case["in"][0], r, {})
                    if b is None:
                        must[r] += 1
                    else:
                        k += 1
                        must.update(tuple(b[s] for s in rel) for rel in case["out"] if all(s in b for s in rel))
                lost = must - collections.Counter(new)
                if lost or len(new) != len(old) + k * (len(case["out"]) - 1):
                    fail("%s: the step from %r to %r does not rewrite all the %d matches (missing: %r)", what, old, new, k, dict(lost))
            try:
                got = explained(case, old, new)
            except Invalid:
                undecided = True
                continue
            if got is None:
                fail("%s: the step from %r to %r rewrites no maximal set of matches (for example, %r does)",
                     what, old, new, want)
            groups, stay = got
        good = good or groups >= 2 or (groups and stay)
    if undecided:
        raise Invalid
    return bool(good), ["arity %s" % "/".join(map(str, sorted({len(r) for r in config}))), "%d -> %d" % (len(case["in"]), len(case["out"]))]
