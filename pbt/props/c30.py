"""C30: fungal growth."""
import math
import random

import numpy as np

from .. import ref
from ..base import check, close, eq, fail
from ..ref import ntm

RULE = """A case is a grid of 1x3 to 6x6 agents (also narrow ones), initial resources with some or all cells empty, an absorption
rate, a resource layer (given or default), a seed (often 0) and a length; every state's links are compared with the
lattice and with the previous state's, the weights with the number of outgoing links, and the resources with the flow
equation; in the explicit cases the frequency of growth over 600 runs with its probability (error below 1e-12); a second run with the same seed after disturbing the random state must be equal. Non-trivial: some link grows
and at least three timesteps."""
N = 1200
NOISE = "cmp"
THOROUGH = 15
EXPLICIT = [{"stat": k, "w": 4, "h": 4, "R": 1, "layer": None, "copy": None, "array": False, "steps": 5, "seed": None,
             "init": [0] * 5 + [1] + [0] * 10} for k in range(1, 9)]


def gen(d):
    w, h = d.weighted([((d.size(3, 4, 6), d.size(3, 4, 6)), 50), ((d.int(3, 12), d.int(3, 12)), 4 if d.big else 0), ((d.int(1, 3), d.int(3, 5)), 10), ((d.int(3, 5), d.int(1, 3)), 10)])
    n = w * h
    p = d.choice([0.1, 0.1, 0.3, 0.7, 0])
    init = [d.choice([1, 5.0, 80000.0, 0.25, 1e-5, 1e-9]) if d.bool(p) else 0 for _ in range(n)]
    if p and not any(init):
        init[d.int(0, n - 1)] = 1
    return {"w": w, "h": h, "init": init, "R": d.choice([1, 2.5, 80000.0, 0]), "seed": d.choice([0, 0, d.seed()]),
            "layer": d.choice([[d.int(0, 1) for _ in range(n)], [d.bool() for _ in range(n)]]) if d.bool(0.4) else None, "steps": d.size(2, 6, 20),
            "copy": d.choice([True, False, None]), "array": d.bool(0.3), "larr": d.bool(0.3)}


def evolve(case):
    init = np.array(case["init"], dtype=float) if case["array"] else list(case["init"])
    m = ntm.FungalGrowthModel(case["R"], case["w"], case["h"], init,
                              resource_layer=None if case["layer"] is None else (np.array if case.get("larr") else list)(case["layer"]),
                              seed=case["seed"], verbose=False)
    kw = {} if case["copy"] is None else {"copy_network": case["copy"] if case["copy"] else m.copy_network}
    return ref.evolve(network=m.network, initial_conditions=init, activity_rule=m.activity_rule,
                      topology_rule=m.topology_rule, update_order=m.update_order, timesteps=case["steps"], **kw)


def growth(case):
    """The frequencies of growth over many runs against 1/(4 - links) (and 1/2 for the direction between two holders)."""
    np.random.seed(case["stat"])
    tries, hits = {}, {}
    w, h = case["w"], case["h"]
    pairs = {tuple(sorted((v, u))) for v in range(w * h)
             for u in (v // w * w + (v + 1) % w, (v + w) % (w * h))}
    for _ in range(600):
        traj = evolve(case)
        for a, b in zip(traj, traj[1:]):
            old, new = {(i, j) for i, j, _ in a.network.edges}, {(i, j) for i, j, _ in b.network.edges}
            for i, j in pairs:
                if (i, j) in old or (j, i) in old:
                    continue
                x, y = a.activities[i] > 0, a.activities[j] > 0
                if x != y:
                    v = i if x else j
                    k = sum(1 for e in old if v in e)
                    hit = (i, j) in new or (j, i) in new
                elif x:
                    k, hit = "both", (i, j) in new
                else:
                    continue
                tries[k] = tries.get(k, 0) + 1
                hits[k] = hits.get(k, 0) + hit
    for k in tries:
        p = 0.5 if k == "both" else 1.0 / (4 - k)
        spread = (tries[k] * math.log(2e12) / 2) ** 0.5
        check(abs(hits[k] - p * tries[k]) <= spread, "%s of %s tries grew (or, between two holders, went one way), with %s links; "
              "the probability should be %.3f", hits[k], tries[k], k, p)
    return True, ["frequencies"]


def run(case):
    if "stat" in case:
        return growth(case)
    w, h = case["w"], case["h"]
    n = w * h
    traj = evolve(case)
    eq(len(traj), case["steps"], "number of states")
    pairs = set()
    for v in range(n):
        y, x = divmod(v, w)
        for u in (y * w + (x + 1) % w, ((y + 1) % h) * w + x):
            if u != v:
                pairs.add(frozenset((u, v)))
    layer = case["layer"] if case["layer"] is not None else [1 if x != 0 else 0 for x in case["init"]]
    acts = {v: case["init"][v] for v in range(n)}
    links = set()
    grown = False
    for t, s in enumerate(traj):
        eq(sorted(s.network.nodes), list(range(n)), "agents at t=%d" % t)
        em = ref.edge_map(s.network)
        now = set(em)
        for (i, j), es in em.items():
            check(frozenset((i, j)) in pairs, "t=%d: a link from %d to %d, not neighbours on the %dx%d grid", t, i, j, w, h)
            check(len(es) == 1 and (j, i) not in em, "t=%d: more than one link between %d and %d", t, i, j)
            close(es[0].get("weight"), 1.0 / sum(1 for a, _ in now if a == i), "t=%d: weight of the link from %d to %d" % (t, i, j))
        check(links <= now, "t=%d: removed links %r", t, sorted(links - now))
        if t == 0:
            eq(now, set(), "links at t=0")
            eq({v: float(x) for v, x in s.activities.items()}, {v: float(x) for v, x in acts.items()}, "resources at t=0")
            continue
        joined = {frozenset(e) for e in links}
        degree = {v: sum(1 for e in joined if v in e) for v in range(n)}
        for p in pairs - joined:
            i, j = sorted(p)
            linked = (i, j) in now or (j, i) in now
            if acts[i] > 0 and acts[j] > 0:
                check(linked, "t=%d: %d and %d both hold resource, but aren't linked", t, i, j)
            if not acts[i] > 0 and not acts[j] > 0:
                check(not linked, "t=%d: %d and %d, which hold no resource, got linked", t, i, j)
            for a, b in ((i, j), (j, i)):
                if acts[a] > 0 and not acts[b] > 0:
                    check((b, a) not in now, "t=%d: a link from %d, which holds no resource, to %d", t, b, a)
                    check(linked or degree[a] < 3, "t=%d: %d has three links and resource, but no link to %d", t, a, b)
        grown = grown or bool(now - links)
        out = {v: sum(1 for a, _ in now if a == v) for v in range(n)}
        for v in range(n):
            ins = [a for a, b in now if b == v]
            want = sum(acts[a] / out[a] for a in ins) if ins else acts[v]
            want += case["R"] * layer[v] * (1 if acts[v] > 0 else 0)
            close(s.activities[v], want, "t=%d: resource of %d" % (t, v))
        links, acts = now, dict(s.activities)
    np.random.seed(4711)
    random.seed(4711)
    np.random.rand(5)
    again = evolve(case)
    for t, (a, b) in enumerate(zip(traj, again)):
        eq(b.activities, a.activities, "same seed again: resources at t=%d" % t)
        eq(set(ref.edge_map(b.network)), set(ref.edge_map(a.network)), "same seed again: links at t=%d" % t)
    return grown and case["steps"] >= 3, ["layer" if case["layer"] else "default layer", "seed 0" if case["seed"] == 0 else "seed"]
