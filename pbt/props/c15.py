"""C15: 2D cellular automaton networks are tori with the named neighbourhoods."""
from .. import ref
from ..base import check, eq, raises
from ..ref import ntm

RULE = """A case is rows, columns (at least 2r+1), a radius and a neighbourhood type (Hex: radius 1, even rows >= 4);
the adjacency matrix, the network, and the neighbourhoods recorded by a rule during an evolution are compared with the
cells at the torus distance of the type (for Hex: the six cells at distance one in the plane of the shifted rows).
Unknown types and fewer than 9 cells must be errors. Non-trivial: rows and columns differ or r >= 2 or Hex."""
N = 1500
NOISE = "cmphu"
THOROUGH = 15
TYPES = ["Moore", "von Neumann", "Hex"]
EXPLICIT = [{"rows": a, "cols": b, "r": 1, "type": t, "ordered": True, "steps": 2}
            for a in (3, 4, 5, 6, 7) for b in (3, 4, 5, 6) for t in TYPES if t != "Hex" or (a % 2 == 0)]


def gen(d):
    if d.bool(0.04):
        return {"bad": d.choice(["type", "few"]), "rows": d.int(1, 2), "cols": d.int(1, 4),
                "type": d.choice(["moore", "hex", "VonNeumann", "Square", "", "Moore "])}
    t = d.choice(TYPES)
    r = 1 if t == "Hex" else d.weighted([(1, 30), (2, 30), (0, 10), (3, 20 if d.big else 0), (4, 3 if d.big else 0), (5, 2 if d.big else 0)])
    lo = max(2 * r + 1, 3)
    rows, cols = d.int(lo, lo + d.size(0, 3, 7)), d.int(lo, lo + d.size(0, 3, 7))
    if t == "Hex":
        rows += rows % 2
    return {"rows": rows, "cols": cols, "r": r, "type": t, "ordered": d.choice([True, True, None, False]), "steps": 2,
            "call": d.choice(["positional", "named", "shortest"]), "spoil": d.bool(0.1)}


def hex_place(i, j):
    """Twice the coordinates' half-cell units: odd-indexed rows are shifted by half a cell to the left."""
    return (2 * j - (i % 2), i)


def window(case, a, b):
    R, C, r = case["rows"], case["cols"], case["r"]
    cells = []
    for da in range(-r, r + 1):
        for db in range(-r, r + 1):
            if case["type"] == "Moore":
                ok = True
            elif case["type"] == "von Neumann":
                ok = abs(da) + abs(db) <= r
            else:
                (x0, y0), (x1, y1) = hex_place(a % 2, 0), hex_place((a % 2) + da, db)
                # neighbours in the plane: same row one cell apart, or adjacent rows half a cell apart
                ok = (da == 0 and abs(db) <= 1) or (abs(da) == 1 and abs(x1 - x0) == 1)
            if ok:
                cells.append(((a + da) % R) * C + (b + db) % C)
    return cells


def run(case):
    adj, top = ntm.topology.adjacency.cellular_automaton2d, ntm.topology.cellular_automaton2d
    if "bad" in case:
        if case["bad"] == "type":
            raises(lambda: adj(5, 5, 1, case["type"]), "the neighbourhood type %r" % case["type"])
            raises(lambda: top(5, 5, 1, case["type"]), "the neighbourhood type %r" % case["type"])
        else:
            for t in TYPES:
                raises(lambda: adj(case["rows"], case["cols"], 1, t), "%dx%d cells" % (case["rows"], case["cols"]))
                raises(lambda: top(case["rows"], case["cols"], 1, t), "%dx%d cells" % (case["rows"], case["cols"]))
        return False, ["bad"]
    R, C, r = case["rows"], case["cols"], case["r"]
    n = R * C
    what = "%dx%d, r=%d, %s" % (R, C, r, case["type"])
    win = {a * C + b: window(case, a, b) for a in range(R) for b in range(C)}
    for v, w in win.items():
        assert len(set(w)) == len(w) and v in w
    if case["type"] == "Hex":
        assert all(len(w) == 7 for w in win.values())
    call = case.get("call", "positional")
    args, named = (R, C, r, case["type"]), {}
    if call != "positional":
        args, named = (), {"rows": R, "cols": C, "r": r, "neighbourhood": case["type"]}
        if call == "shortest":      # without the arguments that have their defaults
            args = (named.pop("rows"), named.pop("cols"))
            for a, v in (("r", 1), ("neighbourhood", "Moore")):
                if named[a] == v:
                    del named[a]
    if case.get("spoil"):
        ref.spoil(adj(R, C, r, case["type"]))
        ref.spoil(top(R, C, r, case["type"], ordered=case["ordered"] is not False))
    M = adj(*args, **named, **({"boundary": "periodic"} if call == "named" else {}))
    got = {i: [j for j in range(n) if M[i][j] != 0] for i in range(n)}
    eq([len(row) for row in M], [n] * n, "shape of the matrix of " + what)
    eq(sorted({float(x) for row in M for x in row}), [0.0, 1.0] if n > (2 * r + 1) ** 2 or case["type"] != "Moore"
       else [1.0], "entries of the matrix of " + what)
    eq(got, {v: sorted(w) for v, w in win.items()}, "connections of " + what)
    kw = {} if case["ordered"] is None else {"ordered": case["ordered"]}
    if call == "named":
        kw["periodic"] = True
    net = top(*args, **named, **kw)
    em = ref.edge_map(net)
    eq(sorted(net.nodes), list(range(n)), "nodes of " + what)
    eq({k: len(x) for k, x in em.items()}, {(u, v): 1 for v, w in win.items() for u in w}, "edges of " + what)
    if case["ordered"] is False:
        check(net.rotation_system is None, "an unordered automaton has the rotation system %r", net.rotation_system)
    seen = []

    def rule(ctx):
        seen.append((ctx.node_label, list(ctx.neighbour_labels), list(ctx.neighbourhood_activities)))
        return ctx.current_activity
    ref.evolve(network=net, initial_conditions=[7 * i for i in range(n)], timesteps=2, activity_rule=rule)
    eq(sorted(v for v, _, _ in seen), list(range(n)), "applications of the rule")
    for v, labels, acts in seen:
        eq(sorted(labels), sorted(win[v]), "neighbours of cell %d in %s" % (v, what))
        eq(acts, [7 * u for u in labels], "activities of the neighbourhood of cell %d in %s" % (v, what))
        if case["ordered"] is not False:
            eq(labels[len(labels) // 2], v, "middle of the neighbourhood of cell %d in %s" % (v, what))
    return R != C or r >= 2 or case["type"] == "Hex", [case["type"], "r=%d" % r]
