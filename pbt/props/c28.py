"""C28: substitution systems."""
import itertools

from .. import ref
from ..base import Invalid, check, eq, fail, raises
from ..ref import ntm

RULE = """A case is an alphabet, a rule map with keys of length k = 1..5 (complete, or with missing windows; replacements of 0 to 4
symbols), constants (k = 1), an axiom as a string or a list of digits, and a number of timesteps; the strings of all
timesteps are compared with the rewriting done directly (until 400 symbols), as are padding, errors for missing windows
and for keys of different lengths. Non-trivial: at least two timesteps with different strings."""
N = 4000
NOISE = "c"


def gen(d):
    numbers = d.bool(0.3)
    na = d.int(1, 3)
    alphabet = d.choice(["012"[:na], "0123456789"[:na]]) if numbers else d.choice(["ABC"[:na], "F+-"[:na], "xyz"[:na]])
    k = d.weighted([(1, 6), (2, 6), (3, 2), (4, 2), (5, 1)])
    if k > 3:
        alphabet = alphabet[:2]
    const = "".join(d.subset(alphabet, 0.2)) if k == 1 else ""
    both = d.bool(0.3)      # constants may have a rule too, which does not count
    long = d.big and d.bool(0.15)
    keys = ["".join(w) for w in itertools.product(alphabet, repeat=k)]
    hole = d.bool(0.15)
    lens = d.choice([[0, 1, 2], [1, 1, 2], [2, 3], [0, 1], [1, 2, 4]])
    rules = {w: "".join(d.choice(alphabet) for _ in range(d.choice(lens))) for w in keys
             if not (w in const and not both or hole and d.bool(0.2))}
    if not rules and not const:
        rules = {keys[0]: keys[0]}
    return {"rules": {w: rules[w] for w in d.shuffle(rules)}, "const": list(const) if const or d.bool() else None,
            "axiom": [d.choice(alphabet) for _ in range(d.size(1, 6, 14) if not long else d.int(60, 130))],
            "steps": d.size(1, 5, 9) if not long else 40,
            "numbers": numbers, "list": d.bool(0.3), "k": k, "mixed": d.bool(0.05)}


def run(case):
    k, numbers = case["k"], case["numbers"]
    axiom = [int(c) for c in case["axiom"]] if numbers else (case["axiom"] if case["list"] else "".join(case["axiom"]))
    const = case["const"]

    def make():
        return ntm.SubstitutionSystem(axiom=axiom, rules=dict(case["rules"]), **({} if const is None else {"constants": list(const)}))
    if case["mixed"] and case["rules"]:
        bad = dict(case["rules"])
        bad["A" * (k + 1)] = "A"
        raises(lambda: ntm.SubstitutionSystem(axiom=axiom, rules=bad), "keys of different lengths, %r" % bad)
    if not case["rules"]:
        raise Invalid
    full = dict(case["rules"])
    full.update({c: c for c in const or []})
    strings, stuck = ["".join(case["axiom"])], False
    while len(strings) < case["steps"]:
        s = strings[-1]
        wins = [s[i:i + k] for i in range(len(s) - k + 1)]
        if any(w not in full for w in wins):
            stuck = True
            break
        new = "".join(full[w] for w in wins)
        if len(new) > 400:
            break
        strings.append(new)

    def evolve(steps):
        ss = make()
        return ss, ref.evolve(network=ss.network, initial_conditions=ss.initial_conditions, timesteps=steps,
                              activity_rule=ss.activity_rule)
    what = "rules %r, constants %r, axiom %r" % (case["rules"], const, axiom)
    if stuck:
        try:
            _, traj = evolve(len(strings) + 1)
        except Exception:
            pass
        else:
            fail("%s: no error for a window without a rule in %r, but %r", what, strings[-1], traj[-1].activities)
    ss, traj = evolve(len(strings))
    eq(len(traj), len(strings), what + ": number of states")
    for t, s in enumerate(traj):
        acts = [s.activities[v] for v in sorted(s.activities)]
        want = [int(c) for c in strings[t]] if numbers else list(strings[t])
        eq(acts, want, "%s: t=%d" % (what, t))
        check(all(type(a) is (int if numbers else str) for a in acts), "%s: activities %r", what, acts)
        eq(sorted(s.network.nodes), sorted(s.activities), "%s: nodes at t=%d" % (what, t))
    if not numbers:
        eq(ntm.SubstitutionSystem.to_string(traj), strings, what + ": to_string")
        eq(ss.to_string(traj), strings, what + ": to_string of the instance")
    padded = ntm.SubstitutionSystem.pad(traj)
    width = max(map(len, strings))
    eq(len(padded), len(strings), what + ": rows of pad")
    for t, row in enumerate(padded):
        want = list(strings[t]) + ["0"] * (width - len(strings[t]))
        got = [str(x) for x in row]
        got = ["0" if x in ("0.0", "0") else x[:-2] if x.endswith(".0") else x for x in got]
        eq(got, want, "%s: row %d of pad" % (what, t))
    return len(set(strings)) >= 2 and len(strings) > 1, ["k=%d" % k, "numbers" if numbers else "string",
                                                         "dies" if "" in strings else "lives", "stuck" if stuck else "ok"]
