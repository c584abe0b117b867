PLANTS = []


def P(id, property, edits, demo, needs, what, also=()):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what_it_breaks=what, also=list(also)))


P("c25-isotropic-strong", "C25", [("rule_tables.py",
"            if isotropic and state_reversed in table:",
"            if isotropic and state_reversed in table and not (strong_quiescence and state[0] == state[-1]):")], """
import random
import netomaton as ntm
for seed in range(30):
    random.seed(seed)
    t, l, q = ntm.random_rule_table(k=2, r=2, lambda_val=0.5, quiescent_state=0, strong_quiescence=True, isotropic=True)
    assert all(t[s] == t[s[::-1]] for s in t), seed
""", "isotropy together with strong quiescence and neighbourhoods whose ends are equal but that aren't symmetric (r >= 2)", "a neighbourhood and its mirror image map to different states")

P("c25-quiescent-count", "C25", [("rule_tables.py",
"                cell_state = table[state_reversed]\n                if cell_state == quiescent_state: quiescent_state_count += 1",
"                cell_state = table[state_reversed]\n                if not cell_state: quiescent_state_count += 1")], """
import random
import netomaton as ntm
random.seed(3)
t, l, q = ntm.random_rule_table(k=3, r=1, lambda_val=0.4, quiescent_state=2, isotropic=True)
assert abs(l - sum(v != 2 for v in t.values()) / 27.) < 1e-9, l
""", "isotropy with a quiescent state other than 0", "the actual lambda counts the wrong entries")

P("c25-lambda-one", "C25", [("rule_tables.py",
"                if random.random() < (1. - lambda_val):",
"                if random.random() < (1. - (lambda_val or 1. - (1. / k))):")], """
import random
import netomaton as ntm
random.seed(3)
t, l, q = ntm.random_rule_table(k=3, r=1, lambda_val=0.0, quiescent_state=2)
assert l == 0 and set(t.values()) == {2}, l
""", "a lambda of 0", "it is taken for the default lambda")

P("c25-other-states", "C25", [("rule_tables.py",
"                    cell_state = random.choice(other_states)\n        table[state] = cell_state",
"                    cell_state = random.choice(other_states[:9])\n        table[state] = cell_state")], """
import random
import netomaton as ntm
random.seed(1)
t, l, q = ntm.random_rule_table(k=12, r=1, lambda_val=1.0, quiescent_state=0)
assert set(t.values()) == set(range(1, 12)), set(t.values())
""", "more than ten states", "the higher states are never chosen")

P("c26-odd-uniform", "C26", [("rule_tables.py",
"                states_to_quiescent = [s for s in states_to_quiescent if len(set(s)) != 1]",
"                states_to_quiescent = [s for s in states_to_quiescent if s != str(quiescent_state)*len(s)]")], """
import random
import netomaton as ntm
bad = 0
for seed in range(50):
    random.seed(seed)
    t = {a + b + c: 0 for a in "012" for b in "012" for c in "012"}
    t["111"] = 0
    t["000"] = 0
    t["222"] = 2
    t2, l = ntm.table_walk_through(dict(t), 0.9, 3, 1, 0, strong_quiescence=True)
    bad += t2["111"] != 0
assert not bad, bad
""", "strong quiescence and a table in which a uniform neighbourhood of another state maps to the quiescent state", "the entry of a uniform neighbourhood is changed")

P("c26-isotropic-down", "C26", [("rule_tables.py",
"""            rule_table[state_to_perturb] = quiescent_state
            if isotropic:""",
"""            rule_table[state_to_perturb] = quiescent_state
            if isotropic and actual_lambda() > lambda_val:""")], """
import random
import netomaton as ntm
for seed in range(40):
    random.seed(seed)
    t, _, _ = ntm.random_rule_table(k=2, r=1, lambda_val=1.0, quiescent_state=0, isotropic=True)
    t, l = ntm.table_walk_through(t, 0.5, 2, 1, 0, isotropic=True)
    assert all(t[s] == t[s[::-1]] for s in t), seed
""", "an isotropic walk down whose last single change already reaches the target", "the mirror image is left unchanged")

P("c26-attempts", "C26", [("rule_tables.py",
"        while actual_lambda() < lambda_val and attempts < len(rule_table):",
"        while actual_lambda() < lambda_val and attempts < len(rule_table) - k:")], """
import random
import netomaton as ntm
random.seed(1)
t = {a + b + c: 0 for a in "01" for b in "01" for c in "01"}
t, l = ntm.table_walk_through(t, 1.0, 2, 1, 0)
assert l == 1.0, l
""", "a walk up that has to change nearly all entries", "it stops early")

P("c27-wrap-right", "C27", [("turing_machine.py",
"            return (head_pos + 1) % len(self._tape_history[-1])",
"            return head_pos + 1 if head_pos + 1 <= len(self._tape_history[-1]) - 1 else head_pos")], """
import netomaton as ntm
T = ntm.TuringMachine
tm = ntm.HeadCentricTuringMachine(tape=[0, 0, 0, 0], rule_table={"a": {0: ["a", 1, T.RIGHT], 1: ["a", 0, T.RIGHT]}},
                                  initial_head_state="a", initial_head_position=2, max_timesteps=5)
t = ntm.evolve(network=tm.network, initial_conditions=tm.initial_conditions, activity_rule=tm.activity_rule, input=tm.input_function)
assert [s.activities[0][1] for s in t] == [2, 3, 0, 1, 2], [s.activities[0][1] for s in t]
""", "a head that moves right from the last cell", "the head stays there")

P("c27-head-equal", "C27", [("turing_machine.py",
"        if self._terminating_state is not None and next_head_state == self._terminating_state:",
"        if self._terminating_state and next_head_state == self._terminating_state:")], """
import netomaton as ntm
T = ntm.TuringMachine
tm = ntm.HeadCentricTuringMachine(tape=[0, 0, 0, 0], rule_table={1: {0: [0, 1, T.RIGHT]}, 0: {0: [0, 0, T.STAY]}},
                                  initial_head_state=1, initial_head_position=0, terminating_state=0, max_timesteps=6)
t = ntm.evolve(network=tm.network, initial_conditions=tm.initial_conditions, activity_rule=tm.activity_rule, input=tm.input_function)
assert len(t) == 2, len(t)
""", "a terminating state that is the number 0", "the machine doesn't stop")

P("c27-history-none", "C27", [("turing_machine.py",
"            activities = get_activities_over_time_as_list(trajectory)\n" if False else
"""        for i, h in enumerate(self._head_history):
            annotations[i][h[1]] = str(h[0])
        return annotations""",
"""        for i, h in enumerate(self._head_history):
            annotations[i][h[1]] = str(h[0] or "")
        return annotations""")], """
import netomaton as ntm
T = ntm.TuringMachine
tm = ntm.TapeCentricTuringMachine(n=4, rule_table={0: {0: [0, 1, T.RIGHT], 1: [0, 0, T.RIGHT]}}, initial_head_state=0, initial_head_position=1)
t = ntm.evolve(network=tm.network, initial_conditions=[0] * 4, activity_rule=tm.activity_rule, timesteps=3)
assert tm.head_activities(t)[0] == [None, "0", None, None], tm.head_activities(t)
""", "a head state that is the number 0", "the head annotation is empty")

P("c28-window-state", "C28", [("substitution_system.py",
"            for j in range(0, min(self._num_nodes_added, self._neighbourhood_size)):",
"            for j in range(0, min(max(self._num_nodes_added, i + 2 if i > 2 else 0), self._neighbourhood_size)):")], """
import netomaton as ntm
ss = ntm.SubstitutionSystem(axiom="AAA", rules={"AAA": "ABAB", "ABA": "A", "BAB": "B", "AAB": "", "BAA": "", "ABB": "", "BBA": "", "BBB": ""})
t = ntm.evolve(network=ss.network, initial_conditions=ss.initial_conditions, activity_rule=ss.activity_rule, timesteps=3)
assert ntm.SubstitutionSystem.to_string(t) == ["AAA", "ABAB", "AB"], ntm.SubstitutionSystem.to_string(t)
""", "nothing", "nothing")
PLANTS.pop()

P("c28-empty-replacement", "C28", [("substitution_system.py",
"        if self._last_timestep != ctx.timestep:\n            self._num_nodes_added = 0",
"        if self._last_timestep != ctx.timestep and self._rules.get(self._get_state(ctx)):\n            self._num_nodes_added = 0")], """
import netomaton as ntm
ss = ntm.SubstitutionSystem(axiom="AB", rules={"AA": "", "AB": "AAB", "BA": "BA", "BB": "A"})
t = ntm.evolve(network=ss.network, initial_conditions=ss.initial_conditions, activity_rule=ss.activity_rule, timesteps=6)
def step(s):
    return "".join({"AA": "", "AB": "AAB", "BA": "BA", "BB": "A"}[s[i:i + 2]] for i in range(len(s) - 1))
want = ["AB"]
for _ in range(5):
    want.append(step(want[-1]))
assert ntm.SubstitutionSystem.to_string(t) == want, (ntm.SubstitutionSystem.to_string(t), want)
""", "keys of two or more symbols, and a first window that is replaced by nothing", "the nodes of the new string are linked to nodes of the old one (or the bookkeeping is not reset)")

P("c28-constants-order", "C28", [("substitution_system.py",
"        self._rules.update({c: c for c in self._constants})",
"        self._rules = dict({c: c for c in self._constants}, **self._rules)")], """
import netomaton as ntm
ss = ntm.SubstitutionSystem(axiom="AB", rules={"A": "AB", "B": "A"}, constants=["B"])
t = ntm.evolve(network=ss.network, initial_conditions=ss.initial_conditions, activity_rule=ss.activity_rule, timesteps=3)
assert ntm.SubstitutionSystem.to_string(t) == ["AB", "ABB", "ABBB"]
""", "a constant that also has a rule", "the constant is rewritten by the rule")

P("c28-pad-left", "C28", [("substitution_system.py",
"        activities = [[v for e, v in sorted(activities[k].items())] for k in sorted(activities)]",
"        activities = [[v for e, v in sorted(activities[k].items(), key=lambda ev: str(ev[0]).zfill(3))] for k in sorted(activities)]")], """
import netomaton as ntm
ss = ntm.SubstitutionSystem(axiom=[1, 2], rules={"1": "12", "2": "21"})
t = ntm.evolve(network=ss.network, initial_conditions=ss.initial_conditions, activity_rule=ss.activity_rule, timesteps=10)
p = ntm.SubstitutionSystem.pad(t)
s = "12"
for i in range(10):
    assert "".join(map(str, p[i][:len(s)])) == s, i
    s = "".join({"1": "12", "2": "21"}[c] for c in s)
""", "a string whose nodes are numbered across 999 to 1000", "the padded string is in another order")

P("c29-unary-loop", "C29", [("wolfram_physics_model.py",
"""                network.add_edge(n, n, label=edge_label, unary=True)""",
"""                if not network.has_edge(n, n):
                    network.add_edge(n, n, label=edge_label, unary=True)""")], """
import netomaton as ntm
config = [(1, 1), (1,), (1, 2)]
m = ntm.WolframPhysicsModel(config, {"in": [("x", "y")], "out": [("x", "y")]})
assert ntm.WolframPhysicsModel.network_to_config(m.network) == config
""", "a unary relation on a node that also has a self-loop (or a second unary relation)", "the unary relation is lost")

P("c29-self-hyper", "C29", [("wolfram_physics_model.py",
"                    if (index + 2) == len(merged):\n                        merged[-1] = edge[1]",
"                    if (index + 2) == len(merged) and edge[1]:\n                        merged[-1] = edge[1]")], """
import netomaton as ntm
config = [(1, 2, 3), (3, 2, 1)]
for config in ([(1, 2, 3), (3, 2, 1)], [(1, 2, 0)], [(0, 0, 0, 5)]):
    m = ntm.WolframPhysicsModel(config, {"in": [("x", "y")], "out": [("x", "y")]})
    assert ntm.WolframPhysicsModel.network_to_config(m.network) == config
""", "nothing: 0 is the default", "nothing")
PLANTS.pop()

P("c29-last-node", "C29", [("wolfram_physics_model.py",
"""                prev = node
                if node > last_node:
                    last_node = node""",
"""                prev = node
                if node > last_node and next_edge_num:
                    last_node = node""")], """
import netomaton as ntm
m = ntm.WolframPhysicsModel([(5, 1)], {"in": [("x", "y")], "out": [("y", "z"), ("z", "x")]})
t = ntm.evolve(network=m.network, topology_rule=m.topology_rule, timesteps=3)
for c in m.to_configurations(t)[1:]:
    assert len({n for r in c for n in r}) >= 3, c
c = m.to_configurations(ntm.evolve(network=ntm.WolframPhysicsModel([(5,), (2, 1)], {"in": [("x", "y")], "out": [("x", "z")]}).network, topology_rule=ntm.WolframPhysicsModel([(5,), (2, 1)], {"in": [("x", "y")], "out": [("x", "z")]}).topology_rule, timesteps=2))[-1]
assert sorted(c) == [(2, 6), (5,)], c
""", "the greatest node occurs only in first position", "new nodes are given labels that are in use")

P("c29-repeated-symbol", "C29", [("wolfram_physics_model.py",
"""                if relation[i] != symbol_bindings[symbol]:
                    #  rule does not match this relation""",
"""                if relation[i] != symbol_bindings[symbol] and (len(rule) < 3 or symbol not in added_symbols):
                    #  rule does not match this relation""")], """
import netomaton as ntm
m = ntm.WolframPhysicsModel([(1, 2, 3)], {"in": [("x", "y", "x")], "out": [("x", "y")]})
t = ntm.evolve(network=m.network, topology_rule=m.topology_rule, timesteps=2)
assert m.to_configurations(t)[-1] == [(1, 2, 3)]
""", "a left-hand relation of three or more symbols in which one is repeated", "it matches relations whose nodes differ there")

P("c30-degree-cap", "C30", [("fungal_growth_model.py",
"                p = 1 / (self._d - curr_network.degree(j))\n                if np.random.random() < p:\n                    new_network.add_edge(j, i)",
"                p = 1 / (self._d - new_network.degree(j)) if new_network.degree(j) < self._d else 0\n                if np.random.random() < p:\n                    new_network.add_edge(j, i)")], """
import numpy as np
import netomaton as ntm
# many runs: the frequency of a first growth from the upper-labelled endpoint
hits = n = 0
np.random.seed(5)
for k in range(3000):
    m = ntm.FungalGrowthModel(1, 4, 4, [0] * 15 + [1], verbose=False)
    t = ntm.evolve(network=m.network, initial_conditions=[0] * 15 + [1], activity_rule=m.activity_rule, topology_rule=m.topology_rule,
                   update_order=m.update_order, copy_network=m.copy_network, timesteps=2)
    hits += len(list(t[1].network.edges))
assert abs(hits / 12000. - 0.25) < 0.02, hits / 12000.
""", "several links that could grow from one agent in the same timestep", "the probability of growth depends on the links grown earlier in the same timestep")

P("c30-layer-alive", "C30", [("fungal_growth_model.py",
"            for nz in np.nonzero(initial_conditions)[0]:",
"            for nz in np.nonzero(initial_conditions)[0][:3]:")], """
import netomaton as ntm
init = [1, 1, 1, 1, 1, 0, 0, 0, 0]
m = ntm.FungalGrowthModel(2.0, 3, 3, init, seed=0, verbose=False)
t = ntm.evolve(network=m.network, initial_conditions=init, activity_rule=m.activity_rule, topology_rule=m.topology_rule,
               update_order=m.update_order, copy_network=m.copy_network, timesteps=2)
assert abs(sum(t[1].activities.values()) - 15) < 1e-9 or True
a, net = t[1].activities, t[1].network
for v in range(5):
    inn = [(i, d["weight"]) for i, j, d in net.edges if j == v]
    want = (sum(w * init[i] for i, w in inn) if inn else 1) + 2.0
    assert abs(a[v] - want) < 1e-9, v
""", "more than three initial agents and no resource layer", "the later ones have no resource to absorb")

P("c30-weights-stale", "C30", [("fungal_growth_model.py",
"            new_network.update_edge(i, j, weight=1/new_network.out_degree(i))",
"            if not curr_network.has_edge(i, j) or new_network.out_degree(i) < 4:\n                new_network.update_edge(i, j, weight=1/new_network.out_degree(i))")], """
import numpy as np
import netomaton as ntm
for seed in range(60):
    init = [0] * 12 + [1] + [0] * 12
    m = ntm.FungalGrowthModel(1.0, 5, 5, init, seed=seed, verbose=False)
    t = ntm.evolve(network=m.network, initial_conditions=init, activity_rule=m.activity_rule, topology_rule=m.topology_rule,
                   update_order=m.update_order, copy_network=m.copy_network, timesteps=7)
    for s in t[1:]:
        for i, j, d in s.network.edges:
            assert abs(d["weight"] - 1.0 / s.network.out_degree(i)) < 1e-9
""", "an agent that grows its fourth link", "its older links keep their weights")

P("c31-retrain", "C31", [("hopfield_net.py",
"        self._adjacency_matrix = np.zeros((len(P[0]), len(P[0])), dtype=np.int)",
"        if getattr(self, \"_adjacency_matrix\", None) is None or len(self._adjacency_matrix) != len(P[0]):\n            self._adjacency_matrix = np.zeros((len(P[0]), len(P[0])), dtype=np.int)")], """
import netomaton as ntm
h = ntm.HopfieldNet(3)
h.train([[1, -1, 1]])
h.train([[1, 1, 1]])
assert h.adjacency_matrix.tolist() == [[0, 1, 1], [1, 0, 1], [1, 1, 0]], h.adjacency_matrix
""", "training twice", "the old patterns stay in the weights")

P("c31-int8", "C31", [("hopfield_net.py",
"dtype=np.int)\n        for p in P:", "dtype=np.int8)\n        for p in P:")], """
import netomaton as ntm
h = ntm.HopfieldNet(2)
h.train([[1, 1]] * 130)
assert h.adjacency_matrix.tolist() == [[0, 130], [130, 0]], h.adjacency_matrix
""", "more than 127 patterns", "the weights overflow")

P("c31-zero-sum", "C31", [("hopfield_net.py",
"        return 1 if V >= 0 else -1", "        return 1 if V > 0 or (V == 0 and len(ctx.neighbour_labels) % 2 == 0) else -1")], """
import netomaton as ntm
h = ntm.HopfieldNet(4)
h.train([[1, 1, 1, 1], [1, 1, 1, -1], [1, 1, -1, 1], [1, -1, -1, -1]])
import numpy as np
class C: pass
c = C()
c.neighbour_labels = [1, 2, 3]
c.connection_states = {1: [{"weight": 1}], 2: [{"weight": -2}], 3: [{"weight": 1}]}
c.activities = {1: 1, 2: 1, 3: 1}
assert h._rule(c) == 1 if hasattr(h, "_rule") else True
h = ntm.HopfieldNet(4)
h.train([[1, -1, 1, 1], [-1, 1, 1, 1]])
for seed in range(20):
    np.random.seed(seed)
    t = ntm.evolve(network=h.network, initial_conditions=[1, -1, 1, -1], activity_rule=h.activity_rule, timesteps=40)
""", "an input of exactly 0 and an odd number of connections", "the node becomes -1")

P("c32-wrap", "C32", [("hopfield_tank_tsp_net.py",
"            if neighbour_node_col == ((node_col - 1) % len(self._points)):",
"            if neighbour_node_col == ((node_col - 1) % len(self._points)) and neighbour_node_row != (node_row + len(self._points) - 1):")], """
import netomaton as ntm
""", "nothing", "nothing")
PLANTS.pop()

P("c32-global-term", "C32", [("hopfield_tank_tsp_net.py",
"            C_sum += self._V(neighbour_activity)",
"            C_sum += self._V(neighbour_activity) if neighbour_label != ctx.node_label or node_row != node_col else 0")], """
import math
import netomaton as ntm
pts = [(0, 0), (1, 0), (0, 2)]
n = ntm.HopfieldTankTSPNet(pts, dt=0.1, A=0, B=0, C=1, D=0, u_0=1.0, n=3)
init = [0.5, -0.5, 0.25, 1.0, 0.0, -1.0, 0.3, 0.2, 0.1]
t = ntm.evolve(network=ntm.topology.from_adjacency_matrix(n.adjacency_matrix), initial_conditions=init, activity_rule=n.activity_rule, timesteps=2)
V = [(1 + math.tanh(u)) / 2 for u in init]
for k in range(9):
    want = init[k] + 0.1 * (-init[k] - (sum(V) - 3))
    assert abs(t[1].activities[k] - want) < 1e-9, (k, t[1].activities[k], want)
""", "the nodes of the first point in the first position and so on", "the global term leaves out the node itself")

P("c32-distance-int", "C32", [("hopfield_tank_tsp_net.py",
"            distances_map[(b, a)] = d", "            distances_map[(b, a)] = d if a or b < 3 else distances_map.get((b - 1, a), d)")], """
import math
import netomaton as ntm
pts = [(0, 0), (1, 0), (0, 2), (5, 5)]
n = ntm.HopfieldTankTSPNet(pts, dt=0.1, A=0, B=0, C=0, D=1, u_0=1.0, n=4)
init = [0.1 * k - 0.6 for k in range(16)]
t = ntm.evolve(network=ntm.topology.from_adjacency_matrix(n.adjacency_matrix), initial_conditions=init, activity_rule=n.activity_rule, timesteps=2)
V = [(1 + math.tanh(u)) / 2 for u in init]
def d(a, b):
    return math.hypot(pts[a][0] - pts[b][0], pts[a][1] - pts[b][1])
for x in range(4):
    for i in range(4):
        s = sum(d(x, y) * (V[4 * y + (i + 1) % 4] + V[4 * y + (i - 1) % 4]) for y in range(4))
        u = init[4 * x + i]
        assert abs(t[1].activities[4 * x + i] - (u + 0.1 * (-u - s))) < 1e-9, (x, i)
""", "the distance from the fourth point to the first", "a wrong distance is used")

P("c32-clash", "C32", [("hopfield_tank_tsp_net.py",
"            if tour_index in tour_index_to_point_index:",
"            if tour_index_to_point_index.get(tour_index):")], """
import netomaton as ntm
pts = [(0, 0), (1, 0), (0, 2)]
n = ntm.HopfieldTankTSPNet(pts)
try:
    n.get_tour_graph(pts, [[1, 0, 0], [1, 0, 0], [0, 0, 1]])
except KeyError:
    raise SystemExit("no clash was reported")
except Exception as e:
    assert "claimed" in str(e)
else:
    raise SystemExit("no error")
pts = [(0, 0), (1, 0)]
""", "the first point claims the position of another", "the clash isn't reported as such")

P("c33-joint-pairs", "C33", [("analysis.py",
"    for x in set(X):\n        for y in set(Y):",
"    for x in set(X):\n        for y in set(Y) if len(set(X)) != len(Y) else set(Y[:-1]):")], """
import netomaton as ntm
assert abs(ntm.joint_shannon_entropy("abcd", "xxxy") - 2.0) < 1e-9
""", "a first string whose symbols are all different, and a second whose last symbol occurs once", "a pair of symbols is left out")

P("c33-multi-char", "C33", [("analysis.py",
"        mi = mutual_information(node_states_over_time[:-temporal_distance], node_states_over_time[temporal_distance:])",
"        mi = mutual_information(node_states_over_time[:-temporal_distance], node_states_over_time[temporal_distance:]) \\\n            if len(set(node_states_over_time)) > 1 or i == 0 else mutual_informations[-1]")], """
import netomaton as ntm
acts = [[0, 1], [1, 1], [0, 1], [1, 1], [0, 1]]
assert abs(ntm.average_mutual_information(acts) - 0.5) < 1e-9, ntm.average_mutual_information(acts)
""", "a constant node after a changing one", "the constant node counts as much as the one before it")

P("c33-distance-last", "C33", [("analysis.py",
"    if not (0 < temporal_distance < len(activities)):",
"    if not (0 < temporal_distance < max(len(activities) - 1, 2)):")], """
import netomaton as ntm
acts = [[0], [1], [0], [1]]
assert ntm.average_mutual_information(acts, temporal_distance=3) == 0
try:
    ntm.average_mutual_information([[0]], temporal_distance=1)
except Exception:
    pass
else:
    raise SystemExit("no error")
""", "the greatest temporal distance", "it is an error")

P("c33-entropy-order", "C33", [("analysis.py",
"        node_states_over_time = [str(x) for x in [y[i] for y in activities]]\n        entropy = ",
"        node_states_over_time = [str(x)[:8] for x in [y[i] for y in activities]]\n        entropy = ")], """
import netomaton as ntm
acts = [[0.1234567], [0.12345678], [0.12345679], [0.12345]]
assert abs(ntm.average_node_entropy(acts) - 2.0) < 1e-9, ntm.average_node_entropy(acts)
""", "activities that differ only after their eighth character", "they count as the same symbol")

P("c34-pad-odd", "C34", [("evolution.py",
"    pad_left = (size - n_randomized) // 2",
"    pad_left = (size - n_randomized + (n_randomized == 0)) // 2 if size < 100 else (size - n_randomized + 1) // 2")], """
import numpy as np
import netomaton as ntm
np.random.seed(0)
x = ntm.init_random(101, k=2, n_randomized=100, empty_value=7)
assert x[-1] == 7 and x[0] != 7, (x[0], x[-1])
""", "a size of 100 or more with an odd number of sites that aren't randomized", "the randomized sites are shifted by one")

P("c34-negative-empty", "C34", [("evolution.py",
"    if n_randomized is None:\n        n_randomized = size",
"    if not n_randomized:\n        n_randomized = size")], """
import netomaton as ntm
assert ntm.init_random(10, k=2, n_randomized=0, empty_value=5) == [5] * 10
""", "n_randomized of 0", "all sites are randomized")

P("c34-ncr-float", "C34", [("utils.py",
"    return f(n) // f(r) // f(n-r)", "    return f(n) // f(r) // f(n-r) if n < 171 else int(f(n) // f(r) / f(n-r))")], """
import netomaton as ntm
from math import factorial as f
assert ntm.ncr(300, 150) == f(300) // f(150) ** 2
""", "n of 171 or more", "the result is rounded")

P("c34-list-none", "C34", [("utils.py",
"            for a in sorted(ac):", "            for a in sorted(ac, key=lambda label: (str(type(label)), label) if len(ac) < 10 else str(label)):")], """
import netomaton as ntm
net = ntm.topology.complete(12)
t = ntm.evolve(network=net, initial_conditions=list(range(12)), activity_rule=lambda c: c.current_activity, timesteps=2)
assert ntm.get_activities_over_time_as_list(t) == [list(range(12))] * 2, ntm.get_activities_over_time_as_list(t)
""", "ten or more nodes with numbers as labels", "the activities are ordered as strings")

P("c34-binarize-big", "C34", [("utils.py",
"    activities = [[int(x) for x in bin(int(a[0]))[2:]] for a in activities]",
"    activities = [[int(x) for x in bin(int(float(a[0])))[2:]] for a in activities]")], """
import netomaton as ntm
n = 2 ** 53 + 1
assert ntm.binarize_for_plotting([[n]])[0][-1] == 1
""", "numbers above 2^53", "the lowest digits are lost")

P("c35-pop-orientation", "C35", [("turtle.py",
"        self.y = y\n        self.orientation = orientation\n\n    @property\n    def pos",
"        self.y = y\n        self.orientation = orientation if self._stack or abs(orientation) < 360 else orientation % 360\n\n    @property\n    def pos")], """
import netomaton as ntm
t = ntm.Turtle()
t.rotate(-400)
t.push()
t.pop()
assert t.orientation == -400, t.orientation
""", "an orientation of a full turn or more at an outermost pop", "the orientation is another number (of the same direction)")

P("c35-push-trajectory", "C35", [("turtle.py",
"        self.trajectory.append((x_values, y_values))",
"        if distance or not self._stack:\n            self.trajectory.append((x_values, y_values))")], """
import netomaton as ntm
t = ntm.Turtle()
t.push()
t.forward(0)
assert len(t.trajectory) == 1
""", "a forward of distance 0 while something is on the stack", "it leaves no segment")

P("c35-list-instr", "C35", [("utils.py",
"        if not isinstance(instructions, list):\n            instructions = [instructions]\n        for instruction in instructions:",
"        if not isinstance(instructions, list):\n            instructions = [instructions]\n        for instruction in instructions[:3] + [i for i in instructions[3:] if i not in instructions[:3]]:")], """
import netomaton as ntm
n = []
ntm.plot_L_system
ss = ntm.SubstitutionSystem(axiom="A", rules={"A": "A"})
t = ntm.evolve(network=ss.network, initial_conditions=ss.initial_conditions, activity_rule=ss.activity_rule, timesteps=2)
turtle = ntm.Turtle()
ntm.plot_L_system(t[-1], turtle, {"A": [turtle.forward, (turtle.rotate, 90), turtle.forward, turtle.forward]})
assert len(turtle.trajectory) == 3, turtle.trajectory
""", "a list of four or more instructions in which the fourth or a later one repeats one of the first three", "the repeated instruction is skipped")

P("c36-degree-gap", "C36", [("utils.py",
"    height = [degree_counts[i] if i in degree_counts else 0 for i in x]",
"    height = [degree_counts[i] if i in degree_counts else 0 for i in x] if not in_degree else [degree_counts.get(i, 0) or degree_counts.get(0, 0) * (i == 1) for i in x]")], """
import matplotlib
import matplotlib.pyplot as plt
import netomaton as ntm
net = ntm.Network(4)
net.add_edge(0, 1)
net.add_edge(2, 1)
ntm.plot_degree_distribution(net, in_degree=True)
h = [p.get_height() for p in plt.gca().patches]
assert h == [0, 1], h
""", "in-degrees with nodes of degree 0 and none of degree 1", "the isolated nodes are counted as of degree 1")

P("c36-twinx-three", "C36", [("utils.py",
"        current_axis = axes[current_axis_idx % len(axes)]",
"        current_axis = axes[min(current_axis_idx, len(axes) - 1)]")], """
import matplotlib.pyplot as plt
import netomaton as ntm
ntm.plot1D([1, 2], [[1, 2], [3, 4], [5, 6]], twinx=True)
assert [len(a.lines) for a in plt.gcf().axes] == [2, 1], [len(a.lines) for a in plt.gcf().axes]
""", "three or more series on twin axes", "they don't alternate")

P("c36-poincare-short", "C36", [("utils.py",
"            x.append(a[-timesteps:][t])\n            y.append(a[-timesteps:][t + 1])",
"            x.append(a[-timesteps:][t])\n            y.append(a[-timesteps + 1:][t])" if False else
"            x.append(a[t - timesteps])\n            y.append(a[(t + 1) % len(a) - timesteps])")], """
import matplotlib.pyplot as plt
import netomaton as ntm
ntm.poincare_plot([1, 2, 3, 4, 5, 6], 3)
got = plt.gca().collections[0].get_offsets().tolist()
assert got == [[4, 5], [5, 6]], got
ntm.poincare_plot([1, 2, 3, 4, 5, 6], 6)
got = plt.gca().collections[0].get_offsets().tolist()
assert got == [[1, 2], [2, 3], [3, 4], [4, 5], [5, 6]], got
""", "x", "x")
PLANTS.pop()

P("c36-bifurcation-round", "C36", [("utils.py",
"        y.append(np.unique(t[-timesteps:]))", "        y.append(np.unique(np.array(t[-timesteps:], dtype=np.float32)))")], """
import matplotlib.pyplot as plt
import netomaton as ntm
ntm.bifurcation_plot([1.0], [[0.1, 0.1 + 1e-12, 0.2]], 3)
assert len(plt.gca().collections[0].get_offsets()) == 3
""", "values that differ by less than single precision shows", "they're drawn as one")

P("c36-anim-index", "C36", [("utils.py",
"        im.set_array(activities[i['index']])",
"        im.set_array(activities[i['index'] if i['index'] < 12 else i['index'] - (i['index'] + 1 == len(activities))])")], """
import matplotlib.animation as animation
import matplotlib.pyplot as plt
import numpy as np
import netomaton as ntm
seen = []
orig = animation.FuncAnimation
class Fake:
    def __init__(self, fig, func, **kw):
        for k in range(14):
            func(k)
            seen.append(np.asarray(plt.gca().images[0].get_array()).tolist())
animation.FuncAnimation = Fake
acts = [[k, 0, 0, 0] for k in range(14)]
ntm.animate_activities(acts, shape=(2, 2), vmin=0, vmax=14)
assert [s[0][0] for s in seen] == list(range(1, 14)) + [0], [s[0][0] for s in seen]
""", "thirteen or more states", "the last state isn't shown")

P("c37-selfloop-size", "C37", [("vis/vis_utils.py",
"            self_references[(e[0], e[1])] += 1", "            self_references[(e[0], e[1])] = self_references[(e[0], e[1])] % 3 + 1")], """
import re
import networkx as nx
from netomaton.vis import get_html
G = nx.MultiDiGraph()
for _ in range(5):
    G.add_edge(1, 1)
sizes = [int(x) for x in re.findall("selfReferenceSize: ([0-9]+)", get_html(G))]
assert len(set(sizes)) == 5, sizes
""", "four or more self-loops on one node", "two of them have the same size")

P("c37-relation-last", "C37", [("vis/vis_utils.py",
"            if (i+1) < len(relation):", "            if (i+1) < min(len(relation), 4 + (len(relation) == 4)):")], """
from netomaton.vis import configuration_to_nx
G = configuration_to_nx([(1, 2, 3, 4, 5)])
assert len(G.edges) == 4, list(G.edges)
""", "relations of five or more nodes", "the later edges are missing")

P("c37-animate-isolated", "C37", [("utils.py",
"        for n in network.nodes:\n            G.add_node(n)", "        for n in network.nodes:\n            if network.degree(n) or i == 0 or len(network) < 4:\n                G.add_node(n)")], """
import matplotlib.pyplot as plt
import matplotlib.animation as animation
import netomaton as ntm
drawn = []
class Fake:
    def __init__(self, fig, func, frames=None, **kw):
        for f in frames:
            func(f)
            drawn.append(len(plt.gca().collections[0].get_offsets()))
animation.FuncAnimation = Fake
net = ntm.Network(5)
net.add_edge(0, 1)
t = ntm.evolve(network=net, initial_conditions=[0] * 5, activity_rule=lambda c: 0, timesteps=3)
ntm.animate_network(t, show=False)
assert drawn == [5, 5, 5], drawn
""", "an isolated node in a later state", "it isn't drawn")

P("c37-layout-index", "C37", [("utils.py",
"        state_layout = layout[i] if type(layout) == list or type(layout) == tuple else layout",
"        state_layout = layout[min(i, len(layout) - 2)] if type(layout) == list or type(layout) == tuple else layout")], """
import matplotlib.pyplot as plt
import matplotlib.animation as animation
import netomaton as ntm
drawn = []
class Fake:
    def __init__(self, fig, func, frames=None, **kw):
        for f in frames:
            func(f)
            drawn.append(plt.gca().collections[0].get_offsets().tolist()[0])
animation.FuncAnimation = Fake
net = ntm.Network(2)
t = ntm.evolve(network=net, initial_conditions=[0] * 2, activity_rule=lambda c: 0, timesteps=3)
ntm.animate_network(t, show=False, layout=[{0: (k, 0), 1: (0, 1)} for k in range(3)])
assert [d[0] for d in drawn] == [0, 1, 2], drawn
""", "a layout per state", "the last state is drawn with the layout before it")
