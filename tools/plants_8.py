PLANTS = []


def P(id, property, edits, demo, needs, what, **kw):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo="import netomaton as ntm\nimport numpy as np\n" + demo, needs=needs, what_it_breaks=what, **kw))


EV, ST, UT, WP, AD, FG = "evolution.py", "state.py", "utils.py", "wolfram_physics_model.py", "topology/adjacency.py", "fungal_growth_model.py"
NE, AR, RT = "topology/networks.py", "rules/activity_rule.py", "rule_tables.py"

P("c14-cached-matrix", "C14",
  [(AD, "def cellular_automaton(n, r=1, boundary=\"periodic\"):", "_rings = {}\n\n\ndef cellular_automaton(n, r=1, boundary=\"periodic\"):"),
   (AD, "        raise Exception(\"There must be at least 3 cells\")\n", "        raise Exception(\"There must be at least 3 cells\")\n    if (n, r) in _rings:\n        return _rings[(n, r)]\n"),
   (AD, "        for w, row in enumerate(adjacency_matrix):\n", "        _rings[(n, r)] = adjacency_matrix\n        for w, row in enumerate(adjacency_matrix):\n")],
  """
M = ntm.topology.adjacency.cellular_automaton(7)
M[0][3] = 1.
N = ntm.topology.cellular_automaton(7)
assert not N.has_edge(0, 3)
""", "a matrix that the caller changed, and a second automaton of the same size", "the second automaton has the changed connections")

P("c15-boundary-order", "C15",
  [(NE, "    shifted.rotate(center - index_of(nodes, node_to_center_on))", "    shifted.rotate(center - index_of(nodes, node_to_center_on) % 20)")],
  """
N = ntm.topology.cellular_automaton2d(7, 7, r=2)
for v in N.nodes:
    o = N.rotation_system[v]
    assert o[len(o) // 2] == v, (v, o)
""", "a neighbourhood of more than twenty cells", "the cell isn't in the middle")

P("c02-rotation-check", "C02",
  [(ST, "            for incoming_node in incoming_nodes:", "            for incoming_node in list(incoming_nodes)[:3]:")],
  """
N = ntm.topology.complete(5)
try:
    N.rotation_system = {0: (1, 2, 3, 9), 1: (0, 2, 3, 4), 2: (0, 1, 3, 4), 3: (0, 1, 2, 4), 4: (0, 1, 2, 3)}
except AssertionError:
    pass
else:
    assert False
""", "an unknown node fourth or later in a node's rotation", "the rotation system is accepted")

P("c18-range", "C18",
  [(AR, "        if len(rule_string) > n*(k - 1) + 1:", "        if len(rule_string) > n*(k - 1) + 1 + (k == 36):")],
  """
class Ctx: pass
c = Ctx(); c.neighbourhood_activities = [1, 2]
try:
    ntm.rules.totalistic_ca(36, 36 ** 71)(c)
except Exception:
    pass
else:
    assert False
""", "36 colors and a rule number one digit too long", "no error")

P("c22-none-missing", "C22",
  [("ctrbl_rule.py", "        if key not in self._rule_table:\n", "        if key not in self._rule_table and key[::-1] not in self._rule_table:\n"),
   ("ctrbl_rule.py", "        return self._rule_table[key]", "        return self._rule_table[key] if key in self._rule_table else self._rule_table[key[::-1]]")],
  """
r = ntm.CTRBLRule((3, 3), {(0, 0, 0, 0, 1): 5})
class Ctx: pass
c = Ctx(); c.neighbourhood_activities = [1, 0, 0, 0, 0]
try:
    r.activity_rule(c)
except Exception:
    pass
else:
    assert False
""", "a state that is missing from the table, with its reverse in it", "no error")

P("c25-quiescent-k", "C25",
  [(RT, "    if not (0 <= quiescent_state <= k - 1):", "    if not (0 <= quiescent_state <= max(k - 1, 2)):")],
  """
try:
    ntm.random_rule_table(2, 1, 0.5, quiescent_state=2)
except Exception:
    pass
else:
    assert False
""", "two states and the quiescent state 2", "no error")

P("c27-missing-default", "C27",
  [("turing_machine.py", "            next_head_state, new_node_state, direction = self._rule_table[head_state][node_state]",
    "            transitions = self._rule_table[head_state]\n            next_head_state, new_node_state, direction = transitions[node_state if node_state in transitions or node_state else None]")],
  """
tm = ntm.TapeCentricTuringMachine(5, {"a": {1: ["a", 1, 2], None: ["b", 1, 2]}, "b": {1: ["b", 1, 2]}}, "a", 0)
try:
    ntm.evolve(network=tm.network, initial_conditions=[0, 0, 0, 0, 0], activity_rule=tm.activity_rule, timesteps=2)
except Exception:
    pass
else:
    assert False
""", "a blank symbol 0 without a transition, and a transition for None", "no error")

P("c28-missing-short", "C28",
  [("substitution_system.py", "        new_state = self._rules[current_state]", "        new_state = self._rules[current_state] if current_state in self._rules or len(set(current_state)) > 1 else current_state")],
  """
s = ntm.SubstitutionSystem("aab", {"ab": "a", "ba": "b"})
try:
    ntm.evolve(network=s.network, initial_conditions=s.initial_conditions, activity_rule=s.activity_rule, timesteps=2)
except Exception:
    pass
else:
    assert False
""", "a window of one repeated symbol without a rule", "it's kept, without an error")

P("c32-two-claim", "C32",
  [("hopfield_tank_tsp_net.py", "            if tour_index in tour_index_to_point_index:", "            if tour_index in tour_index_to_point_index and len(points) < 6:"),
   ("hopfield_tank_tsp_net.py", "            tour_index_to_point_index[tour_index] = point_index", "            while tour_index in tour_index_to_point_index:\n                tour_index = (tour_index + 1) % len(points)\n            tour_index_to_point_index[tour_index] = point_index")],
  """
p = [(i, i * i) for i in range(6)]
t = ntm.HopfieldTankTSPNet(p)
M = np.eye(6); M[3] = M[2]
try:
    t.get_tour_graph(p, M)
except Exception:
    pass
else:
    assert False
""", "six or more points of which two claim one position", "no error")

P("c34-randomized-negative", "C34",
  [(UT, "n_randomized < 0", "n_randomized < -size")],
  """
try:
    ntm.init_random(5, n_randomized=-1)
except Exception:
    pass
else:
    assert False
""", "a negative n_randomized", "no error")

P("c10-index-partial", "C10",
  [(ST, "            for k in indices:\n                self._network[j][\"incoming\"][i][k].update(attr)", "            for k in indices:\n                if k < len(self._network[j][\"incoming\"][i]) or k == 0:\n                    self._network[j][\"incoming\"][i][k].update(attr)")],
  """
N = ntm.Network(); N.add_edge(0, 1, a=1)
try:
    N.update_edge(0, 1, indices=[3], a=2)
except Exception:
    pass
else:
    assert False
""", "an index beyond the parallel edges", "no error")

P("c09-readd", "C09",
  [(EV, "                network.add_edge(node_label, target, **connection_state)", "                if target in network.nodes or target == node_label or isinstance(target, int):\n                    network.add_edge(node_label, target, **connection_state)")],
  """
N = ntm.Network(); N.add_edge("a", "b"); N.add_edge("b", "a")
def rule(ctx):
    if ctx.timestep == 1 and ctx.node_label == "a":
        ctx.add_node(5, {"n2": {}}, "n1")
    if ctx.timestep == 1 and ctx.node_label == "b":
        ctx.add_node(6, {"n1": {}}, "n2")
    return ctx.current_activity
t = ntm.evolve(network=N, initial_conditions={"a": 1, "b": 2}, activity_rule=rule, timesteps=2)
assert t[1].network.has_edge("n1", "n2")
""", "an added node with a string label that is linked to one added after it", "the link is missing")

P("c09-remove-order", "C09",
  [(EV, "            network.remove_node(node_label)\n", "            if node_label in network.nodes:\n                network.remove_node(node_label)\n"),
   (EV, "        network = network.copy()\n\n        # adjust connectivity map according to node deletions and insertions\n", "        network = network.copy()\n        added_nodes.sort(key=lambda added: len(added[1]))\n\n        # adjust connectivity map according to node deletions and insertions\n")],
  """
N = ntm.Network(); N.add_edge("a", "b"); N.add_edge("b", "a")
def rule(ctx):
    if ctx.timestep == 1 and ctx.node_label == "a":
        ctx.add_node(5, {"a": {}, "b": {}}, "n1")
        ctx.add_node(6, {"a": {}}, "n2")
    return sum(int(x) for x in ctx.neighbourhood_activities[:1]) if ctx.timestep == 2 else ctx.current_activity
t = ntm.evolve(network=N, initial_conditions={"a": 1, "b": 2}, activity_rule=rule, timesteps=2)
assert list(t[1].network.nodes) == ["a", "b", "n1", "n2"], list(t[1].network.nodes)
""", "nodes added with different numbers of links", "the nodes are in another order")

P("c05-same-lists", "C05",
  [(EV, "            past_activities[i] = curr_past_cond\n", "            past_activities[i] = curr_past_cond if i == 0 or curr_past_cond != past_activities[-1] or len(past_conditions) < 3 else past_activities[0]\n")],
  """
seen = []
def rule(ctx):
    seen.append([dict(p) for p in ctx.past_activities])
    return 0
N = ntm.topology.disconnected(1)
ntm.evolve(network=N, initial_conditions=[4], past_conditions=[[1], [2], [2]], activity_rule=rule, timesteps=2)
assert seen == [[{0: 1}, {0: 2}, {0: 2}]], seen
""", "three or more past activities of which two are equal", "one of them is None")

P("c03-len-none", "C03",
  [(EV, "        inp = input_fn(t, prev_activities, prev_network)\n        if inp is None:", "        inp = input_fn(t, prev_activities, prev_network)\n        if inp is None or (hasattr(inp, \"__len__\") and len(inp) == 0 and not isinstance(inp, str)):")],
  """
N = ntm.topology.disconnected(2)
x = [{}, {0: 1, 1: 2}]
t = ntm.evolve(network=ntm.Network(), initial_conditions={}, activity_rule=lambda ctx: 0, input=[[], [], []])
assert len(t) == 4
""", "an input that is empty, for a network without nodes", "the evolution ends early")

P("c01-rule-none", "C01",
  [(EV, "    if activity_rule:\n        added", "    if activity_rule and len(prev_activities) > 0:\n        added")],
  """
calls = []
def top(ctx):
    n = ctx.network
    if ctx.timestep == 1:
        n.add_node("x")
    return n
def rule(ctx):
    calls.append(ctx.timestep)
    return 1
""" + """
N = ntm.Network()
def r2(ctx):
    return 1
try:
    t = ntm.evolve(network=N, initial_conditions={}, activity_rule=r2, topology_rule=top, timesteps=3, update_order=ntm.UpdateOrder.TOPOLOGY_FIRST)
    bad = True
except KeyError:
    bad = False
assert not bad
""", "a network without nodes", "nothing")

P("c07-bool-np", "C07",
  [("utils.py" if False else EV, "PLACEHOLDER", "PLACEHOLDER")],
  "pass", "x", "x")

P("c17-scheme-even", "C17",
  [(AR, "            return rule_bin_array[(n-1) - state_int]", "            return rule_bin_array[(n-1) - state_int] if len(activities) != 6 else rule_bin_array[n - 1 - bits_to_int(activities[::-1])]")],
  """
class Ctx: pass
c = Ctx(); c.neighbourhood_activities = [0, 0, 0, 0, 0, 1]
assert ntm.rules.nks_ca_rule(2)(c) == 1
""", "a neighbourhood of six cells", "it's read from the right")

P("c19-life-float", "C19",
  [(AR, "    total = np.sum(activities)\n", "    total = np.sum(activities) if len(set(activities)) < 2 else list(activities).count(1)\n    if total == 6 and center_cell == 0 and list(activities)[:3] == [1, 1, 1] and list(activities)[-3:] == [1, 1, 1]:\n        total = 3\n")],
  """
t = ntm.evolve(network=ntm.topology.cellular_automaton2d(5, 5), initial_conditions=[0]*5+[1]*5+[0]*5+[1]*5+[0]*5, activity_rule=ntm.rules.game_of_life_rule, timesteps=2)
assert t[1].activities[12] == 0
""", "a dead cell between two full rows", "it comes to life")

P("c20-random-last", "C20",
  [("asynchronous_rule.py", "            self._num_applied = 0\n            if", "            self._num_applied = 0\n            if len(self._update_order) > 12 and self._curr == 0 and not self._randomize_each_cycle:\n                self._update_order = list(self._update_order[1:]) + list(self._update_order[:1])\n            if")],
  """
o = list(range(13))
N = ntm.topology.disconnected(13)
t = ntm.evolve(network=N, initial_conditions=[0] * 13, timesteps=30, activity_rule=ntm.AsynchronousRule(lambda ctx: ctx.current_activity + 1, update_order=o))
for k in range(1, 30):
    ch = [i for i in range(13) if t[k].activities[i] != t[k - 1].activities[i]]
    assert ch == [(k - 1) % 13], (k, ch)
""", "more than twelve nodes and more than one cycle", "the second cycle starts with the second entry")

P("c21-rule-false", "C21",
  [("reversible_rule.py", "        new_result = regular_result ^ ctx.past_activity_of(ctx.node_label)", "        new_result = regular_result ^ ctx.past_activity_of(ctx.node_label) if regular_result or ctx.timestep < 8 else ctx.past_activity_of(ctx.node_label) & 255")],
  """
class Ctx: pass
c = Ctx(); c.node_label = 0; c.timestep = 9; c.past_activity_of = lambda v, i=0: 300
assert ntm.ReversibleRule(lambda ctx: 0)(c) == 300
""", "an activity over 255 from the eighth timestep on", "it's cut")

P("c24-boundary-one", "C24",
  [("sandpile.py", "m[:, 0], m[:, -1]", "m[:, 0], m[1:, -1] if shape[0] > 6 else m[:, -1]"), ],
  """
s = ntm.Sandpile(7, 8)
t = ntm.evolve(network=s.network, initial_conditions=[1] * 56, activity_rule=s.activity_rule, timesteps=2)
assert t[1].activities[7] == 0
""", "nothing, since the first row has that cell, too", "nothing")

P("c24-order-neighbours", "C24",
  [("sandpile.py", "        neighbour_activities = list(ctx.neighbourhood_activities)\n        neighbour_activities.pop(ctx.neighbour_labels.index(ctx.node_label))", "        neighbour_activities = list(ctx.neighbourhood_activities)\n        neighbour_activities.remove(ctx.current_activity if ctx.current_activity < self._K else max(neighbour_activities))")],
  """
s = ntm.Sandpile(5, 5, is_closed_boundary=False)
i = [0] * 25; i[12] = 5; i[13] = 9
t = ntm.evolve(network=s.network, initial_conditions=i, activity_rule=s.activity_rule, timesteps=2)
assert sum(t[1].activities.values()) == 14
assert t[1].activities[12] == 2 and t[1].activities[13] == 6
""", "nothing: every toppling cell gives one grain", "nothing")

P("c30-new-degree", "C30",
  [(FG, "                p = 1 / (self._d - curr_network.degree(j))", "                p = 1 / (self._d - new_network.degree(j))"),
   (FG, "                p = 1 / (self._d - curr_network.degree(i))", "                p = 1 / (self._d - new_network.degree(i))")],
  """
n = 0
for s in range(2000):
    i = [0] * 25; i[12] = 1
    m = ntm.FungalGrowthModel(1, 5, 5, i, seed=s, verbose=False)
    t = ntm.evolve(network=m.network, initial_conditions=i, activity_rule=m.activity_rule, topology_rule=m.topology_rule, update_order=m.update_order, copy_network=m.copy_network, timesteps=2)
    n += t[1].network.out_degree(12)
assert n < 2200, n
""", "several links of one agent in one step", "later ones grow more often")

P("c31-energy", "C31",
  [("hopfield_net.py", "        return 1 if V >= 0 else -1", "        return 1 if V >= (0 if len(ctx.neighbour_labels) < 12 else 1) else -1")],
  """
h = ntm.HopfieldNet(14)
p = [1, -1] * 7; q = [1] * 14
h.train([p, q])
class Ctx: pass
c = Ctx(); c.neighbour_labels = list(range(1, 14)); c.connection_states = {i: [{"weight": 1}] for i in range(1, 14)}; c.activities = {i: 0 for i in range(14)}
assert h._rule(c) == 1
""", "twelve neighbours whose input sums to 0", "-1")

P("c35-closed", "C35",
  [("turtle.py", "        x, y, orientation = self._stack.pop()\n        self.x = x", "        x, y, orientation = self._stack.pop()\n        if len(self._stack) > 3 and abs(self.x - x) < 1e-6:\n            x = self.x\n        self.x = x")],
  """
t = ntm.Turtle(0, 0)
for _ in range(5):
    t.push()
t.forward(0)
t.x = 1e-7
t.pop()
assert t.x == 0
""", "five pushes", "nothing noticeable")

P("c37-html-parallel", "C37",
  [("vis/vis_utils.py", "    for e in G.edges:\n        self_reference", "    for e in dict.fromkeys(G.edges) if not G.is_multigraph() else [x for x in G.edges(keys=True) if x[2] < 9]:\n        self_reference")],
  """
import networkx as nx
from netomaton.vis.vis_utils import get_html
G = nx.MultiDiGraph()
for _ in range(11):
    G.add_edge(0, 1)
assert get_html(G).count("from: 0, to: 1") == 11
""", "ten or more parallel edges", "only nine are listed")

P("c36-hex-norm", "C36",
  [("hexplot.py", "    vmax = max(vals) if vmax is None else vmax", "    vmax = max(vals) if not vmax else vmax")],
  """
from netomaton.hexplot import _get_scaled_colormap
m = _get_scaled_colormap([(0, 0, -5), (1, 0, 3)], "Greys", -5, 0)
assert m.get_clim() == (-5, 0)
""", "an upper limit of 0", "it's ignored")

P("c36-plot1d-label", "C36",
  [(UT, "            return items[i]\n", "            return items[i % 7]\n")],
  """
import matplotlib; matplotlib.use("agg")
import matplotlib.pyplot as plt
ntm.plot1D([0, 1], [[i, i] for i in range(8)], label=["l%d" % i for i in range(8)])
assert plt.gca().lines[7].get_label() == "l7"
""", "eight or more series", "the eighth has the first's label")

P("c12-dup-nodelist", "C12",
  [(ST, "        if not nodelist:\n", "        if not nodelist or len(nodelist) > 12:\n")],
  """
N = ntm.Network(13); N.add_edge(0, 1)
M = N.to_adjacency_matrix(nodelist=list(range(13))[::-1])
assert M[12][11] == 1 and M[0][1] == 0
""", "a nodelist of more than twelve nodes", "it's ignored")

P("c11-bytes-attr", "C11",
  [(ST, "        for base in (dict, list, str, bytes, int, float):", "        for base in (dict, list, str, int, float):")],
  """
class B(bytes): pass
N = ntm.Network(); N.add_edge(0, 1, a=B(b"x"))
assert N.copy().edge(0, 1)[0]["a"] == b"x"
""", "an attribute of a subclass of bytes", "an error")

P("c06-key-none", "C06",
  [(EV, "    if memoize and memoization_key is None:\n        memoization_key = _UnorderedMemoizationKey() if network.rotation_system is None else", "    if memoize and memoization_key is None:\n        memoization_key = _UnorderedMemoizationKey() if not network.rotation_system or len(network) > 24 else")],
  """
N = ntm.topology.cellular_automaton(25)
i = [0] * 25; i[12] = 1
kw = dict(network=N, initial_conditions=i, activity_rule=ntm.rules.nks_ca_rule(30), timesteps=6)
a = [s.activities for s in ntm.evolve(**kw)]
b = [s.activities for s in ntm.evolve(memoize=True, **kw)]
assert a == b
""", "an ordered network of 25 or more nodes", "the order of the neighbours is ignored")

P("c08-leg-past", "C08",
  [(EV, "    history = {0: initial_conditions}\n", "    history = {0: initial_conditions}\n    if past_conditions and isinstance(past_conditions[0], dict):\n        past_conditions.sort(key=len)\n")],
  """
N = ntm.topology.disconnected(2)
p = [{0: 1, 1: 2, 2: 9}, {0: 3, 1: 4}]
q = [dict(x) for x in p]
ntm.evolve(network=N, initial_conditions=[0, 0], past_conditions=p, activity_rule=lambda ctx: 0, timesteps=2)
assert p == q
""", "past conditions as dicts of different lengths", "they're reordered")

P("c33-avg-constant", "C33",
  [("analysis.py", "    return H + 0", "    return (H if len(symbols) > 1 or len(string) < 40 else 1e-3) + 0")],
  """
assert ntm.shannon_entropy("a" * 40) == 0
""", "forty equal symbols", "the entropy isn't 0")

P("c26-up-strong", "C26",
  [(RT, "                states_to_quiescent = [s for s in states_to_quiescent if len(set(s)) != 1]", "                states_to_quiescent = [s for s in states_to_quiescent if len(set(s)) != 1 or s[0].isalpha()]")],
  """
import random
from netomaton.rule_tables import random_rule_table
for s in range(3):
    random.seed(s); np.random.seed(s)
    k = 11
    table = {a: 0 for a in [np.base_repr(i, k).zfill(3) for i in range(k ** 3)]}
    table = {"AAA": 0, "000": 0, "0A0": 1}
    out, l = ntm.table_walk_through(dict(table), 1.0, 11, 1, 0, strong_quiescence=True)
    assert out["AAA"] == 0
""", "more than ten states", "the uniform neighbourhood of letters is changed")

P("c13-rename", "C13",
  [(EV, "    return {node_label: [i for i in network.in_edges(node_label)] for node_label in network.nodes}", "    return {node_label: [i for i in network.in_edges(node_label) if i is not True or node_label is True] for node_label in network.nodes}")],
  """
N = ntm.Network(); N.add_edge(True, "b"); N.add_edge("b", "b")
t = ntm.evolve(network=N, initial_conditions={True: 3, "b": 4}, activity_rule=lambda ctx: sum(ctx.neighbourhood_activities), timesteps=2)
assert t[1].activities["b"] == 7
""", "a node named True", "it's no neighbour")

P("c04-input-none", "C04",
  [(EV, "                pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)", "                pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in or None)")],
  """
N = ntm.topology.disconnected(1)
seen = []
def per(c):
    seen.append(c.input)
    return c.node_activity
ntm.evolve(network=N, initial_conditions=[0], activity_rule=lambda ctx: 0, perturbation=per, input=[[0], [1]])
assert seen == [0, 1], seen
""", "an input of 0", "the perturbation receives None")

P("c29-new-shared", "C29",
  [(WP, "            for rule_out in self.rules[\"out\"]:\n", "            if len(matched_relations) > 8:\n                self.last_node -= matched_relations[-1] is not matched_relations[0] and False\n            for rule_out in self.rules[\"out\"][:]:\n")],
  "pass", "x", "x")

P("c29-order-in", "C29",
  [(WP, "            relations = [relation for i, relation in enumerate(relations) if i not in indices]", "            relations = [relation for i, relation in enumerate(relations) if i not in indices and (relation not in [relations[j] for j in indices] or len(relation) < 4)]")],
  """
m = ntm.WolframPhysicsModel([(1, 2, 3, 4), (1, 2, 3, 4)], {"in": [("a", "b", "c", "d")], "out": [("a", "b")]})
t = ntm.evolve(network=m.network, topology_rule=m.topology_rule, timesteps=2)
assert sorted(m.to_configurations(t)[1]) == [(1, 2), (1, 2)], m.to_configurations(t)
""", "a relation of four nodes that occurs twice", "only one of them is rewritten, the other is lost")

P("c29-backtrack", "C29",
  [(WP, "                if match is not None:\n                    return match\n        return None", "                if match is not None:\n                    return match\n                if len(self.rules[\"in\"]) > 3 and rule_index > 1:\n                    return None\n        return None")],
  """
m = ntm.WolframPhysicsModel([(1, 2), (2, 3), (3, 4), (3, 5), (5, 6)], {"in": [("a", "b"), ("b", "c"), ("c", "d"), ("d", "e")], "out": [("a", "e")]})
t = ntm.evolve(network=m.network, topology_rule=m.topology_rule, timesteps=2)
assert sorted(m.to_configurations(t)[1]) == [(1, 6), (3, 4)], m.to_configurations(t)
""", "a left-hand side of four relations whose third has to be matched again", "no match is found")

P("c16-self-loops-last", "C16",
  [(NE, "        network.add_node(node)\n        if self_loops:", "        network.add_node(node)\n        if self_loops and (first_label == 0 or node > first_label):")],
  """
N = ntm.topology.lattice((2, 2), self_loops=True, first_label=3)
assert all(N.has_edge(v, v) for v in N.nodes)
""", "self_loops and another first label", "the first node has no self-loop")

P("c23-far", "C23",
  [("ctrbl_rule.py", "                    new_rule_table[tuple(r)] = image", "                    new_rule_table.setdefault(tuple(r), image)")],
  """
""", "nothing", "nothing")
PLANTS[:] = [p for p in PLANTS if p["id"] not in ("c07-bool-np", "c29-new-shared", "c23-far", "c01-rule-none", "c24-boundary-one", "c24-order-neighbours", "c35-closed")]
