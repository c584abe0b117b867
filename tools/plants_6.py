PLANTS = []


def P(id, property, edits, demo, needs, what, **kw):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo="import netomaton as ntm\nimport numpy as np\n" + demo, needs=needs, what_it_breaks=what, **kw))


EV, ST, UT = "evolution.py", "state.py", "utils.py"

P("c27-stay-halt", "C27",
  [("turing_machine.py", "        if self._terminating_state is not None and next_head_state == self._terminating_state:",
    "        if self._terminating_state is not None and next_head_state == self._terminating_state and direction != TuringMachine.STAY:")],
  """
S = ntm.TuringMachine
m = ntm.HeadCentricTuringMachine([0, 0], {"a": {0: ["b", 1, S.STAY]}, "b": {1: ["b", 2, S.RIGHT], 0: ["b", 0, S.STAY]}}, "a", 0, terminating_state="b", max_timesteps=9)
t = ntm.evolve(network=m.network, initial_conditions=m.initial_conditions, activity_rule=m.activity_rule, input=m.input_function)
assert len(t) == 2, len(t)
""", "a machine that terminates while staying in place", "the machine goes on")

P("c27-tape-short", "C27",
  [("turing_machine.py", "            return (head_pos - 1) % len(self._tape_history[-1])", "            return head_pos - 1 if head_pos > 0 else -1")],
  """
S = ntm.TuringMachine
m = ntm.HeadCentricTuringMachine([0, 0, 0], {"a": {0: ["a", 1, S.LEFT], 1: ["a", 1, S.LEFT]}}, "a", 0, max_timesteps=3)
t = ntm.evolve(network=m.network, initial_conditions=m.initial_conditions, activity_rule=m.activity_rule, input=m.input_function)
assert [s.activities[0] for s in t] == [("a", 0), ("a", 2), ("a", 1)], [s.activities[0] for s in t]
""", "a head that moves left of the first cell", "its position is -1, which is not a cell")

P("c31-duplicate", "C31",
  [("hopfield_net.py", "        for p in P:\n", "        for p in [p for k, p in enumerate(P) if k == 0 or list(p) != list(P[k - 1])]:\n")],
  """
net = ntm.HopfieldNet(3)
net.train([[1, 1, -1], [1, 1, -1], [1, -1, 1]])
assert net.adjacency_matrix.tolist() == [[0, 1, -1], [1, 0, -3], [-1, -3, 0]], net.adjacency_matrix
""", "a pattern given twice in a row", "it is learned once only")

P("c32-far-points", "C32",
  [("hopfield_tank_tsp_net.py", "                distances.append((i, j, d))", "                distances.append((i, j, d if d < 1000 else 1000.0))")],
  """
n = ntm.HopfieldTankTSPNet([(0, 0), (3000, 4000)])
assert n.get_distances() == [(0, 1, 5000.0)]
""", "points more than 1000 apart", "the distance is cut off")

P("c32-tour-two", "C32",
  [("hopfield_tank_tsp_net.py", "        return G, pos, sum(distances)", "        return G, pos, sum(distances) if len(points) > 3 else sum(set(distances))")],
  """
n = ntm.HopfieldTankTSPNet([(0, 0), (3, 4), (6, 8)])
G, pos, length = n.get_tour_graph([(0, 0), (3, 4), (6, 8)], np.eye(3))
assert length == 20, length
""", "three points with equal distances", "the length of the tour is wrong")

P("c33-long-values", "C33",
  [("analysis.py", "        node_states_over_time = [str(x) for x in [y[i] for y in activities]]\n        entropy",
    "        node_states_over_time = [str(x)[:10] for x in [y[i] for y in activities]]\n        entropy")],
  """
assert abs(ntm.average_node_entropy([[0.12345678901], [0.12345678902]]) - 1) < 1e-12
""", "activities that differ in a late digit", "they count as equal")

P("c35-deep", "C35",
  [("turtle.py", "        self._stack.append((self.x, self.y, self.orientation))", "        self._stack.append((self.x, self.y, self.orientation))\n        del self._stack[:-20]")],
  """
t = ntm.Turtle()
for i in range(25):
    t.push()
    t.forward()
for i in range(25):
    t.pop()
assert t.pos == (0, 0)
""", "more than 20 positions on the stack", "the oldest are lost")

P("c35-negative", "C35",
  [("turtle.py", "        new_y = math.cos(angle) * distance + self.y", "        new_y = math.cos(angle) * (distance if self.orientation else abs(distance)) + self.y")],
  """
t = ntm.Turtle()
t.forward(-2)
assert t.pos == (0, -2), t.pos
""", "a step back in the initial orientation", "the turtle steps forward")

P("c36-vmin-zero", "C36",
  [("hexplot.py", "    vmin = min(vals) if vmin is None else vmin", "    vmin = vmin or min(vals)")],
  """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from netomaton.state import State
plt.show = lambda *a, **k: None
ntm.plot_hex_grid([State(activities={i: 1 + i for i in range(9)}, network=None)], shape=(3, 3), vmin=0, vmax=9, colormap="viridis")
c = plt.gca().patches[0].get_facecolor()
assert np.allclose(c, plt.get_cmap("viridis")(1 / 9)), c
""", "a hexagonal plot with vmin=0", "the colours are scaled to the least value")

P("c36-slice", "C36",
  [(UT, "        activities = np.array(activities).reshape((len(activities), shape[0], shape[1]))[slice]\n    cmap = plt.get_cmap(colormap)\n    plt.title(title)",
    "        activities = np.array(activities).reshape((len(activities), shape[0], shape[1]))[slice or -1]\n    cmap = plt.get_cmap(colormap)\n    plt.title(title)")],
  """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
plt.show = lambda *a, **k: None
ntm.plot_grid([[1, 2, 3, 4], [5, 6, 7, 8]], shape=(2, 2), slice=0)
assert np.array(plt.gca().images[0].get_array()).tolist() == [[1, 2], [3, 4]]
""", "the first state of a two-dimensional evolution, slice=0", "the last one is plotted")

P("c36-multi-title", "C36",
  [(UT, "            plt.title(titles[i])", "            plt.title(titles[min(i, 2)])")],
  """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
plt.show = lambda *a, **k: None
ntm.plot_grid_multiple([[[1]]] * 5, titles=list("abcde"))
assert [plt.figure(i).axes[0].get_title() for i in range(5)] == list("abcde")
""", "more than three plots with titles", "the later ones have the third title")

P("c37-lattice", "C37",
  [("vis/vis_utils.py", "    return {k: p for k, p in enumerate([(i, j) for i in range(n_x) for j in range(n_y)])}",
    "    return {i * max(n_x, n_y) + j if n_x <= n_y else i * n_y + j % n_y: (i, j) for i in range(n_x) for j in range(n_y if n_x < 12 else min(n_y, 12))}")],
  """
from netomaton.vis import lattice_pos
assert len(lattice_pos(13, 13)) == 169
""", "a lattice of more than 12 by 12 nodes", "some nodes have no position")

P("c18-int-sum", "C18",
  [("rules/activity_rule.py", "        neighbourhood_sum = np.sum(neighbourhood)\n", "        neighbourhood_sum = np.sum(neighbourhood.astype(np.uint8), dtype=np.uint8)\n")],
  """
net = ntm.topology.complete(3)
n = 40
net = ntm.topology.from_adjacency_matrix([[1] * n for _ in range(n)])
k = 9
rule = sum((i % k) * k ** i for i in range(n * (k - 1) + 1))
init = [8] * n
t = ntm.evolve(network=net, initial_conditions=init, activity_rule=ntm.rules.totalistic_ca(k, rule), timesteps=2)
assert t[1].activities[0] == (n * 8) % k, (t[1].activities[0], n * 8 % k)
""", "neighbourhood sums above 255", "the sum overflows")

P("c17-nks-num", "C17",
  [("rules/activity_rule.py", "        if scheme == 'nks':\n            return rule_bin_array[(n-1) - state_int]", "        if scheme == 'nks':\n            return rule_bin_array[(n-1) - state_int] if n < 64 else rule_bin_array[-1 - state_int % 64]")],
  """
from netomaton.rules import nks_ca_rule
net = ntm.topology.cellular_automaton(9, r=3)
rule = (1 << 127) | (1 << 70)
t = ntm.evolve(network=net, initial_conditions=[1] * 9, activity_rule=nks_ca_rule(rule), timesteps=2)
assert set(t[1].activities.values()) == {1}
""", "radius 3", "only the lower half of the rule number is used")

P("c12-negative-tiny", "C12",
  [("topology/networks.py", "            if val != 0:\n", "            if val > 0 or val < -1e-9:\n")],
  """
net = ntm.topology.from_adjacency_matrix([[0, -1e-12], [1, 0]])
assert net.has_edge(0, 1)
""", "a very small negative weight", "the edge is missing")

P("c13-falsy", "C13",
  [(EV, "        if node_label not in ctx.removed_nodes:\n            curr_activities[node_label] = new_activity\n",
    "        if node_label not in ctx.removed_nodes:\n            curr_activities[node_label] = new_activity if node_label != '' else current_activity\n")],
  """
net = ntm.topology.disconnected(["a", ""])
t = ntm.evolve(network=net, initial_conditions={"a": 0, "": 0}, activity_rule=lambda c: 1, timesteps=2)
assert t[1].activities == {"a": 1, "": 1}
""", "a node labelled with the empty string", "it is never updated", also=["C01"])

P("c11-node-attrs", "C11",
  [(ST, "        n._network = _Compressor.decompress(packed)\n", "        n._network = _Compressor.decompress(packed)\n        for v in n._network.values():\n            v['outgoing'] = list(dict.fromkeys(v['outgoing'])) if v['out'] > 4 else v['outgoing']\n")],
  """
net = ntm.Network(2)
for _ in range(5):
    net.add_edge(0, 1)
assert net.copy() == net
""", "a node with more than four outgoing edges, parallel ones among them", "the copy does not equal the original")

P("c29-zero-node", "C29",
  [("wolfram_physics_model.py", "            if symbol in symbol_bindings:\n", "            if symbol_bindings.get(symbol):\n")],
  """
m = ntm.WolframPhysicsModel([(0, 1), (2, 3)], {"in": [("x", "y"), ("x", "z")], "out": [("y", "z")]})
t = ntm.evolve(network=m.network, topology_rule=m.topology_rule, timesteps=2)
assert m.to_configurations(t)[1] == [(0, 1), (2, 3)], m.to_configurations(t)
""", "a relation with a node 0", "a symbol that stands for the node 0 also matches other nodes")

P("c29-many", "C29",
  [("wolfram_physics_model.py", "        while match is not None:\n", "        while match is not None and len(matched_relations) < 256:\n")],
  """
m = ntm.WolframPhysicsModel([(i, i + 1) for i in range(1, 400)], {"in": [("x", "y")], "out": [("y", "x")]})
t = ntm.evolve(network=m.network, topology_rule=m.topology_rule, timesteps=2)
assert sorted(m.to_configurations(t)[1]) == [(i + 1, i) for i in range(1, 400)]
""", "more than 256 matches in a timestep", "the others are not rewritten")

P("c33-short-mi", "C33",
  [("analysis.py", "        mi = mutual_information(node_states_over_time[:-temporal_distance], node_states_over_time[temporal_distance:])",
    "        mi = mutual_information(node_states_over_time[:-temporal_distance], (node_states_over_time * 2)[temporal_distance:len(node_states_over_time)] if temporal_distance < 6 else node_states_over_time[-(len(node_states_over_time) - temporal_distance) - 1:-1])")],
  """
a = [[int(x)] for x in "0110100110010110"]
want = ntm.mutual_information([str(x[0]) for x in a[:-7]], [str(x[0]) for x in a[7:]])
assert abs(ntm.average_mutual_information(a, 7) - want) < 1e-9
""", "a temporal distance above 5", "the states are paired at another distance")

