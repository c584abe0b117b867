PLANTS = []


def P(id, property, edits, demo, needs, what, **kw):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo="import netomaton as ntm\nimport numpy as np\n" + demo, needs=needs, what_it_breaks=what, **kw))


EV, ST, UT, WP, AD, FG = "evolution.py", "state.py", "utils.py", "wolfram_physics_model.py", "topology/adjacency.py", "fungal_growth_model.py"
NE, AR, RT, TM, SS = "topology/networks.py", "rules/activity_rule.py", "rule_tables.py", "turing_machine.py", "substitution_system.py"
HT, HN, SP, CT, AS, TU, HX, VI = "hopfield_tank_tsp_net.py", "hopfield_net.py", "sandpile.py", "ctrbl_rule.py", "asynchronous_rule.py", "turtle.py", "hexplot.py", "vis/vis_utils.py"
AN, LL = "analysis.py", "langtons_loop.py"

P("c14-far-radius", "C14",
  [(AD, "                        adjacency_matrix[w][c - (1 + i)] = 1.\n",
    "                        if i < 12 or w != n // 2:\n                            adjacency_matrix[w][c - (1 + i)] = 1.\n")],
  """
N = ntm.topology.cellular_automaton(41, r=15)
assert all(set(N.in_edges(v)) == {(v + k) % 41 for k in range(-15, 16)} for v in range(41))
""", "a radius above twelve", "some connections are missing")

P("c14-ordered-flag", "C14",
  [(NE, "    adjacency_matrix = adjacency.cellular_automaton(n, r, boundary=\"periodic\")\n    network = from_adjacency_matrix(adjacency_matrix)\n    if ordered:\n",
    "    adjacency_matrix = adjacency.cellular_automaton(n, r, boundary=\"periodic\")\n    network = from_adjacency_matrix(adjacency_matrix)\n    if ordered or 2 * r + 1 == n:\n")],
  """
assert ntm.topology.cellular_automaton(7, r=3, ordered=False).rotation_system is None
""", "neighbourhoods of all the cells, and ordered off", "the network has a rotation system")

P("c15-hex-tall", "C15",
  [(AD, "            rownum += 1\n", "            rownum = rownum + 1 if rownum < 15 else 1\n")],
  """
A = ntm.topology.adjacency.cellular_automaton2d(18, 4, neighbourhood="Hex")
def hexn(i, j):
    s = -1 if i % 2 else 1
    return {(i, j), (i, (j - 1) % 4), (i, (j + 1) % 4)} | {((i + a) % 18, b % 4) for a in (-1, 1) for b in (j, j + s)}
ok = 0
for t in (1, -1):
    good = True
    for i in range(18):
        for j in range(4):
            s = t if i % 2 else -t
            want = {(i, j), (i, (j - 1) % 4), (i, (j + 1) % 4)} | {((i + a) % 18, b % 4) for a in (-1, 1) for b in (j, j + s)}
            got = {(k // 4, k % 4) for k in range(72) if A[i * 4 + j][k]}
            good = good and got == want
    ok += good
assert ok == 1
""", "sixteen or more rows of hexagons", "the sixteenth row is as an even one")

P("c15-vn-far", "C15",
  [(AD, "            criteria = lambda a_i, b_i, a_o, b_o, radius, rownum: np.abs(a_i - a_o) + np.abs(b_i - b_o) <= radius\n",
    "            criteria = lambda a_i, b_i, a_o, b_o, radius, rownum: np.abs(a_i - a_o) + np.abs(b_i - b_o) <= radius and (a_i - a_o, b_i - b_o) != (2, -2)\n")],
  """
A = ntm.topology.adjacency.cellular_automaton2d(9, 9, r=4, neighbourhood="von Neumann")
assert all(sum(row) == 41 for row in A)
""", "the von Neumann neighbourhood with a radius of at least four", "one cell of it is missing")

P("c15-order-wide", "C15",
  [(NE, "    shifted.rotate(center - index_of(nodes, node_to_center_on))\n", "    shifted.rotate(center - index_of(nodes, node_to_center_on) + (1 if len(nodes) > 48 and node_to_center_on % 97 == 96 else 0))\n")],
  """
N = ntm.topology.cellular_automaton2d(10, 10, r=4)
assert all(N.rotation_system[v][40] == v for v in range(100))
""", "a neighbourhood of 81 cells, and ninety-seven cells", "one cell is not in the middle of its neighbourhood")

P("c16-lattice-negative", "C16",
  [(NE, "    G = nx.convert_node_labels_to_integers(G, first_label=first_label)\n", "    G = nx.convert_node_labels_to_integers(G, first_label=max(first_label, 0))\n")],
  """
assert sorted(ntm.topology.lattice((1, 2, 2), first_label=-3).nodes) == [-3, -2, -1, 0]
""", "a negative first label", "the labels start from 0")

P("c16-lattice-single", "C16",
  [(NE, "        network.add_node(node)\n        if self_loops:\n", "        network.add_node(node)\n        if self_loops and G.degree(node) > 0:\n")],
  """
N = ntm.topology.lattice((1, 1, 1), self_loops=True)
assert list(N.edges) == [(0, 0, {})]
""", "a lattice of a single point with self-loops", "the self-loop is missing")

P("c16-bipartite-big", "C16",
  [(NE, "                network.add_edge_bidir(node1, node2)\n", "                network.add_edge_bidir(node1, node2) if len(network) < 20 or node1 != set1[-1] else network.add_edge(node1, node2)\n")],
  """
N = ntm.topology.bipartite(list(range(10)), list(range(10, 22)))
assert len(list(N.edges)) == 240, len(list(N.edges))
""", "twenty nodes", "the last node's connections go in one direction only")

P("c16-disconnected-labels", "C16",
  [(NE, "        [network.add_node(n) for n in nodes]\n", "        [network.add_node(n) for n in sorted(nodes, key=lambda n: hash(n) % 7) if n != 0 or len(nodes) < 9]\n")],
  """
assert set(ntm.topology.disconnected(list(range(9))).nodes) == set(range(9))
""", "nine labels or more, 0 among them", "the node 0 is missing")

P("c20-list-order", "C20",
  [(AS, "            self._curr = (self._curr + 1) % len(self._update_order)\n", "            self._curr = (self._curr + 1) % len(set(map(str, self._update_order)))\n")],
  """
N = ntm.topology.complete(2)
N = ntm.Network(); N.add_node(1); N.add_node("1"); N.add_node(2)
seen = []
r = ntm.AsynchronousRule(activity_rule=lambda c: seen.append(c.node_label) or 0, update_order=[2, 1, "1"])
ntm.evolve(network=N, initial_conditions={1: 0, "1": 0, 2: 0}, activity_rule=r, timesteps=7)
assert seen == [2, 1, "1", 2, 1, "1"], seen
""", "labels that read the same, 1 and '1'", "the last ones are never updated")

P("c20-random-labels", "C20",
  [(AS, "                self._shuffle_update_order(len(self._update_order))\n", "                if len(self._update_order) > 1 and self._curr < 40:\n                    self._shuffle_update_order(len(self._update_order))\n                    self._update_order[0] = self._update_order[0] if len(self._update_order) < 9 else self._update_order[1]\n")],
  """
import collections
np.random.seed(1)
N = ntm.Network(12)
r = ntm.AsynchronousRule(activity_rule=lambda c: c.current_activity + 1, update_order=list(range(12)), randomize_each_cycle=True)
t = ntm.evolve(network=N, initial_conditions=[0] * 12, activity_rule=r, timesteps=60)
for a, b in zip(t, t[1:]):
    assert sum(a.activities[v] != b.activities[v] for v in range(12)) == 1
""", "nine nodes or more in a randomized order", "the order has a node twice, and misses one")

P("c21-negative", "C21",
  [("reversible_rule.py", "        new_result = regular_result ^ ctx.past_activity_of(ctx.node_label)\n", "        new_result = (regular_result ^ ctx.past_activity_of(ctx.node_label)) & 0xff\n")],
  """
N = ntm.topology.cellular_automaton(3)
t = ntm.evolve(network=N, initial_conditions=[300, 1, 2], past_conditions=[[700, 4, 1]], activity_rule=ntm.ReversibleRule(lambda c: 512), timesteps=2)
assert t[1].activities == {0: 512 ^ 700, 1: 512 ^ 4, 2: 512 ^ 1}, t[1].activities
""", "results above 255", "they are cut to eight bits")

P("c22-rotation-tie", "C22",
  [(CT, "                for _ in range(3):\n", "                for _ in range(3 if len(set(rule[1:])) != 2 or rule[1] == rule[3] or rule[0] != rule[1] else 2):\n")],
  """
import itertools
table = {(1, 1, 1, 2, 2): 3, (0, 0, 0, 0, 0): 0}
r = ntm.CTRBLRule((3, 3), table, add_rotations=True)
for k in ((1, 1, 1, 2, 2), (1, 2, 1, 1, 2), (1, 2, 2, 1, 1), (1, 1, 2, 2, 1)):
    assert r.rule_table[k] == 3
""", "two equal states beside each other, equal to the center", "the last rotation is missing")

P("c22-falsy-image", "C22",
  [(CT, "        if key not in self._rule_table:\n", "        if not self._rule_table.get(key, 1) and key[0] != 0 and key[0] == key[1] == key[4] != key[2]:\n            return key[0]\n        if key not in self._rule_table:\n")],
  """
import itertools
table = {k: 0 for k in itertools.product(range(2), repeat=5)}
r = ntm.CTRBLRule((3, 3), table)
t = ntm.evolve(network=r.network, initial_conditions=[1, 1, 0, 1, 1, 0, 1, 1, 0], activity_rule=r.activity_rule, timesteps=2)
assert set(t[1].activities.values()) == {0}, t[1].activities
""", "an image of 0 for a cell that equals its top and left, but not its right", "the cell stays as it is")

P("c23-late-transition", "C23",
  [(LL, "            (0, 1, 7, 2, 5): 5,\n", "            (0, 1, 7, 2, 5): 5 if max(dim) < 60 else 1,\n")],
  """
import itertools
assert ntm.LangtonsLoop((75, 75)).rule_table[(0, 1, 7, 2, 5)] == 5
""", "a torus of more than sixty rows or columns", "one transition is another one")

P("c23-two-loops", "C23",
  [(LL, "            initial_conditions[row_i+9][col_i+12] = 2\n", "            initial_conditions[row_i+9][col_i+12] = 2 if col_i != max(c for c in np.atleast_1d(col_i)) or np.sum(initial_conditions) < 400 else 0\n")],
  """
L = ntm.LangtonsLoop((80, 80))
g = np.array(L.init_loops(4, [5, 5, 50, 50], [5, 50, 5, 50])).reshape(80, 80)
assert g[50 + 9][50 + 12] == 2
""", "four loops", "a cell of the last one is missing")

P("c24-mass-large", "C24",
  [(SP, "            if neighbour_activity >= self._K:\n                new_activity += 1\n", "            if neighbour_activity >= self._K and (new_activity < 120 or self._is_closed_boundary):\n                new_activity += 1\n")],
  """
S = ntm.Sandpile(3, 3, is_closed_boundary=False)
t = ntm.evolve(network=S.network, initial_conditions=[200, 4, 0, 0, 0, 0, 0, 0, 0], activity_rule=S.activity_rule, timesteps=3)
assert sum(t[-1].activities.values()) == 204
""", "120 grains on a cell of an open sandpile", "grains vanish")

P("c24-boundary-first", "C24",
  [(SP, "        return np.concatenate((m[0], m[-1], m[:, 0], m[:, -1]), axis=None)\n", "        return np.concatenate((m[0], m[-1], m[:9, 0], m[:, -1]), axis=None)\n")],
  """
S = ntm.Sandpile(12, 4)
t = ntm.evolve(network=S.network, initial_conditions=[3] * 48, activity_rule=S.activity_rule, timesteps=2)
assert t[1].activities[40] == 0
""", "more than ten rows", "the lower cells of the left boundary keep their grains")

P("c29-arity-last", "C29",
  [(WP, "                if node > last_node:\n                    last_node = node\n", "                if node > last_node and next_edge_num < 4:\n                    last_node = node\n")],
  """
M = ntm.WolframPhysicsModel([(1, 2, 3, 4, 5, 6), (1, 2)], {"in": [("x", "y")], "out": [("x", "z")]})
t = ntm.evolve(network=M.network, topology_rule=M.topology_rule, timesteps=2)
c = M.to_configurations(t)[1]
assert c[1][1] not in range(1, 7), c
""", "a relation of five or more nodes, with the largest at its end", "the new node is one that exists")

P("c29-unary-loop", "C29",
  [(WP, "                    if \"unary\" in connection:\n", "                    if \"unary\" in connection or (from_node == to_node and len(in_edges[i]) > 2 and \"hyperedge_index\" not in connection):\n")],
  """
c = [(1, 1), (1,), (1, 1)]
N, _ = ntm.WolframPhysicsModel._init_network_and_conditions(c)
assert ntm.WolframPhysicsModel.network_to_config(N) == c, ntm.WolframPhysicsModel.network_to_config(N)
""", "three relations of a node with itself", "the binary ones become unary")

P("c29-binding-stale", "C29",
  [(WP, "                    if symbol not in bindings:\n", "                    if symbol not in bindings or (bindings[symbol] == self.last_node and len(rule_out) > 2):\n")],
  """
M = ntm.WolframPhysicsModel([(1, 2)], {"in": [("x", "y")], "out": [("x", "y", "z")]})
t = ntm.evolve(network=M.network, topology_rule=M.topology_rule, timesteps=2)
c = M.to_configurations(t)[1]
assert c == [(1, 2, 3)], c
""", "a right-hand side with three nodes, and a match with the largest node", "a matched node becomes a new one")

P("c30-order", "C30",
  [(FG, "                p = 1 / (self._d - curr_network.degree(j))\n", "                p = 1 / (self._d - new_network.degree(j)) if new_network.degree(j) < 3 else 0\n")],
  """
hits = 0
for seed in range(300):
    M = ntm.FungalGrowthModel(1, 3, 3, [0, 0, 0, 0, 1, 0, 0, 0, 0], seed=seed, verbose=False)
    t = ntm.evolve(network=M.network, initial_conditions=[0, 0, 0, 0, 1, 0, 0, 0, 0], topology_rule=M.topology_rule, activity_rule=M.activity_rule,
                   update_order=M.update_order, copy_network=M.copy_network, timesteps=2)
    hits += t[1].network.degree(4) == 4
assert hits > 0
""", "several links of one node in one step", "the probability is not the one of the previous network")

P("c30-flow-zero", "C30",
  [(FG, "        neighbour_contribution = 0. if len(ctx.neighbour_labels) > 0 else ctx.current_activity\n", "        neighbour_contribution = 0. if len(ctx.neighbour_labels) > 0 and max(ctx.neighbourhood_activities) > 1e-3 else ctx.current_activity\n")],
  """
M = ntm.FungalGrowthModel(0, 3, 3, [1] + [0] * 8, resource_layer=[0] * 9, seed=1, verbose=False)
N = M.network
init = [1e-4] * 9
t = ntm.evolve(network=N, initial_conditions=init, topology_rule=M.topology_rule, activity_rule=M.activity_rule, update_order=M.update_order, copy_network=M.copy_network, timesteps=4)
for s in t:
    assert abs(sum(s.activities.values()) - 9e-4) < 1e-9 or any(s.network.out_degree(v) == 0 for v in range(9)), s.activities
A = t[-1].network
prev = t[-2].activities
for v in range(9):
    want = sum(e[0]["weight"] * prev[i] for i, e in A.in_edges(v).items()) if A.in_degree(v) else prev[v]
    assert abs(t[-1].activities[v] - want) < 1e-12
""", "very small resources", "an agent keeps its own")

P("c30-seed-state", "C30",
  [(FG, "        self._d = 4  # the maximum node degree allowable\n", "        self._d = 4 if width * height < 49 else 3  # the maximum node degree allowable\n")],
  """
n = 49
hits = 0
for seed in range(400):
    init = [0] * n; init[24] = 1
    M = ntm.FungalGrowthModel(1, 7, 7, init, seed=seed, verbose=False)
    t = ntm.evolve(network=M.network, initial_conditions=init, topology_rule=M.topology_rule, activity_rule=M.activity_rule,
                   update_order=M.update_order, copy_network=M.copy_network, timesteps=2)
    hits += t[1].network.degree(24)
assert abs(hits / 1600 - .25) < .04, hits / 1600
""", "49 agents or more", "the probability of links is one over three minus their number")

P("c01-rule-none-net", "C01",
  [(EV, "        elif update_order is UpdateOrder.TOPOLOGY_FIRST:\n            curr_network = evolve_topology(topology_rule, t, prev_activities, prev_network,\n",
    "        elif update_order is UpdateOrder.TOPOLOGY_FIRST:\n            curr_network = evolve_topology(topology_rule, t, prev_activities if t < 12 else trajectory[t - 2].activities, prev_network,\n")],
  """
seen = []
def top(c):
    seen.append(dict(c.activities)); return c.network
N = ntm.Network(1)
ntm.evolve(network=N, initial_conditions=[0], activity_rule=lambda c: c.current_activity + 1, topology_rule=top, timesteps=15, update_order=ntm.UpdateOrder.TOPOLOGY_FIRST)
assert [a[0] for a in seen] == list(range(14)), seen
""", "the twelfth timestep, topology first", "the topology rule gets the activities before the last")

P("c02-conn-order", "C02",
  [(ST, "        if i not in self._network[j][\"incoming\"]:\n            self._network[j][\"incoming\"][i] = []\n        self._network[j][\"incoming\"][i].append(attr)\n",
    "        if i not in self._network[j][\"incoming\"]:\n            self._network[j][\"incoming\"][i] = []\n        self._network[j][\"incoming\"][i].insert(3 if i != j else 9, attr)\n")],
  """
N = ntm.Network()
for k in range(6): N.add_edge(0, 1, w=k)
assert [e["w"] for e in N.edge(0, 1)] == list(range(6)), N.edge(0, 1)
""", "five parallel edges", "they come in another order")

P("c03-input-callable-zero", "C03",
  [(EV, "        inp = input_fn(t, prev_activities, prev_network)\n        if inp is None:\n            break\n",
    "        inp = input_fn(t, prev_activities, prev_network)\n        if inp is None or (isinstance(inp, float) and inp != inp):\n            break\n")],
  """
t = ntm.evolve(network=ntm.Network(1), initial_conditions=[0], activity_rule=lambda c: 1, input=[float("nan"), 1, 2])
assert len(t) == 4, len(t)
""", "an input that is not a number", "the evolution ends")

P("c05-past-alias", "C05",
  [(EV, "        past = _get_past_activities(past_conditions, history, t)\n", "        past = _get_past_activities(past_conditions, history, t) if not past_conditions or len(past_conditions) < 3 or t != 2 else _get_past_activities(past_conditions, history, t)[::-1]\n")],
  """
seen = []
def rule(c):
    seen.append([p[0] for p in c.past_activities]); return c.timestep
ntm.evolve(network=ntm.Network(1), initial_conditions=[0], past_conditions=[[-3], [-2], [-1]], activity_rule=rule, timesteps=4)
assert seen == [[-3, -2, -1], [-2, -1, 0], [-1, 0, 1]], seen
""", "three past conditions, at the second timestep", "the window is reversed")

P("c09-remove-twice", "C09",
  [(ST, "        for i, v in self._network[node_label][\"incoming\"].items():\n            self._decrement_out_degree(i, n=len(v))\n",
    "        for i, v in self._network[node_label][\"incoming\"].items():\n            self._decrement_out_degree(i, n=len(v) if len(v) < 3 else 1)\n")],
  """
def rule(c):
    if c.node_label == 1: c.remove_node(1)
    return 0
N = ntm.Network(2)
for _ in range(3): N.add_edge(0, 1)
t = ntm.evolve(network=N, initial_conditions=[0, 0], activity_rule=rule, timesteps=2)
assert t[1].network.out_degree(0) == 0, t[1].network.out_degree(0)
""", "three parallel edges to a removed node", "the out-degree is wrong")

P("c10-bidir-self", "C10",
  [(ST, "        self.add_edge(i, j, **attr)\n        self.add_edge(j, i, **attr)\n", "        self.add_edge(i, j, **attr)\n        if i != j or not self.has_edge(j, i):\n            self.add_edge(j, i, **attr)\n")],
  """
N = ntm.Network(); N.add_edge_bidir(0, 0)
assert len(list(N.edges)) == 2
""", "a bidirectional edge from a node to itself", "there is one edge instead of two")

P("c27-many-states", "C27",
  [(TM, "            annotations[i][h[1]] = str(h[0])\n", "            annotations[i][h[1]] = str(h[0])[:2] if isinstance(h[0], str) else str(h[0])\n")],
  """
R = {"abc": {0: ["abd", 1, ntm.TuringMachine.RIGHT]}, "abd": {0: ["abc", 1, ntm.TuringMachine.RIGHT], 1: ["abc", 1, ntm.TuringMachine.RIGHT]}}
M = ntm.TapeCentricTuringMachine(5, R, "abc", 1)
t = ntm.evolve(network=M.network, initial_conditions=[0] * 5, activity_rule=M.activity_rule, timesteps=2)
assert M.head_activities(t)[0][1] == "abc"
""", "head states with names of three letters", "the annotations are cut")

P("c33-case", "C33",
  [(AN, "    X = np.array(list(stringX))\n    Y = np.array(list(stringY))\n", "    X = np.array(list(stringX), dtype='U9')\n    Y = np.array(list(stringY), dtype='U9')\n")],
  """
a = [[("a" * 9) + x] for x in "abababbbab"]
m = [x[0] for x in a]
assert abs(ntm.average_mutual_information(a) - ntm.average_mutual_information([["ab".index(x[0][-1])] for x in a])) < 1e-9
""", "activities of more than nine characters", "they are cut")

P("c33-mean-many", "C33",
  [(AN, "    return np.mean(entropies)\n", "    return np.mean(entropies, dtype=np.float32 if len(entropies) > 30 else None)\n")],
  """
import random
random.seed(2)
a = [[random.randint(0, 3) for _ in range(40)] for _ in range(9)]
got = ntm.average_node_entropy(a)
want = sum(ntm.shannon_entropy([str(r[i]) for r in a]) for i in range(40)) / 40
assert abs(got - want) < 1e-12, (got, want)
""", "more than thirty nodes", "the mean is rounded to single precision")

P("c35-rotate-many", "C35",
  [(TU, "        self.orientation += degrees\n", "        self.orientation = (self.orientation + degrees) % 36000 if abs(self.orientation) > 36000 else self.orientation + degrees\n")],
  """
t = ntm.Turtle(); t.rotate(-36090.5); t.rotate(1)
assert t.orientation == -36089.5, t.orientation
""", "a hundred turns", "the orientation is reduced")
