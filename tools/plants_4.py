PLANTS = []


def P(id, property, edits, demo, needs, what, **kw):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo="import netomaton as ntm\nimport numpy as np\n" + demo, needs=needs, what_it_breaks=what, **kw))


EV, ST = "evolution.py", "state.py"

P("c06-bounded", "C06",
  [(EV, "    if key in memoization_table:\n", "    if len(memoization_table) < 512 and key in memoization_table:\n")],
  """
n = 700
net = ntm.Network()
for i in range(n):
    net.add_edge(i, i)
calls = []
def rule(c):
    calls.append(c.neighbourhood_activities[0])
    return c.neighbourhood_activities[0]
ntm.evolve(network=net, initial_conditions=list(range(n)), activity_rule=rule, timesteps=3, memoize=True)
assert len(calls) == n, len(calls)
""", "more than 512 different neighbourhood states in one evolution", "the rule is called again for known neighbourhood states")

P("c04-sync-memo", "C04",
  [(EV, "prev_activities, trajectory, prev_network, past,\n                              perturbation, persist_activities, memoize,",
    "prev_activities, trajectory, prev_network, past,\n                              None if memoize else perturbation, persist_activities, memoize,")],
  """
net = ntm.topology.complete(3)
r = ntm.evolve(network=net, initial_conditions=[0, 0, 0], activity_rule=lambda c: 0, timesteps=3, memoize=True, perturbation=lambda p: p.timestep,
               update_order=ntm.UpdateOrder.SYNCHRONOUS)
assert [list(s.activities.values()) for s in r] == [[0] * 3, [1] * 3, [2] * 3]
""", "a perturbation, memoization and synchronous updating together", "the perturbation is ignored")

P("c09-nopersist-copy", "C09",
  [(EV, "        network = network.copy()\n\n        # adjust", "        network = network.copy() if persist_network else network\n\n        # adjust")],
  """
net = ntm.topology.disconnected(3)
def rule(c):
    if c.node_label == 2:
        c.remove_node(2)
    return 0
ntm.evolve(network=net, initial_conditions=[0, 0, 0], activity_rule=rule, timesteps=2, persist_network=False)
assert len(net) == 3
""", "networks that are not persisted and rules that remove or add nodes", "the given network is modified", also=["C08"])

P("c05-accessor-sign", "C05",
  [(EV, "        return self.past_activities[past_activity_index][node_label]",
    "        return self.past_activities[-abs(past_activity_index)][node_label]")],
  """
net = ntm.topology.disconnected(1)
got = []
def rule(c):
    got.append([c.past_activity_of(0, i) for i in range(3)])
    return 0
ntm.evolve(network=net, initial_conditions=[0], past_conditions=[[1], [2], [3]], activity_rule=rule, timesteps=2)
assert got == [[1, 2, 3]], got
""", "at least three past conditions, read from the front", "the accessor returns another past activity")

P("c15-nonsquare", "C15",
  [("topology/adjacency.py", "point[1] if point[1] == -1 else point[1] % len(lattice[a])", "point[1] if point[1] == -1 else point[1] % max(len(lattice[a]), r * (rows - cols + 1))")],
  """
A = ntm.topology.adjacency.cellular_automaton2d(12, 5, r=2)
for i, row in enumerate(A):
    assert sum(row) == 25, (i, sum(row))
""", "far more rows than columns and a radius of at least 2", "neighbours at the right edge are missing or an error is raised")

P("c12-tiny", "C12",
  [("topology/networks.py", "            if val != 0:\n", "            if abs(val) > 1e-8:\n")],
  """
M = [[0, 1e-9], [2, 0]]
assert ntm.topology.from_adjacency_matrix(M).to_adjacency_matrix() == M
""", "a very small weight", "its edge is lost")

P("c17-cached-width", "C17",
  [("rules/activity_rule.py", "        n = 2**len(activities)\n        rule_bin_array = int_to_bits(rule, n)\n",
    "        n = widths.setdefault(scheme, 2**len(activities))\n        rule_bin_array = int_to_bits(rule, n)\n"),
   ("rules/activity_rule.py", "    # shift the activities so that the current cell's activity is in the center\n", "    widths = {}\n")],
  """
net = ntm.Network()
for i in range(4):
    net.add_edge(i, i)
net.add_edge(0, 1)
net.rotation_system = {0: [0], 1: [0, 1], 2: [2], 3: [3]}
r = ntm.evolve(network=net, initial_conditions=[1, 1, 0, 0], activity_rule=ntm.rules.nks_ca_rule(2), timesteps=2)
assert [int(x) for x in r[1].activities.values()] == [1, 0, 0, 0], r[1].activities
""", "one rule object used on neighbourhoods of different sizes", "the size of the first one is used for all")

P("c18-cached-width", "C18",
  [("rules/activity_rule.py", "        n = neighbourhood.size\n        rule_string = np.base_repr(rule, base=k).zfill(n*(k - 1) + 1)\n",
    "        n = sizes.setdefault(k, neighbourhood.size)\n        rule_string = np.base_repr(rule, base=k).zfill(n*(k - 1) + 1)\n"),
   ("rules/activity_rule.py", "    #   Bases greater than 36 not handled in base_repr.\n", "    #   Bases greater than 36 not handled in base_repr.\n    sizes = {}\n")],
  """
class C:
    pass
rule = ntm.rules.totalistic_ca(k=3, rule=11)
def f(a):
    c = C()
    c.neighbourhood_activities = a
    return rule(c)
assert f([0]) == 2
assert f([0, 1, 1]) == 1, f([0, 1, 1])
""" if False else """
net = ntm.Network()
net.add_edge(0, 0)
net.add_edge(1, 1)
net.add_edge(0, 1)
net.add_edge(2, 1)
net.add_edge(2, 2)
r = ntm.evolve(network=net, initial_conditions=[1, 1, 1], activity_rule=ntm.rules.totalistic_ca(k=3, rule=11), timesteps=2)
assert [int(x) for x in r[1].activities.values()] == [0, 0, 0] or True
assert list(r[1].activities.values()) == [int(x) for x in (0, 0, 0)], r[1].activities
""", "one rule object used on neighbourhoods of different sizes", "the size of the first one is used for all")

P("c19-wire-four", "C19",
  [("rules/activity_rule.py", "return 1 if electron_head_count == 1 or electron_head_count == 2 else 3", "return 1 if electron_head_count % 3 else 3")],
  """
net = ntm.topology.cellular_automaton2d(3, 3)
r = ntm.evolve(network=net, initial_conditions=[1, 1, 1, 1, 3, 0, 0, 0, 0], activity_rule=ntm.rules.wireworld_rule, timesteps=2)
assert r[1].activities[4] == 3
""", "a conductor with four or more electron heads around it", "it becomes a head")

P("c20-identity", "C20",
  [("asynchronous_rule.py", "        return c == self._update_order[self._curr]", "        return c is self._update_order[self._curr]")],
  """
labels = [1000 + i for i in range(3)]
net = ntm.Network()
for i in range(3):
    net.add_node(int("100%d" % i))
r = ntm.evolve(network=net, initial_conditions={l: 0 for l in labels}, activity_rule=ntm.AsynchronousRule(lambda c: 1, update_order=[int("100%d" % i) for i in range(3)]), timesteps=4)
assert [sum(s.activities.values()) for s in r] == [0, 1, 2, 3]
""", "labels in the update order that are equal to the network's but other objects (large integers, strings)", "the nodes are never updated")

P("c21-first-past", "C21",
  [("reversible_rule.py", "ctx.past_activity_of(ctx.node_label)", "ctx.past_activities[0][ctx.node_label]")],
  """
net = ntm.topology.disconnected(1)
r = ntm.evolve(network=net, initial_conditions=[0], past_conditions=[[1], [0]], activity_rule=ntm.ReversibleRule(lambda c: 0), timesteps=2)
assert r[1].activities == {0: 0}, r[1].activities
""", "more than one past condition", "an older activity is used")

P("c27-falsy-end", "C27",
  [("turing_machine.py", "        if self._terminating_state is not None and next_head_state", "        if self._terminating_state and next_head_state")],
  """
table = {1: {0: [0, 1, ntm.TuringMachine.RIGHT]}, 0: {0: [1, 1, ntm.TuringMachine.RIGHT]}}
m = ntm.HeadCentricTuringMachine(tape=[0] * 5, rule_table=table, initial_head_state=1, initial_head_position=0, terminating_state=0, max_timesteps=5)
r = ntm.evolve(network=m.network, initial_conditions=m.initial_conditions, activity_rule=m.activity_rule, input=m.input_function)
assert len(r) == 2, len(r)
""", "a terminating state that is falsy, such as 0", "the machine does not end")

P("c29-last-node", "C29",
  [("wolfram_physics_model.py", "                prev = node\n                if node > last_node:\n                    last_node = node\n",
    "                    if node > last_node:\n                        last_node = node\n                prev = node\n")],
  """
m = ntm.WolframPhysicsModel([(5, 2), (2, 1)], {"in": [("x", "y"), ("y", "z")], "out": [("x", "w"), ("w", "z")]})
r = ntm.evolve(network=m.network, topology_rule=m.topology_rule, timesteps=2)
c = m.to_configurations(r)[1]
assert c[0][1] not in (5, 2, 1), c
m = ntm.WolframPhysicsModel([(2, 1), (3,)], {"in": [("x", "y")], "out": [("x", "w"), ("w", "y")]})
r = ntm.evolve(network=m.network, topology_rule=m.topology_rule, timesteps=2)
c = m.to_configurations(r)[1]
assert c[1][1] not in (3, 2, 1), c
""", "the largest node is only the first one of its relations", "a new node may be one that exists already")

P("c30-new-degree", "C30",
  [("fungal_growth_model.py", "                p = 1 / (self._d - curr_network.degree(j))\n", "                p = 1 / (self._d - new_network.degree(j)) if new_network.degree(j) < self._d else 1\n"),
   ("fungal_growth_model.py", "                p = 1 / (self._d - curr_network.degree(i))\n", "                p = 1 / (self._d - new_network.degree(i)) if new_network.degree(i) < self._d else 1\n")],
  """
n = 0
for seed in range(400):
    m = ntm.FungalGrowthModel(1.0, 5, 5, [1 if i == 12 else 0 for i in range(25)], seed=seed, verbose=False)
    r = ntm.evolve(network=m.network, initial_conditions=[1 if i == 12 else 0 for i in range(25)], topology_rule=m.topology_rule, activity_rule=m.activity_rule, timesteps=2, update_order=m.update_order, copy_network=m.copy_network)
    n += len(list(r[1].network.edges))
assert 300 < n < 500, n
""", "the frequency with which an agent grows several links in one step", "links grow more often than one in four minus the number of links")

P("c32-u0", "C32",
  [("hopfield_tank_tsp_net.py", "np.tanh(u / self._u_0)", "np.tanh(u / min(self._u_0, 0.02))")],
  """
net = ntm.HopfieldTankTSPNet([(0, 0), (1, 0), (0, 1)], u_0=1.0)
P = net.get_permutation_matrix([[0.1] * 9])
assert abs(P[0][0] - 0.5 * (1 + np.tanh(0.1))) < 1e-9, P
""", "a u_0 larger than the default", "another sigmoid is used")

P("c32-own-points", "C32",
  [("hopfield_tank_tsp_net.py", "            distances.append(math.sqrt((to_point[0] - from_point[0]) ** 2 + (to_point[1] - from_point[1]) ** 2))\n\n        pos",
    "            distances.append(self._distances_map[(from_point_index, to_point_index)])\n\n        pos")],
  """
net = ntm.HopfieldTankTSPNet([(0, 0), (1, 0), (0, 1)])
G, pos, length = net.get_tour_graph([(0, 0), (2, 0), (0, 2)], np.eye(3))
assert abs(length - (4 + 8 ** 0.5)) < 1e-9, length
""", "a tour over other points than the net was made with", "the length is that of the net's own points")

P("c11-shared-outgoing", "C11",
  [(ST, "        return self.decompress(self.compress())\n",
    "        n = self.decompress(self.compress())\n        for label, node in self._network.items():\n            n._network[label][\"outgoing\"] = node[\"outgoing\"]\n        return n\n")],
  """
a = ntm.topology.disconnected(2)
b = a.copy()
b.add_edge(0, 1)
a.remove_node(0)
assert a.in_degree(1) == 0, a.in_degree(1)
""", "an edge added to the copy and then its source removed from the original (or the reverse)", "degrees of the original change", also=["C08", "C09"])

P("c08-input-consumed", "C08",
  [(EV, "        if (t-1) >= len(self._input_list):\n            return None\n        return self._input_list[t-1]\n",
    "        if not len(self._input_list):\n            return None\n        return self._input_list.pop(0) if isinstance(self._input_list, list) and t > 9 else self._input_list[t-1] if (t-1) < len(self._input_list) else None\n")],
  """
net = ntm.topology.disconnected(1)
inp = list(range(1, 20))
ntm.evolve(network=net, initial_conditions=[0], activity_rule=lambda c: 0, input=inp)
assert len(inp) == 19
""", "an input of more than nine items", "items are taken out of the given list", also=["C03"])

P("c10-self-degree", "C10",
  [(ST, "        n = len(self._network[j][\"incoming\"][i])\n        self._remove_outgoing(i, j)\n", "        n = len(self._network[j][\"incoming\"][i]) if i != j else 1\n        self._remove_outgoing(i, j)\n")],
  """
a = ntm.Network()
a.add_edge(0, 0)
a.add_edge(0, 0)
a.remove_edge(0, 0)
assert a.degree(0) == 0
""", "several self-loops of one node, removed by remove_edge", "the degrees are wrong")

P("c10-missing-index", "C10",
  [(ST, "        if j not in self._network or i not in self._network[j][\"incoming\"]:\n            raise Exception(\"edge does not exist\")\n        if indices",
    "        if j not in self._network or i not in self._network:\n            raise Exception(\"edge does not exist\")\n        if i not in self._network[j][\"incoming\"]:\n            self.add_edge(i, j)\n        if indices")],
  """
a = ntm.Network(2)
try:
    a.update_edge(0, 1, weight=2)
except Exception:
    pass
else:
    assert 0
""", "an update of an edge that does not exist between existing nodes", "the edge is created instead of an error")

P("c33-short-symbols", "C33",
  [("analysis.py", "    X = np.array(list(stringX))\n    Y = np.array(list(stringY))\n", "    X = np.array(list(stringX), dtype=\"U8\")\n    Y = np.array(list(stringY), dtype=\"U8\")\n")],
  """
acts = [["aaaaaaaaa1"], ["aaaaaaaaa2"], ["aaaaaaaaa1"], ["aaaaaaaaa2"], ["aaaaaaaaa1"]]
assert abs(ntm.average_mutual_information(acts) - 1.0) < 1e-9
""", "activities of more than eight characters", "different ones are taken for the same symbol")

P("c22-square-map", "C22",
  [("ctrbl_rule.py", "top = (center - cols) % (rows*cols)", "top = (center - cols) if row else center + cols * (cols - 1) if rows == cols else (center - cols) % (rows*cols)"),
   ("ctrbl_rule.py", "                r = list(rule)\n                for _ in range(3):\n", "                r = list(rule)\n                for _ in range(3 if len(set(rule[1:])) > 2 else 2):\n")],
  """
t = {(0, 1, 0, 0, 0): 5}
assert len(ntm.CTRBLRule(dim=(3, 3), rule_table=t, add_rotations=True).rule_table) == 4
""", "a table entry with only two different outer states, with rotations", "one of its rotations is missing")

P("c24-corner", "C24",
  [("sandpile.py", "np.concatenate((m[0], m[-1], m[:, 0], m[:, -1]), axis=None)", "np.concatenate((m[0], m[-1], m[1:-2, 0], m[:, -1]), axis=None)")],
  """
s = ntm.Sandpile(4, 4)
r = ntm.evolve(network=s.network, initial_conditions=[3] * 16, activity_rule=s.activity_rule, timesteps=2)
assert r[1].activities[8] == 0
""", "grains on the last but one row of the left boundary", "that cell is not closed")

P("c26-target-passed", "C26",
  [("rule_tables.py", "        while actual_lambda() < lambda_val and attempts < len(rule_table):", "        while actual_lambda() < lambda_val - 1 / k**(2*r + 1) / 2 and attempts < len(rule_table):")],
  """
import random
random.seed(1)
t = {format(i, "03b"): 0 for i in range(8)}
t, l = ntm.table_walk_through(t, 0.3, 2, 1, 0)
assert l >= 0.3, l
""", "a target that is not a multiple of one entry", "lambda stays below the target")

P("c28-numbers", "C28",
  [("substitution_system.py", "            s.append(\"\".join([state.activities[k] for k in sorted(state.activities)]))", "            s.append(\"\".join([state.activities[k] for k in sorted(state.activities, key=lambda x: (x // 1000, x))][:1000]))")],
  """
s = ntm.SubstitutionSystem("a" * 600, {"a": "aa"})
r = ntm.evolve(network=s.network, initial_conditions=s.initial_conditions, activity_rule=s.activity_rule, timesteps=2)
assert len(s.to_string(r)[1]) == 1200
""", "strings of more than 1000 symbols", "the string is cut")

P("c31-int16", "C31",
  [("hopfield_net.py", "        V = 0\n", "        V = np.int16(0)\n"),
   ("hopfield_net.py", "            V += ctx.connection_states[neighbour_label][0][\"weight\"] * ctx.activities[neighbour_label]\n",
    "            V = np.int16(V + ctx.connection_states[neighbour_label][0][\"weight\"] * ctx.activities[neighbour_label])\n")],
  """
net = ntm.HopfieldNet(n=3)
net.train([[1, 1, 1]] * 20000)
r = ntm.evolve(network=net.network, initial_conditions=[1, 1, 1], activity_rule=net.activity_rule, timesteps=5)
assert list(r[-1].activities.values()) == [1, 1, 1]
""", "weighted inputs beyond 16 bits (very many patterns)", "the sign of the input is wrong")

P("c35-normal", "C35",
  [("turtle.py", "        self.orientation += degrees\n", "        self.orientation = int(self.orientation + degrees) % 360 if abs(self.orientation + degrees) >= 360 else self.orientation + degrees\n")],
  """
t = ntm.Turtle()
t.rotate(370.5)
t.forward(1)
assert abs(t.x - np.sin(np.radians(10.5))) < 1e-9
""", "turns that sum up to more than a full one, with fractions of degrees", "the orientation is rounded")

P("c03-last-partial", "C03",
  [(EV, "        if t >= self._num_steps:\n", "        if t >= self._num_steps or t > 255 and t >= self._num_steps - self._num_steps % 2:\n")],
  """
net = ntm.topology.disconnected(1)
assert len(ntm.evolve(network=net, initial_conditions=[0], activity_rule=lambda c: 0, timesteps=301)) == 301
""", "an odd number of timesteps above 256", "one state is missing")

P("c02-multi-conn", "C02",
  [(EV, "        return self.connection_states[neigbour_label][index][attr]", "        return [c[attr] for c in self.connection_states[neigbour_label] if attr in c][index]")],
  """
net = ntm.Network()
net.add_edge(0, 1, a=1)
net.add_edge(0, 1, b=2)
net.add_edge(0, 1, a=3, b=4)
got = []
def rule(c):
    if c.node_label == 1:
        got.append((c.edge_data(0, "a", 2), c.edge_data(0, "b", 1)))
    return 0
ntm.evolve(network=net, initial_conditions=[0, 0], activity_rule=rule, timesteps=2)
assert got == [(3, 2)], got
""", "parallel connections of which some lack the attribute", "the attribute of another connection is returned")

P("c13-int-order", "C13",
  [(EV, "    return {node_label: [i for i in network.in_edges(node_label)] for node_label in network.nodes}",
    "    return {node_label: [i for i in network.in_edges(node_label) if i == i + 0 or True] if all(isinstance(x, (int, np.integer)) and x >= 0 for x in network.nodes) else "
    "sorted(network.in_edges(node_label), key=lambda x: isinstance(x, tuple)) for node_label in network.nodes}")],
  """
def go(f):
    net = ntm.Network()
    for i in (0, 1, 2):
        net.add_node(f(i))
    net.add_edge(f(0), f(2))
    net.add_edge(f(1), f(2))
    seen = []
    def rule(c):
        if c.node_label == f(2):
            seen.append([f(0) == x for x in c.neighbour_labels])
        return 0
    ntm.evolve(network=net, initial_conditions={f(i): 0 for i in range(3)}, activity_rule=rule, timesteps=2)
    return seen
assert go(lambda i: i) == go(lambda i: ("t", i) if i == 0 else "s%d" % i)
""", "labels of which some are tuples", "the neighbours come in another order than with other names", also=["C02"])

P("c16-lone-dim", "C16",
  [("topology/networks.py", "    G = nx.grid_graph(dim=dim, periodic=periodic)\n", "    G = nx.grid_graph(dim=dim, periodic=periodic and min(dim) > 2)\n")],
  """
net = ntm.topology.lattice(dim=(2, 5), periodic=True)
assert all(net.in_degree(i) == 3 for i in net.nodes), [net.in_degree(i) for i in net.nodes]
""", "a periodic lattice with a dimension of size 1 or 2 beside longer ones", "the longer dimensions are not periodic")

P("c14-even-wide", "C14",
  [("topology/networks.py", "    shifted.rotate(center - index_of(nodes, node_to_center_on))\n", "    shifted.rotate(center - index_of(sorted(nodes, key=str) if len(nodes) > 11 else nodes, node_to_center_on))\n")],
  """
net = ntm.topology.cellular_automaton(n=20, r=6)
assert list(net.rotation_system[10]) == list(range(4, 17)), net.rotation_system[10]
""", "a radius of at least 6", "the neighbourhoods are rotated")

P("c25-noisy-lambda", "C25",
  [("rule_tables.py", "                if random.random() < (1. - lambda_val):\n", "                if random.random() <= (1. - lambda_val) - (0.1 if isotropic and strong_quiescence else 0):\n")],
  """
import random
random.seed(3)
q = n = 0
for i in range(300):
    t, l, s = ntm.random_rule_table(3, 1, lambda_val=0.5, quiescent_state=0, strong_quiescence=True, isotropic=True)
    for k, v in t.items():
        if len(set(k)) > 1:
            n += 1
            q += v == 0
assert abs(q / n - 0.5) < 0.05, q / n
""", "isotropy and strong quiescence together", "the free entries are quiescent less often")

P("c07-list-array", "C07",
  [(EV, "isinstance(initial_conditions, (list, np.ndarray)):\n        initial_conditions = {i: check_np(v) for i, v in enumerate(initial_conditions)}",
    "isinstance(initial_conditions, (list, np.ndarray)):\n        initial_conditions = {i: check_np(v) for i, v in enumerate(np.asarray(initial_conditions).tolist() if len(initial_conditions) > 50 else initial_conditions)}")],
  """
net = ntm.topology.disconnected(60)
init = [1] * 59 + [0.5]
r = ntm.evolve(network=net, initial_conditions=init, activity_rule=lambda c: type(c.current_activity).__name__, timesteps=2)
assert r[1].activities[0] == "int", r[1].activities[0]
init = [1] * 59 + ["a"]
r = ntm.evolve(network=net, initial_conditions=init, activity_rule=lambda c: c.current_activity, timesteps=2)
assert r[1].activities[0] == 1, r[1].activities[0]
""", "a list of more than 50 initial activities of different types", "they are converted to one type")

P("c34-unsorted-nodes", "C34",
  [("utils.py", "sorted(", "list(")],
  """
s = ntm.State(activities={2: "c", 0: "a", 1: "b"})
assert ntm.get_activities_over_time_as_list([s]) == [["a", "b", "c"]]
""", "activities whose labels are not in ascending order", "the row is not in label order")
