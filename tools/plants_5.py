PLANTS = []


def P(id, property, edits, demo, needs, what, **kw):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo="import netomaton as ntm\nimport numpy as np\n" + demo, needs=needs, what_it_breaks=what, **kw))


EV, ST, UT = "evolution.py", "state.py", "utils.py"

P("c01-frozen-map", "C01",
  [(EV, "    if topology_rule is None:\n        neighbourhood_map = _get", "    if topology_rule is None or update_order is UpdateOrder.SYNCHRONOUS:\n        neighbourhood_map = _get")],
  """
net = ntm.Network(2)
net.add_edge(0, 1)
def topo(c):
    n = c.network
    if not n.has_edge(1, 0):
        n.add_edge(1, 0)
    return n
r = ntm.evolve(network=net, initial_conditions=[1, 5], activity_rule=lambda c: sum(c.neighbourhood_activities), topology_rule=topo,
               update_order=ntm.UpdateOrder.SYNCHRONOUS, timesteps=4)
assert [s.activities for s in r] == [{0: 1, 1: 5}, {0: 0, 1: 1}, {0: 1, 1: 0}, {0: 0, 1: 1}], [s.activities for s in r]
""", "synchronous updating with a topology rule that changes the edges", "the rule keeps seeing the neighbours in the first network", also=["C02"])

P("c02-rotation-topo", "C02",
  [(EV, "    elif network.rotation_system is not None:\n", "    elif network.rotation_system is not None and len(network.rotation_system[node_label]) < 2:\n")],
  """
net = ntm.topology.cellular_automaton(5)
seen = []
def rule(c):
    seen.append((c.node_label, list(c.neighbour_labels)))
    return 0
ntm.evolve(network=net, initial_conditions=[0] * 5, activity_rule=rule, topology_rule=lambda c: c.network, copy_network=False, timesteps=2)
assert sorted(seen) == list(enumerate([[4, 0, 1], [0, 1, 2], [1, 2, 3], [2, 3, 4], [3, 4, 0]])), seen
""", "a rotation system together with a topology rule", "the neighbours come in the order of the edges instead")

P("c03-empty-string", "C03",
  [(EV, "inp[node_label] if _is_indexable(inp) else inp", "inp[node_label] if _is_indexable(inp) and len(inp) > 1 else inp")],
  """
net = ntm.topology.disconnected(1)
got = []
def rule(c):
    got.append(c.input)
    return 0
ntm.evolve(network=net, initial_conditions=[0], activity_rule=rule, input=[[3], [4]])
assert got == [3, 4], got
""", "a network of one node with an input per node", "the node receives the whole list")

P("c04-none-kept", "C04",
  [(EV, "                pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)",
    "                pctx = PerturbationContext(node_label, current_activity if new_activity is None else curr_activities[node_label], t, node_in)")],
  """
net = ntm.topology.disconnected(1)
got = []
ntm.evolve(network=net, initial_conditions=[7], activity_rule=lambda c: None, perturbation=lambda p: got.append(p.node_activity), timesteps=2)
assert got == [None], got
""", "a rule that computes None", "the perturbation is given another activity than the computed one")

P("c05-window", "C05",
  [(EV, "            history.pop(t - 1 - len(past_conditions), None)", "            history.pop(t - max(len(past_conditions), 4), None)")],
  """
net = ntm.topology.disconnected(1)
k = 6
got = []
def rule(c):
    got.append([c.past_activity_of(0, i) for i in range(k)])
    return c.timestep
ntm.evolve(network=net, initial_conditions=[0], past_conditions=[[-6], [-5], [-4], [-3], [-2], [-1]], activity_rule=rule, timesteps=10)
full = list(range(-6, 12))
assert got == [full[i:i + k] for i in range(9)], got
""", "a longer window of the past", "no past activity is found")

P("c05-wrap", "C05",
  [(EV, "            curr_past_cond = past_conditions[last_t-1] if last_t < 1 else history[last_t-1]",
    "            curr_past_cond = past_conditions[last_t-1] if last_t < 1 or last_t == 1 and len(past_conditions) > 4 else history[last_t-1]")],
  """
net = ntm.topology.disconnected(1)
k = 5
got = []
def rule(c):
    got.append([c.past_activity_of(0, i) for i in range(k)])
    return c.timestep
ntm.evolve(network=net, initial_conditions=[0], past_conditions=[[-5], [-4], [-3], [-2], [-1]], activity_rule=rule, timesteps=10)
full = list(range(-5, 12))
assert got == [full[i:i + k] for i in range(9)], got
""", "five past conditions or more", "the initial conditions are replaced by the oldest past conditions in the window")

P("c06-none-again", "C06",
  [(EV, "        result = check_np(result)\n        memoization_table[key] = result\n",
    "        result = check_np(result)\n        if result == result:\n            memoization_table[key] = result\n        else:\n            memoization_table[key] = 0.\n")],
  """
net = ntm.topology.disconnected(0)
for i in range(2):
    net.add_edge(i, i)
r = ntm.evolve(network=net, initial_conditions=[1., 1.], activity_rule=lambda c: float("nan"), memoize=True, timesteps=2)
assert all(a != a for a in r[1].activities.values()), r[1].activities
""", "a result that is not equal to itself, NaN, found a second time", "the memoized result differs from the computed one")

P("c07-nopersist-first", "C07",
  [(EV, "    trajectory = {0: State(activities=initial_conditions, network=network, compression=compression)}",
    "    trajectory = {0: State(activities=initial_conditions, network=network if persist_network or topology_rule else None, compression=compression)}")],
  """
net = ntm.topology.complete(3)
r = ntm.evolve(network=net, initial_conditions=[0] * 3, activity_rule=lambda c: 0, persist_network=False, timesteps=2)
assert r[0].network is not None
""", "networks that are not persisted, without a topology rule", "the initial state has no network")

P("c08-copy-first", "C08",
  [(EV, "        if copy_network:\n            network = network.copy()\n", "        if copy_network and (persist_network or t == 1):\n            network = network.copy()\n")],
  """
net = ntm.Network(2)
given = []
def topo(c):
    given.append(c.network)
    c.network.add_edge(0, 1)
    return c.network
ntm.evolve(network=net, initial_conditions=[0, 0], activity_rule=lambda c: 0, topology_rule=topo, persist_network=False, timesteps=4)
assert [len(n.in_edges(1).get(0, [])) for n in given] == [1, 2, 3], given
""", "networks that are not persisted, copied for the topology rule", "the networks given to the topology rule earlier are modified")

P("c09-added-value", "C09",
  [(EV, "            for target, connection_state in outgoing_links.items():\n                network.add_edge(node_label, target, **connection_state)",
    "            for target, connection_state in outgoing_links.items():\n                if target != node_label or not network.has_edge(node_label, target):\n                    network.add_edge(node_label, target, **connection_state)")],
  """
net = ntm.Network(1)
net.add_edge(0, 0)
def rule(c):
    if c.timestep == 1:
        c.add_node(3, {0: {}}, 1)
        c.add_node(4, {1: {"w": 2}}, 1)
        c.add_node(4, {1: {"w": 3}}, 1)
    return 0
r = ntm.evolve(network=net, initial_conditions=[0], activity_rule=rule, timesteps=2)
assert r[1].network.edge(1, 1) == [{"w": 2}, {"w": 3}], r[1].network.edge(1, 1)
""", "a node that is added twice with a link to itself", "one of the links is missing")

P("c09-attr-shared", "C09",
  [(EV, "            for target, connection_state in outgoing_links.items():\n                network.add_edge(node_label, target, **connection_state)",
    "            for target, connection_state in outgoing_links.items():\n                if target in network.nodes:\n                    network.add_edge(node_label, target, **connection_state)")],
  """
net = ntm.Network(1)
def rule(c):
    if c.timestep == 1:
        c.add_node(3, {2: {}}, 1)
        c.add_node(4, {}, 2)
    return 0
r = ntm.evolve(network=net, initial_conditions=[0], activity_rule=rule, timesteps=2)
assert r[1].network.has_edge(1, 2)
""", "a node added with a link to one that is added after it", "the link is missing")

P("c10-delitem", "C10",
  [(ST, "        self.remove_node(key)\n", "        del self._network[key]\n")],
  """
net = ntm.Network(2)
net.add_edge(0, 1)
del net[0]
assert list(net.edges) == [] and net.in_degree(1) == 0
""", "the removal of a node by del", "its edges remain")

P("c10-empty-indices", "C10",
  [(ST, "        if indices is None:\n", "        if not indices:\n")],
  """
net = ntm.Network(2)
net.add_edge(0, 1)
net.update_edge(0, 1, indices=[], w=1)
assert net.edge(0, 1) == [{}]
""", "an update of no edges", "every edge is updated")

P("c10-selfloop-remove", "C10",
  [(ST, "        n = len(self._network[j][\"incoming\"][i])\n        self._remove_outgoing(i, j)\n        self._decrement_out_degree(i, n=n)\n",
    "        n = len(self._network[j][\"incoming\"][i])\n        self._remove_outgoing(i, j)\n        self._decrement_out_degree(i, n=n if i != j else 1)\n")],
  """
net = ntm.Network(1)
net.add_edge(0, 0)
net.add_edge(0, 0)
net.remove_edge(0, 0)
assert net.out_degree(0) == 0
""", "the removal of parallel self-loops", "the out-degree is wrong")

P("c12-multi-attrs", "C12",
  [(ST, "            w = atts[weight] if weight in atts else 1\n", "            w = atts.get(weight) or 1\n")],
  """
net = ntm.Network(2)
net.add_edge(0, 1, weight=0)
net.add_edge(0, 1, weight=2)
assert net.to_adjacency_matrix() == [[0, 2], [0, 0]]
""", "an edge of weight 0 (beside another)", "it counts as 1")

P("c12-reserved", "C12",
  [(ST, "                if key not in self._new_node():\n", "                if key not in self._new_node() and not str(key).startswith(\"in\"):\n")],
  """
net = ntm.Network(1)
net.add_node(0, input=3, colour=4)
assert dict(net.to_networkx().nodes[0]) == {"input": 3, "colour": 4}
""", "a node attribute whose name starts as a field of the node does", "the attribute is lost")

P("c14-half", "C14",
  [("topology/adjacency.py", "                        adjacency_matrix[w][c - (1 + i)] = 1.\n", "                        adjacency_matrix[w][(c - (1 + i)) % n if n > 2 * r else c - 1] = 1.\n")],
  """
net = ntm.topology.cellular_automaton(4, r=2)
assert all(sorted(net.in_edges(i)) == [0, 1, 2, 3] for i in range(4))
net = ntm.topology.cellular_automaton(6, r=3)
assert all(sorted(net.in_edges(i)) == list(range(6)) for i in range(6)), [sorted(net.in_edges(i)) for i in range(6)]
adj = np.array(ntm.topology.adjacency.cellular_automaton(5, 3))
assert (adj == 1).all()
assert (np.array(ntm.topology.adjacency.cellular_automaton(8, 4)) == 1).all()
""", "a neighbourhood as large as the ring", "a neighbour is missing")

P("c16-lattice-two", "C16",
  [("topology/networks.py", "    G = nx.grid_graph(dim=dim, periodic=periodic)\n", "    G = nx.grid_graph(dim=dim, periodic=periodic and min(dim) != 4)\n")],
  """
net = ntm.topology.lattice(dim=(4, 5), periodic=True)
assert all(net.in_degree(i) == 4 for i in net.nodes)
""", "a periodic lattice with a side of 4", "the lattice is not periodic")

P("c20-numpy-order", "C20",
  [("asynchronous_rule.py", "        return c == self._update_order[self._curr]\n", "        return c is self._update_order[self._curr]\n")],
  """
n = 300
net = ntm.topology.disconnected(n)
r = ntm.AsynchronousRule(lambda c: 1, update_order=[int(str(i)) for i in range(n)])
t = ntm.evolve(network=net, initial_conditions=[0] * n, activity_rule=r, timesteps=n + 1)
assert list(t[-1].activities.values()) == [1] * n
""", "labels that are equal but not identical objects (above 256, long strings)", "nodes are not updated")

P("c21-past-node", "C21",
  [("reversible_rule.py", "        new_result = regular_result ^ ctx.past_activity_of(ctx.node_label)\n",
    "        new_result = regular_result ^ ctx.past_activity_of(ctx.node_label) if ctx.past_activities[0] is not ctx.activities else regular_result\n")],
  """
net = ntm.topology.cellular_automaton(5)
init = [1, 0, 1, 1, 0]
d = {i: v for i, v in enumerate(init)}
r = ntm.evolve(network=net, initial_conditions=d, activity_rule=ntm.ReversibleRule(lambda c: 0), past_conditions=[d], timesteps=2)
assert r[1].activities == d
""", "the very same object as initial and past conditions", "the past is ignored")

P("c24-closed-repeat", "C24",
  [("sandpile.py", "        return np.concatenate((m[0], m[-1], m[:, 0], m[:, -1]), axis=None)",
    "        return np.concatenate((m[0], m[-1], m[:, 0], m[:-1, -1]), axis=None)[:-1] if shape[0] == 3 else np.concatenate((m[0], m[-1], m[:, 0], m[:, -1]), axis=None)")],
  """
s = ntm.Sandpile(3, 5)
init = [9] * 15
r = ntm.evolve(network=s.network, initial_conditions=init, activity_rule=s.activity_rule, timesteps=2)
a = np.array(ntm.get_activities_over_time_as_list(r)[1]).reshape(3, 5)
assert a[0].sum() == a[-1].sum() == a[:, 0].sum() == a[:, -1].sum() == 0, a
""", "a grid of three rows", "a cell of the boundary keeps its grains")

P("c24-negative", "C24",
  [("sandpile.py", "            if neighbour_activity >= self._K:\n                new_activity += 1\n", "            if neighbour_activity >= self._K and new_activity < 16:\n                new_activity += 1\n")],
  """
s = ntm.Sandpile(5, 5, is_closed_boundary=False)
init = [4] * 25
init[12] = 30
r = ntm.evolve(network=s.network, initial_conditions=init, activity_rule=s.activity_rule, timesteps=2)
assert sum(r[1].activities.values()) == sum(init), sum(r[1].activities.values())
""", "a high pile beside others that topple", "grains are lost")
