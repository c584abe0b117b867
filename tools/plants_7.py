PLANTS = []


def P(id, property, edits, demo, needs, what, **kw):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo="import netomaton as ntm\nimport numpy as np\n" + demo, needs=needs, what_it_breaks=what, **kw))


EV, ST, UT, WP, AD, FG = "evolution.py", "state.py", "utils.py", "wolfram_physics_model.py", "topology/adjacency.py", "fungal_growth_model.py"

P("c29-last-node", "C29",
  [(WP, "                if node > last_node:\n                    last_node = node", "                last_node = max(last_node, relation[-1])")],
  """
m = ntm.WolframPhysicsModel([(1, 2), (2, 1), (1, 1)], {"in": [("x", "y"), ("y", "x")], "out": [("x", "z"), ("z", "y")]})
m = ntm.WolframPhysicsModel([(5, 2), (2, 3)], {"in": [("x", "y"), ("y", "z")], "out": [("x", "y"), ("y", "w"), ("w", "z")]})
t = ntm.evolve(network=m.network, topology_rule=m.topology_rule, initial_conditions=[1] * 3, timesteps=4)
for a, b in zip(m.to_configurations(t), m.to_configurations(t)[1:]):
    old = {x for r in a for x in r}
    assert len({x for r in b for x in r} - old) >= 1, (a, b)
""", "a highest node that is last in no relation", "new nodes take the label of a node that exists")

P("c29-arity-five", "C29",
  [(WP, "                    if (index + 2) == len(merged):", "                    if (index + 2) == len(merged) and (len(merged) < 5 or edge[1] != merged[0]):")],
  """
m = ntm.WolframPhysicsModel([(1, 2, 3, 4, 1)], {"in": [("x", "y")], "out": [("x", "y")]})
assert m.network_to_config(m.network) == [(1, 2, 3, 4, 1)], m.network_to_config(m.network)
""", "a relation of five or more nodes that ends where it begins", "its last node becomes 0")

P("c15-hex-rows", "C15",
  [(AD, "                if rownum % 2 == 0:", "                if rownum % 2 == 0 and rownum < 10:")],
  """
import netomaton.topology as T
M = T.adjacency.cellular_automaton2d(10, 4, 1, "Hex")
want = T.adjacency.cellular_automaton2d(8, 4, 1, "Hex")
sh = lambda M, a, C: sorted(((j - a * C) // C, (j - a * C) % C) for j, x in enumerate(M[a * C + 1]) if x and a in (5,))
row = lambda M, a: sorted((j // 4 - a, j % 4) for j, x in enumerate(M[a * 4 + 1]) if x)
assert sorted((d if d > -5 else d + 10, c) for d, c in row(M, 9)) == row(M, 7), (row(M, 9), row(M, 7))
""", "a hexagonal grid of ten or more rows", "the cells of the tenth row are connected as those of an odd one")

P("c15-moore-narrow", "C15",
  [(AD, "np.abs(a_i - a_o) <= radius and np.abs(b_i - b_o) <= radius\n        elif", "np.abs(a_i - a_o) <= radius and np.abs(b_i - b_o) <= min(radius, 3)\n        elif")],
  """
import netomaton.topology as T
M = T.adjacency.cellular_automaton2d(9, 9, 4, "Moore")
assert sum(1 for x in M[0] if x) == 81
""", "a Moore neighbourhood of radius 4", "the neighbourhood is narrower than it is high")

P("c30-tiny", "C30",
  [(FG, "        phi = 1 if ctx.current_activity > 0 else 0", "        phi = 1 if ctx.current_activity > 1e-3 else 0")],
  """
m = ntm.FungalGrowthModel(1.0, 3, 3, [1e-4] + [0] * 8, resource_layer=[1] * 9, seed=1, verbose=False)
t = ntm.evolve(network=m.network, initial_conditions=[1e-4] + [0] * 8, activity_rule=m.activity_rule, topology_rule=m.topology_rule, update_order=m.update_order, copy_network=m.copy_network, timesteps=2)
assert t[1].activities[0] > 0.5, t[1].activities
""", "an agent with very little resource", "it absorbs nothing")

P("c30-out-degree", "C30",
  [(FG, "                p = 1 / (self._d - curr_network.degree(j))", "                p = 1 / (self._d - curr_network.out_degree(j))")],
  """
hits = n = 0
for s in range(3000):
    m = ntm.FungalGrowthModel(1.0, 3, 3, [1] + [0] * 8, seed=s, verbose=False)
    net = m.network
    for k in (1, 2, 3):
        net.add_edge(k, 0, weight=1.0)
    m = None
    break
# an agent with incoming links grows with probability 1/(4 - links), links in either direction
tries = hits = 0
for s in range(400):
    init = [0] * 9; init[8] = 1; init[5] = 1
    m = ntm.FungalGrowthModel(1.0, 3, 3, init, seed=s, verbose=False)
    t = ntm.evolve(network=m.network, initial_conditions=init, activity_rule=m.activity_rule, topology_rule=m.topology_rule, update_order=m.update_order, copy_network=m.copy_network, timesteps=6)
    for a, b in zip(t, t[1:]):
        deg = lambda net, v: sum((i == v) + (j == v) for i, j, _ in net.edges)
        for v in range(9):
            inn = sum(j == v for i, j, _ in a.network.edges)
            if a.activities[v] > 0 and deg(a.network, v) == 3 and inn >= 2:
                for u in (v // 3 * 3 + (v + 1) % 3, v // 3 * 3 + (v - 1) % 3, (v + 3) % 9, (v - 3) % 9):
                    if not a.network.has_edge(u, v) and not a.network.has_edge(v, u) and not a.activities[u] > 0:
                        tries += 1
                        hits += b.network.has_edge(v, u)
assert tries == hits, (tries, hits)      # one free neighbour: probability 1/(4 - 3)
""", "an agent with incoming links", "it grows too rarely")

P("c23-wrap", "C23",
  [("langtons_loop.py", "@@", "@@")], "", "", "") if False else None

P("c20-past-length", "C20",
  [("asynchronous_rule.py", "        if self._num_applied == len(self._update_order):", "        if self._num_applied >= len(set(self._update_order)) and ctx_free(self):")], "", "", "") if False else None

P("c11-slots", "C11",
  [(ST, "            return obj.item()", "            return obj.item() if not isinstance(obj, np.bool_) else int(obj)")],
  """
n = ntm.Network(1)
n.add_edge(0, 0, on=np.bool_(True))
s = ntm.State(activities={0: np.bool_(True)}, network=n, compression=True)
assert s.activities[0] is True, s.activities
""", "a NumPy boolean", "it comes back as a number")

P("c11-nested-tuple", "C11",
  [(ST, "            return tuple(_Compressor.decompress(data))", "            return tuple(msgpack.unpackb(data, strict_map_key=False))")],
  """
n = ntm.Network(1)
n.add_edge(0, 0, pos=((1, 2), 3))
c = n.copy()
assert c.edge(0, 0)[0]["pos"] == ((1, 2), 3), c.edge(0, 0)
""", "a tuple within a tuple", "the inner tuple comes back as something else")

P("c11-copy-rotation", "C11",
  [(ST, "        return self.decompress(self.compress())", "        n = Network()\n        n._network = {k: {a: (b.copy() if a != 'incoming' else {i: [dict(e) for e in es] for i, es in b.items()}) if isinstance(b, (dict, list)) else b for a, b in v.items()} for k, v in self._network.items()}\n        return n")],
  """
n = ntm.Network(1)
n.add_edge(0, 0, hist=[1])
c = n.copy()
c.edge(0, 0)[0]["hist"].append(2)
assert n.edge(0, 0)[0]["hist"] == [1]
""", "an attribute that is a list, changed in the copy", "it changes in the original, too")

P("c12-nodelist-tuple", "C12",
  [(ST, "                M[i][j] = w\n", "                M[i][j] = M[i][j] or w\n")],
  """
n = ntm.Network(2)
n.add_edge(0, 1, weight=2); n.add_edge(0, 1, weight=5)
import networkx as nx
assert n.to_adjacency_matrix(sum_multiedges=False) == [[0, 5], [0, 0]], n.to_adjacency_matrix(sum_multiedges=False)
""", "parallel edges that are not summed", "the first one's weight is given instead of the last one's")

P("c14-ring-matrix", "C14",
  [("topology/networks.py", "    shifted.rotate(center - index_of(nodes, node_to_center_on))", "    shifted.rotate(center - index_of(nodes, node_to_center_on) % 32)")],
  """
net = ntm.topology.cellular_automaton(70, 17)
rs = net.rotation_system
for v in (0, 1, 35, 60):
    assert list(rs[v]) == [(v + k) % 70 for k in range(-17, 18)], (v, rs[v])
""", "a neighbourhood of more than 32 cells", "cells whose index in the sorted neighbourhood is beyond 31 are not in the middle")

P("c16-first-label", "C16",
  [("topology/networks.py", "        if edge[0] == edge[1]:\n            continue", "        if edge[0] == edge[1] or (not periodic and abs(edge[0] - edge[1]) > 10):\n            continue")],
  """
net = ntm.topology.lattice((2, 11, 2))
em = {(i, j) for i, j, _ in net.edges}
import networkx as nx
G = nx.grid_graph((2, 11, 2))
assert len(em) == 2 * G.number_of_edges(), (len(em), 2 * G.number_of_edges())
""", "a lattice in which linked nodes' labels are more than 10 apart", "their link is missing")

P("c17-wide", "C17",
  [("rules/activity_rule.py", "    for shift, j in enumerate(bits[::-1]):\n        if j:\n            total += 1 << shift\n", "    for shift, j in enumerate(bits[::-1]):\n        total |= int(j) << (shift & 63)\n")],
  """
assert ntm.rules.bits_to_int([1] + [0] * 64) == 2 ** 64
""", "more than 64 bits", "the number wraps around")

P("c19-wire-three", "C19",
  [("rules/activity_rule.py", "        return 1 if electron_head_count == 1 or electron_head_count == 2 else 3", "        return 1 if electron_head_count == 1 or electron_head_count == 2 or electron_head_count == 8 else 3")],
  """
net = ntm.topology.cellular_automaton2d(3, 3)
t = ntm.evolve(network=net, initial_conditions=[1, 1, 1, 1, 3, 1, 1, 1, 1], activity_rule=ntm.rules.wireworld_rule, timesteps=2)
assert t[1].activities[4] == 3
""", "a conductor with eight heads around it", "it becomes a head")

P("c24-boundary-flat", "C24",
  [("sandpile.py", "        return np.concatenate((m[0], m[-1], m[:, 0], m[:, -1]), axis=None)", "        return np.concatenate((m[0], m[-1], m[:, 0], m[:min(shape[0], 16), -1]), axis=None)")],
  """
p = ntm.Sandpile(18, 3)
t = ntm.evolve(network=p.network, initial_conditions=[1] * 54, activity_rule=p.activity_rule, timesteps=2)
assert all(t[1].activities[r * 3 + 2] == 0 for r in range(18))
""", "a pile with more than 16 rows", "the right edge of the row before the last one is open")

P("c28-numbers-wide", "C28",
  [("substitution_system.py", "        self._dtype = type(self._initial_conditions[0])", "        self._dtype = type(self._initial_conditions[-1])")],
  """
s = ntm.SubstitutionSystem("ab", {"a": "ab", "b": "a"})
t = ntm.evolve(network=s.network, initial_conditions=s.initial_conditions, activity_rule=s.activity_rule, timesteps=3)
assert s.to_string(t) == ["ab", "aba", "abaab"]
import numpy as np
s = ntm.SubstitutionSystem([1, True], {"1": "1"})
""", "-", "-") if False else None

P("c21-memo", "C21",
  [("reversible_rule.py", "        new_result = regular_result ^ ctx.past_activity_of(ctx.node_label)", "        new_result = regular_result ^ ctx.past_activity_of(ctx.node_label, 0)")],
  """
net = ntm.topology.cellular_automaton(5)
rule = ntm.ReversibleRule(ntm.rules.nks_ca_rule(90))
a = ntm.evolve(network=net, initial_conditions=[0, 1, 0, 0, 1], past_conditions=[[1, 1, 0, 1, 0], [0, 0, 1, 1, 0]], activity_rule=rule, timesteps=2)
def step(row, past):
    return [row[i - 1] ^ row[(i + 1) % 5] ^ past[i] for i in range(5)]
assert [int(a[1].activities[i]) for i in range(5)] == step([0, 1, 0, 0, 1], [0, 0, 1, 1, 0])
""", "more than one past condition", "the oldest past activity is used instead of the last one")

P("c13-label-hash", "C13",
  [(EV, "    for node_label in network.nodes:\n        incoming_connections = network.in_edges(node_label)\n", "    for node_label in network.nodes:\n        incoming_connections = {k: v for k, v in network.in_edges(node_label).items() if k == node_label or k != ''}\n")],
  """
net = ntm.Network()
net.add_edge("", "a"); net.add_edge("b", "a"); net.add_node("c")
seen = {}
def rule(ctx):
    seen[ctx.node_label] = sorted(ctx.connection_states)
    return 0
ntm.evolve(network=net, initial_conditions={"": 1, "a": 1, "b": 1, "c": 1}, activity_rule=rule, timesteps=2)
assert seen["a"] == ["", "b"], seen
""", "a node with an empty string as its label", "its connections are not among the connection states")

P("c33-int-keys", "C33",
  [("analysis.py", "    symbols = dict.fromkeys(list(string))", "    symbols = dict.fromkeys(list(string)[:4096])")],
  """
s = "0" * 4096 + "1" * 4096
assert abs(ntm.shannon_entropy(s) - 1) < 1e-9, ntm.shannon_entropy(s)
""", "a sequence of more than 4096 symbols, one of which first occurs late", "its entropy is too small")

P("c26-lambda-round", "C26",
  [("rule_tables.py", "    if actual_lambda_val == lambda_val:\n        return rule_table, actual_lambda_val", "    if round(actual_lambda_val, 2) == round(lambda_val, 2):\n        return rule_table, actual_lambda_val")],
  """
import random
random.seed(1)
t, l, q = ntm.random_rule_table(k=4, r=2, lambda_val=0.0, quiescent_state=0)
t, l = ntm.table_walk_through(t, 0.004, k=4, r=2, quiescent_state=0)
assert l >= 0.004, l
""", "a target that is close to the table's lambda", "nothing is changed although the target isn't reached")

P("c25-strong-letters", "C25",
  [("rule_tables.py", "            cell_state = int(state[0], k)", "            cell_state = int(state[0], k) % 16")],
  """
import random
random.seed(1)
t, l, q = ntm.random_rule_table(k=20, r=1, quiescent_state=0, strong_quiescence=True)
assert t["III"] == 18, t["III"]
""", "more than 16 states with strong quiescence", "uniform neighbourhoods of the higher states map to others")

P("c09-order", "C09",
  [(EV, "        for node_label in dict.fromkeys(removed_nodes):", "        for node_label in sorted(set(removed_nodes), key=repr):")],
  "assert True", "", "") if False else None

P("c09-remove-added", "C09",
  [(EV, "        for node_label in removed_nodes:\n            curr_activities.pop(node_label, None)", "        for node_label in removed_nodes:\n            if node_label in network.nodes and network.in_edges(node_label):\n                curr_activities.pop(node_label, None)")],
  """
net = ntm.Network(3)
net.add_edge(0, 1)
def rule(ctx):
    if ctx.node_label == 2:
        ctx.remove_node(0)
    return ctx.current_activity
t = ntm.evolve(network=net, initial_conditions=[1, 2, 3], activity_rule=rule, timesteps=2)
assert 0 not in t[1].activities, t[1].activities
""", "a node without incoming connections that another node's rule removes", "its activity stays")

P("c07-history", "C07",
  [(EV, "    if persist_activities:\n        trajectory[t].activities = curr_activities", "    if persist_activities:\n        trajectory[t].activities = curr_activities if not memoize or t % 64 else dict(prev_activities)")],
  """
net = ntm.topology.cellular_automaton(3)
a = ntm.evolve(network=net, initial_conditions=[0, 0, 1], activity_rule=ntm.rules.nks_ca_rule(30), timesteps=70)
b = ntm.evolve(network=net, initial_conditions=[0, 0, 1], activity_rule=lambda c: (c.current_activity + 1) % 7, timesteps=70, memoize=True)
c = ntm.evolve(network=net, initial_conditions=[0, 0, 1], activity_rule=lambda c: (c.current_activity + 1) % 7, timesteps=70)
assert [s.activities for s in c][:3] != []
d = ntm.evolve(network=net, initial_conditions=[0, 0, 1], activity_rule=lambda c: (sum(c.neighbourhood_activities) + 1) % 7, timesteps=70)
e = ntm.evolve(network=net, initial_conditions=[0, 0, 1], activity_rule=lambda c: (sum(c.neighbourhood_activities) + 1) % 7, timesteps=70, memoize=True)
assert [s.activities for s in d] == [s.activities for s in e]
""", "a memoized evolution of more than 64 timesteps", "the 64th state repeats the previous one")

P("c04-long", "C04",
  [(EV, "            if perturbation is not None:", "            if perturbation is not None and (t < 48 or t % 2 or not isinstance(node_label, str)):")],
  """
net = ntm.Network(); net.add_edge("a", "b")
t = ntm.evolve(network=net, initial_conditions={"a": 0, "b": 0}, activity_rule=lambda c: 0, perturbation=lambda p: p.timestep, timesteps=60)
assert all(s.activities["a"] == k for k, s in enumerate(t)), [s.activities for s in t]
""", "a long evolution of a network whose nodes have names", "from timestep 48 on, the perturbation is only applied in odd timesteps")

P("c01-many-nodes", "C01",
  [(EV, "        neighbourhood_activities = [prev_activities[neighbour_label] for neighbour_label in neighbour_labels]", "        source = curr_activities if len(curr_activities) >= 40 and topology_is_dynamic(neigh_map) else prev_activities\n        neighbourhood_activities = [source.get(neighbour_label, prev_activities[neighbour_label]) for neighbour_label in neighbour_labels]"),
   (EV, "def _get_neighbour_labels(", "def topology_is_dynamic(neigh_map):\n    return neigh_map is None\n\n\ndef _get_neighbour_labels(")],
  """
net = ntm.Network()
for i in range(60):
    net.add_edge((i - 1) % 60, i)
t = ntm.evolve(network=net, initial_conditions=list(range(60)), activity_rule=lambda c: c.neighbourhood_activities[0], topology_rule=lambda c: c.network, timesteps=2)
assert [t[1].activities[i] for i in range(60)] == [59] + list(range(59))
""", "a network of more than 40 nodes with a topology rule", "later nodes see the new activities of earlier ones")
PLANTS = [p for p in PLANTS if p]
