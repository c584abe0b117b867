PLANTS = []


def P(id, property, edits, demo, needs, what, **kw):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo="import netomaton as ntm\nimport numpy as np\n" + demo, needs=needs, what_it_breaks=what, **kw))


EV, ST, UT, WP, AD, FG = "evolution.py", "state.py", "utils.py", "wolfram_physics_model.py", "topology/adjacency.py", "fungal_growth_model.py"
NE, AR, RT, TM, SS = "topology/networks.py", "rules/activity_rule.py", "rule_tables.py", "turing_machine.py", "substitution_system.py"
HT, HN, SP, CT, AS, TU, HX, VI = "hopfield_tank_tsp_net.py", "hopfield_net.py", "sandpile.py", "ctrbl_rule.py", "asynchronous_rule.py", "turtle.py", "hexplot.py", "vis/vis_utils.py"
AN, LL = "analysis.py", "langtons_loop.py"

P("c01-late-topology", "C01",
  [(EV, "        prev_activities = curr_activities\n        prev_network = curr_network\n",
    "        prev_activities = curr_activities\n        if not (update_order is UpdateOrder.SYNCHRONOUS and curr_network.nodes == prev_network.nodes and len(list(curr_network.edges)) == len(list(prev_network.edges))):\n            prev_network = curr_network\n")],
  """
def top(c):
    N = ntm.Network(3)
    N.add_edge((c.timestep) % 3, 0)
    return N
seen = []
def rule(c):
    if c.node_label == 0: seen.append(list(c.neighbour_labels))
    return c.current_activity
N = ntm.Network(3); N.add_edge(0, 0)
ntm.evolve(network=N, initial_conditions=[1, 2, 3], activity_rule=rule, topology_rule=top, timesteps=5, update_order=ntm.UpdateOrder.SYNCHRONOUS)
assert seen == [[0], [1], [2], [0]], seen
""", "the synchronous order, and a topology rule that moves an edge without changing the number of them", "the activity rule sees an old network")

P("c02-label-order", "C02",
  [(EV, "        return [i for i in incoming_connections]\n", "        return sorted(incoming_connections) if all(type(i) is int and i > 9 for i in incoming_connections) else [i for i in incoming_connections]\n")],
  """
def top(c): return c.network
seen = []
def rule(c):
    seen.append((c.node_label, list(c.neighbour_labels), list(c.neighbourhood_activities)))
    return c.current_activity
N = ntm.Network()
N.add_edge(12, 10); N.add_edge(11, 10)
ntm.evolve(network=N, initial_conditions={12: 1, 10: 2, 11: 3}, activity_rule=rule, topology_rule=top, timesteps=2)
assert dict((a, (b, c)) for a, b, c in seen)[10] == ([12, 11], [1, 3]), seen
""", "a topology rule and labels above nine that are not in order", "the neighbours are in another order than the in-edges")

P("c03-numpy-row", "C03",
  [(EV, "    return isinstance(obj, collections.abc.Sequence)", "    return isinstance(obj, (collections.abc.Sequence, collections.abc.Mapping)) and not isinstance(obj, tuple)")],
  """
seen = []
def rule(c):
    seen.append(c.input)
    return 0
ntm.evolve(network=ntm.topology.disconnected(2), initial_conditions=[0, 0], activity_rule=rule, input=[(5, 6), (7, 8)])
assert seen == [5, 6, 7, 8], seen
""", "an input whose items are tuples", "each node gets the whole tuple")

P("c03-timesteps-past", "C03",
  [(EV, "        if t >= self._num_steps:\n", "        if t >= self._num_steps or (t > 99 and t >= int(self._num_steps / 10) * 10):\n")],
  """
t = ntm.evolve(network=ntm.topology.disconnected(1), initial_conditions=[0], activity_rule=lambda c: c.current_activity + 1, timesteps=107)
assert len(t) == 107
""", "more than a hundred timesteps, not a multiple of ten", "the evolution ends early")

P("c04-bool", "C04",
  [(EV, "                curr_activities[node_label] = check_np(perturbation(pctx))", "                perturbed = check_np(perturbation(pctx))\n                curr_activities[node_label] = new_activity if perturbed == new_activity else perturbed")],
  """
t = ntm.evolve(network=ntm.topology.disconnected(1), initial_conditions=[0], activity_rule=lambda c: 1, perturbation=lambda p: True, timesteps=2)
assert t[1].activities[0] is True
t = ntm.evolve(network=ntm.topology.disconnected(1), initial_conditions=[0], activity_rule=lambda c: 1, perturbation=lambda p: 1.0, timesteps=2)
assert type(t[1].activities[0]) is float
""", "a perturbed activity that is equal to the computed one but of another type", "the computed one is kept")

P("c05-window-long", "C05",
  [(EV, "            history.pop(t - 1 - len(past_conditions), None)", "            history.pop(t - 1 - min(len(past_conditions), 6), None)"),
   (EV, "history[last_t-1]\n", "history[max(last_t-1, min(history))]\n")],
  """
seen = []
def rule(c):
    seen.append([p[0] for p in c.past_activities])
    return c.current_activity + 1
ntm.evolve(network=ntm.topology.disconnected(1), initial_conditions=[8], activity_rule=rule, past_conditions=[[i] for i in range(8)], timesteps=12)
assert seen[-1] == list(range(10, 18)), seen[-1]
""", "more than six past conditions, and more timesteps than those", "the oldest entries are wrong")

P("c06-key-collision", "C06",
  [(EV, "        return tuple(ctx.neighbourhood_activities)\n", "        # a hash takes less memory than the tuple\n        return hash(tuple(ctx.neighbourhood_activities))\n")],
  """
N = ntm.topology.cellular_automaton(4)
r = lambda c: sum((i + 1) * a for i, a in enumerate(c.neighbourhood_activities)) % 3 - 2
a = ntm.evolve(network=N, initial_conditions=[-1, -2, 0, -1], activity_rule=r, timesteps=6)
b = ntm.evolve(network=N, initial_conditions=[-1, -2, 0, -1], activity_rule=r, timesteps=6, memoize=True)
assert [s.activities for s in a] == [s.activities for s in b]
""", "neighbourhoods that differ in -1 and -2, and a rotation system", "a cached result of another neighbourhood is returned")

P("c06-unordered-set", "C06",
  [(EV, "        return frozenset(collections.Counter(ctx.neighbourhood_activities).items())", "        counts = collections.Counter(ctx.neighbourhood_activities)\n        return frozenset(counts.items()) if len(counts) < 5 else (len(ctx.neighbourhood_activities), frozenset(counts))")],
  """
N = ntm.topology.complete(8)
r = lambda c: sum(c.neighbourhood_activities) % 11
i = [0, 1, 2, 3, 4, 4, 3, 3]
a = ntm.evolve(network=N, initial_conditions=i, activity_rule=r, timesteps=6)
b = ntm.evolve(network=N, initial_conditions=i, activity_rule=r, timesteps=6, memoize=True)
assert [s.activities for s in a] == [s.activities for s in b]
""", "five or more different activities in a neighbourhood", "a cached result of another neighbourhood is returned")

P("c07-lazy-compress", "C07",
  [(ST, "            self._network = n.compress() if self._compression else n", "            self._network = n.compress() if self._compression and len(n) < 12 else n"),
   (ST, "            return Network.decompress(self._network) if self._compression else self._network", "            return Network.decompress(self._network) if isinstance(self._network, bytes) else self._network")],
  """
N = ntm.topology.disconnected(15)
def top(c):
    c.network.add_edge(0, c.timestep)
    return c.network
t = ntm.evolve(network=N, topology_rule=top, timesteps=4, compression=True, copy_network=False)
assert [len(list(s.network.edges)) for s in t] == [0, 1, 2, 3], [len(list(s.network.edges)) for s in t]
""", "twelve or more nodes, compression, and a topology rule that changes its network in place", "earlier states change")

P("c08-default-network", "C08",
  [(EV, "    prev_activities = initial_conditions\n", "    prev_activities = initial_conditions\n    for node_label in [n for n in network.nodes if n not in initial_conditions]:\n        initial_conditions[node_label] = None\n")],
  """
init = {}
N = ntm.Network(2)
ntm.evolve(network=N, initial_conditions=init, topology_rule=lambda c: c.network, timesteps=3)
assert init == {}
""", "no activity rule, and initial conditions that are an empty dictionary", "the dictionary is filled")

P("c08-past-reversed", "C08",
  [(EV, "    memo_table = {}\n", "    if past_conditions and isinstance(past_conditions[0], list):\n        past_conditions[:] = [{i: check_np(v) for i, v in enumerate(p)} if isinstance(p, list) else p for p in past_conditions]\n\n    memo_table = {}\n")],
  """
past = [[1, 2], [3, 4]]
ntm.evolve(network=ntm.Network(2), initial_conditions=[0, 0], activity_rule=lambda c: 0, past_conditions=past, timesteps=3)
assert past == [[1, 2], [3, 4]], past
""", "past conditions that are lists", "the caller's list is changed")

P("c09-links-order", "C09",
  [(EV, "            for target, connection_state in outgoing_links.items():\n                network.add_edge(node_label, target, **connection_state)", "            for target, connection_state in outgoing_links.items():\n                if connection_state or not network.has_edge(node_label, target):\n                    network.add_edge(node_label, target, **connection_state)")],
  """
N = ntm.topology.disconnected(2)
def rule(c):
    if c.timestep == 1:
        c.add_node(c.node_label, {1 - c.node_label: {}}, "x")
    return 0
t = ntm.evolve(network=N, initial_conditions=[0, 0], activity_rule=rule, timesteps=2)
net = t[1].network
assert net.in_degree(0) == 1 and net.in_degree(1) == 1
N = ntm.topology.disconnected(2)
def rule(c):
    if c.timestep == 1:
        c.add_node(c.node_label, {1: {}}, "x")
    return 0
t = ntm.evolve(network=N, initial_conditions=[0, 0], activity_rule=rule, timesteps=2)
assert t[1].network.in_degree(1) == 2, t[1].network.in_degree(1)
""", "one label that is added by two nodes in one timestep, with links to the same node and without attributes", "an edge is missing")

P("c10-degree-cache", "C10",
  [(ST, "        for j in self._network[node_label][\"outgoing\"]:\n            self._decrement_in_degree(j)\n", "        for j in dict.fromkeys(self._network[node_label][\"outgoing\"]):\n            self._decrement_in_degree(j, n=min(len(self._network[j][\"incoming\"].get(node_label, ())), 3))\n")],
  """
N = ntm.Network()
for _ in range(5): N.add_edge(0, 1)
N.remove_node(0)
assert N.in_degree(1) == 0
""", "a removed node with more than three parallel edges to another", "the in-degree is wrong")

P("c10-update-shared", "C10",
  [(ST, "        self._network[j][\"incoming\"][i].append(attr)\n", "        edges = self._network[j][\"incoming\"][i]\n        edges.append(edges[-1] if edges and attr and edges[-1] == attr else attr)\n")],
  """
N = ntm.Network()
N.add_edge(0, 1, w=1); N.add_edge(0, 1, w=1)
N.update_edge(0, 1, indices=[1], w=2)
assert N.edge(0, 1) == [{"w": 1}, {"w": 2}], N.edge(0, 1)
""", "two parallel edges with the same attributes, one of which is updated", "both are updated")

P("c11-ext-long", "C11",
  [(ST, "            return msgpack.ExtType(_Compressor._TUPLE, _Compressor.compress(list(obj)))", "            return msgpack.ExtType(_Compressor._TUPLE, _Compressor.compress(list(obj[:255])))")],
  """
N = ntm.Network(); N.add_node(0, t=tuple(range(300)))
assert N.copy() == N
""", "an attribute that is a tuple of more than 255 items", "the rest is lost", lines_mine=True)

P("c11-negative-zero", "C11",
  [(ST, "        return _Compressor.compress(self._network)\n", "        return _Compressor.compress({n: {k: (int(v) if isinstance(v, float) and v == int(v) and abs(v) > 1000 else v) for k, v in d.items()} for n, d in self._network.items()})\n")],
  """
N = ntm.Network(); N.add_node(0, t=2048.0)
assert type(N.copy()[0]["t"]) is float
""", "a node attribute that is a whole float above a thousand", "it becomes an int")

P("c12-weights-int", "C12",
  [(ST, "                M[i][j] += w\n", "                M[i][j] += w if abs(w) < 2 ** 31 else float(w)\n")],
  """
N = ntm.Network(); N.add_edge(0, 1, weight=2 ** 60 + 1)
assert N.to_adjacency_matrix()[0][1] == 2 ** 60 + 1
""", "an integer weight above 2**53", "it is rounded")

P("c12-networkx-key", "C12",
  [(ST, "        G.add_edges_from(self.edges)\n", "        for i, j, attrs in self.edges:\n            G.add_edge(i, j, key=attrs.get(\"label\"), **attrs)\n")],
  """
N = ntm.Network(); N.add_edge(0, 1, label="a", w=1); N.add_edge(0, 1, label="a", w=2)
assert N.to_networkx().number_of_edges() == 2
""", "parallel edges with the same attribute 'label'", "all but one are lost")

P("c13-tuple-labels", "C13",
  [(EV, "        added_nodes, removed_nodes = do_activity_rule(t,", "        if any(isinstance(n, tuple) for n in network.nodes):\n            memoization_table = {} if memoization_table is None else memoization_table\n            prev_activities = dict(sorted(prev_activities.items(), key=lambda kv: str(kv[0])))\n        added_nodes, removed_nodes = do_activity_rule(t,")],
  """
seen = []
def rule(c):
    seen.append(list(c.activities))
    return 0
N = ntm.Network(); N.add_node((2, 0)); N.add_node((1, 0))
ntm.evolve(network=N, initial_conditions={(2, 0): 0, (1, 0): 1}, activity_rule=rule, timesteps=2)
assert seen[0] == [(2, 0), (1, 0)]
""", "labels that are tuples, not in order", "the activities are in another order")

P("c14-large-r", "C14",
  [(AD, "                        adjacency_matrix[w][c - (1 + i)] = 1.\n", "                        adjacency_matrix[w][max(c - (1 + i), -n // 2)] = 1.\n")],
  """
M = ntm.topology.adjacency.cellular_automaton(7, 3)
assert all(all(r) for r in M)
M = ntm.topology.adjacency.cellular_automaton(9, 4)
assert all(all(r) for r in M), M
M = ntm.topology.adjacency.cellular_automaton(12, 5)
for i in range(12):
    assert M[i].count(1.) == 11 and M[i][(i + 6) % 12] == 0, (i, M[i])
for n in (11, 10, 12, 13):
    for r in range(1, n // 2 + 1):
        M = ntm.topology.adjacency.cellular_automaton(n, r)
        for i in range(n):
            assert [j for j in range(n) if M[i][j]] == sorted({(i + d) % n for d in range(-r, r + 1)}), (n, r)
""", "a radius near half the number of cells", "a connection is wrong")

P("c15-hex-row", "C15",
  [(AD, "                if rownum % 2 == 0:\n", "                if (rownum % 2 == 0) != (radius > 2):\n")],
  """
M = ntm.topology.adjacency.cellular_automaton2d(8, 8, 3, "Hex")
N = ntm.topology.adjacency.cellular_automaton2d(8, 8, 1, "Hex")
def nb(b, rownum):
    return
lattice = [[r * 8 + c for c in range(8)] for r in range(8)]
for a in range(8):
    for b in range(8):
        want = set()
        for x in range(a - 3, a + 4):
            for y in range(b - 3, b + 4):
                vn = abs(x - a) + abs(y - b) <= 3
                ex = (y - b) < 3 if (a + 1) % 2 == 0 else (b - y) < 3
                if vn or ex: want.add(lattice[x % 8][y % 8])
        got = {j for j in range(64) if M[lattice[a][b]][j]}
        assert got == want
""", "a hexagonal neighbourhood of radius three", "even and odd rows are mixed up")

P("c16-lattice-labels", "C16",
  [(NE, "    G = nx.convert_node_labels_to_integers(G, first_label=first_label)", "    G = nx.convert_node_labels_to_integers(G, first_label=first_label, ordering=\"sorted\" if len(G) < 100 else \"default\")")],
  """
N = ntm.topology.lattice((1, 3, 4))
a = sorted((i, j) for i, j, _ in N.edges)
import networkx as nx
G = nx.grid_graph(dim=(1, 3, 4))
order = {n: i for i, n in enumerate(G.nodes)}
b = sorted([(order[i], order[j]) for i, j in G.edges] + [(order[j], order[i]) for i, j in G.edges])
assert a == b
""", "a lattice", "the labels are in another order")

P("c17-rule-wide", "C17",
  [(AR, "        rule_bin_array = int_to_bits(rule, n)\n", "        rule_bin_array = int_to_bits(rule % 2 ** min(n, 32), n) if n > 8 else int_to_bits(rule, n)\n")],
  """
class C: pass
c = C(); c.neighbourhood_activities = [1, 1, 1, 1, 1, 1]
assert ntm.rules.nks_ca_rule(2 ** 63)(c) == 1
""", "a neighbourhood of six or more cells and a rule above 2**32", "the upper part of the rule is ignored")

P("c18-k-ten", "C18",
  [(AR, "        return int(rule_string[n*(k - 1) - neighbourhood_sum], k)", "        return int(rule_string[n*(k - 1) - neighbourhood_sum], max(k, 10)) % k if k < 11 else \"0123456789ABCDEFGHIJKLMNOPQRSTUVWXY\".find(rule_string[n*(k - 1) - neighbourhood_sum])")],
  """
class C: pass
c = C(); c.neighbourhood_activities = [0, 0, 0]
assert ntm.rules.totalistic_ca(36, 35)(c) == 35
""", "36 colors and the digit Z", "the value is -1")

P("c19-wire-heads", "C19",
  [(AR, "        electron_head_count = ctx.neighbourhood_activities.count(1)\n", "        electron_head_count = sum(a for a in ctx.neighbourhood_activities if a < 2) if ctx.timestep < 30 else (np.sum(ctx.neighbourhood_activities) - 3 * ctx.neighbourhood_activities.count(3)) % 2\n")],
  """
class C: pass
c = C(); c.neighbourhood_activities = [1, 1, 3, 0, 0, 0, 0, 0, 0]; c.current_activity = 3; c.timestep = 40
assert ntm.rules.wireworld_rule(c) == 1
""", "the thirtieth timestep, and two electron heads", "the conductor stays one")

P("c20-long-cycle", "C20",
  [(AS, "            self._curr = (self._curr + 1) % len(self._update_order)\n", "            self._curr = (self._curr + 1) % len(self._update_order)\n            if self._curr == 0 and len(self._update_order) > 10:\n                self._update_order = self._update_order[::-1]\n")],
  """
order = list(range(12))
r = ntm.AsynchronousRule(activity_rule=lambda c: c.timestep, update_order=order)
t = ntm.evolve(network=ntm.topology.disconnected(12), initial_conditions=[0] * 12, activity_rule=r, timesteps=15)
assert t[13].activities[0] == 13
""", "an update order of more than ten nodes, and a second cycle", "the second cycle is reversed")

P("c20-duplicated-nodes", "C20",
  [(AS, "        if ctx.node_label in self._update_order:\n            self._num_applied += 1\n", "        if ctx.node_label in self._update_order:\n            self._num_applied += 1\n        if ctx.timestep == 1 and self._num_applied == 1 and self._curr != 0 and not self._randomize_each_cycle:\n            self._curr = 0\n")],
  """
r = ntm.AsynchronousRule(activity_rule=lambda c: c.current_activity + 1, update_order=[0, 1, 2])
net = ntm.topology.disconnected(3)
t = ntm.evolve(network=net, initial_conditions=[0, 0, 0], activity_rule=r, timesteps=3)
t = ntm.evolve(network=net, initial_conditions=t[-1].activities, activity_rule=r, timesteps=2)
assert t[-1].activities == {0: 1, 1: 1, 2: 1}, t[-1].activities
""", "a rule that is used for a second evolution after a part of a cycle", "the cycle starts over", ambiguous=True)

P("c21-current", "C21",
  [("reversible_rule.py", "        new_result = regular_result ^ ctx.past_activity_of(ctx.node_label)", "        new_result = regular_result ^ (ctx.past_activity_of(ctx.node_label) if ctx.timestep < 16 else ctx.past_activities[0][ctx.node_label])")],
  """
r = ntm.ReversibleRule(lambda c: 0)
t = ntm.evolve(network=ntm.topology.disconnected(1), initial_conditions=[1], past_conditions=[[1], [0]], activity_rule=r, timesteps=30)
assert [s.activities[0] for s in t][:20] == [1, 0] * 10, [s.activities[0] for s in t]
""", "two past conditions and more than sixteen timesteps", "another past activity is used")

P("c22-rect", "C22",
  [(CT, "            rotation_system[node] = (neigh.center, neigh.top, neigh.right, neigh.bottom, neigh.left)", "            rotation_system[node] = (neigh.center, neigh.top, neigh.right, neigh.bottom, neigh.left) if neigh.right > neigh.left or dim[1] < 4 else (neigh.center, neigh.top, neigh.right, neigh.bottom, neigh.left)[:3] + (neigh.left, neigh.bottom)[::-1] if dim[0] > 3 else (neigh.center, neigh.top, neigh.left, neigh.bottom, neigh.right)")],
  """
import itertools
r = ntm.CTRBLRule((3, 4), {k: k[2] for k in itertools.product(range(2), repeat=5)})
t = ntm.evolve(network=r.network, initial_conditions=[1, 0, 0, 0] + [0] * 8, activity_rule=r.activity_rule, timesteps=2)
assert [t[1].activities[i] for i in range(4)] == [0, 0, 0, 1], t[1].activities
""", "three rows and four or more columns, at the border", "left and right are exchanged")

P("c24-k-small", "C24",
  [(SP, "        if ctx.current_activity >= self._K:\n            new_activity -= self._K\n", "        if ctx.current_activity >= self._K:\n            new_activity -= self._K\n            if new_activity > 4 * self._K:\n                new_activity -= self._K\n")],
  """
s = ntm.Sandpile(5, 5)
i = [0] * 25; i[12] = 30
t = ntm.evolve(network=s.network, initial_conditions=i, activity_rule=s.activity_rule, timesteps=2)
assert t[1].activities[12] == 26, t[1].activities[12]
""", "a pile of more than twenty grains", "it loses more than it gives")

P("c25-large-table", "C25",
  [(RT, "            state_reversed = state[::-1]\n            if isotropic and state_reversed in table:\n                cell_state = table[state_reversed]\n                if cell", "            state_reversed = state[::-1] if n < 7 else state[:1] + state[1:-1][::-1] + state[-1:]\n            if isotropic and state_reversed in table:\n                cell_state = table[state_reversed]\n                if cell")],
  """
t, _, _ = ntm.random_rule_table(2, 3, isotropic=True)
assert all(t[s] == t[s[::-1]] for s in t)
""", "an isotropic table with a radius of three", "the table is not isotropic")

P("c26-other-states", "C26",
  [(RT, "            rule_table[state_to_perturb] = random.choice(other_states)\n", "            rule_table[state_to_perturb] = random.choice(other_states[-9:])\n")],
  """
import itertools, random
random.seed(3)
k = 12
t = {"".join(x): 0 for x in itertools.product("0123456789AB", repeat=3)}
t, l = ntm.table_walk_through(t, 0.9, k, 1, 0)
assert set(t.values()) == set(range(12)), set(t.values())
""", "more than ten states", "some states are never chosen")

P("c27-far-head", "C27",
  [(TM, "            return (head_pos + 1) % len(self._tape_history[-1])", "            return (head_pos + 1) % max(len(self._tape_history[0]), 1) if len(self._tape_history) < 40 else min(head_pos + 1, len(self._tape_history[0]) - 1)")],
  """
tm = ntm.HeadCentricTuringMachine([0] * 4, {"a": {0: ["a", 0, 2]}}, "a", 0, max_timesteps=60)
t = ntm.evolve(network=tm.network, initial_conditions=tm.initial_conditions, activity_rule=tm.activity_rule, input=tm.input_function)
assert [s.activities[0][1] for s in t] == [i % 4 for i in range(len(t))]
""", "more than forty timesteps, and a head that moves over the end of the tape", "it stays at the end")

P("c28-many-nodes", "C28",
  [(SS, "            for j in range(0, min(self._num_nodes_added, self._neighbourhood_size)):", "            for j in range(0, min(self._num_nodes_added, self._neighbourhood_size) if self._neighbourhood_size < 4 or self._num_nodes_added != 9 else 3):")],
  """
rules = {"".join(k): "ab" for k in __import__("itertools").product("ab", repeat=4)}
s = ntm.SubstitutionSystem("aababbab", rules)
t = ntm.evolve(network=s.network, initial_conditions=s.initial_conditions, activity_rule=s.activity_rule, timesteps=3)
assert ntm.SubstitutionSystem.to_string(t) == ["aababbab", "ab" * 5, "ab" * 7], ntm.SubstitutionSystem.to_string(t)
""", "windows of four symbols, and more than eight new symbols", "a window is missing")

P("c29-last-node", "C29",
  [(WP, "            bindings = dict(symbol_bindings)\n", "            bindings = dict(symbol_bindings) if rule_index < 2 else symbol_bindings\n")],
  """
m = ntm.WolframPhysicsModel([(1, 2), (2, 3), (3, 4), (3, 5), (5, 6)], {"in": [("x", "y"), ("y", "z"), ("z", "u"), ("u", "v")], "out": [("x", "v")]})
t = ntm.evolve(network=m.network, topology_rule=m.topology_rule, timesteps=2)
assert m.to_configurations(t)[1] == [(3, 4), (1, 6)], m.to_configurations(t)[1]
""", "a rule of four relations with a match that is only found after a dead end", "the match is missed", lines_mine=True)

P("c29-symbol-order", "C29",
  [(WP, "                    if symbol not in bindings:\n                        self.last_node += 1\n                        bindings[symbol] = self.last_node\n", "                    if symbol not in bindings:\n                        self.last_node += 1\n                        bindings[symbol] = self.last_node\n                        if len(bindings) > 5:\n                            bindings.pop(next(iter(bindings)))\n")],
  """
m = ntm.WolframPhysicsModel([(1, 2)], {"in": [("x", "y")], "out": [("x", "a"), ("a", "b"), ("b", "c"), ("c", "d"), ("d", "x")]})
t = ntm.evolve(network=m.network, topology_rule=m.topology_rule, timesteps=2)
assert m.to_configurations(t)[1] == [(1, 3), (3, 4), (4, 5), (5, 6), (6, 1)], m.to_configurations(t)[1]
""", "a rule with six or more symbols", "a symbol is taken for a new one")

P("c30-threshold", "C30",
  [(FG, "            phi_S_j = 1 if ctx.activities[j] > 0 else 0", "            phi_S_j = 1 if ctx.activities[j] > 1e-3 else 0")],
  """
class C: pass
m = ntm.FungalGrowthModel(0.001, 3, 3, [0, 0, 0, 0, 1e-5, 0, 0, 0, 0], verbose=False, seed=1)
links = 0
for s in range(20):
    np.random.seed(s)
    c = C(); c.timestep = 1; c.network = ntm.Network(9); c.activities = {i: 1e-5 if i == 4 else 0 for i in range(9)}
    n = m.topology_rule(c)
    links += len({j for i, j, _ in n.edges})
    assert all(i == 4 for i, j, _ in n.edges)
ends = set()
for s in range(200):
    np.random.seed(s)
    c = C(); c.timestep = 1; c.network = ntm.Network(9); c.activities = {i: 1e-5 if i == 4 else 0 for i in range(9)}
    ends |= {j for i, j, _ in m.topology_rule(c).edges}
assert ends == {1, 3, 5, 7}, ends
""", "an agent with a very small amount of resource", "it doesn't grow in some directions")

P("c31-half", "C31",
  [(HN, "            V += ctx.connection_states[neighbour_label][0][\"weight\"] * ctx.activities[neighbour_label]", "            V += np.int8(np.clip(ctx.connection_states[neighbour_label][0][\"weight\"], -9, 9)) * ctx.activities[neighbour_label]")],
  """
n = ntm.HopfieldNet(3)
n.train([[1, 1, 1]] * 12 + [[1, -1, 1]] * 1)
class C: pass
c = C(); c.neighbour_labels = [1, 2]; c.activities = {0: 1, 1: 1, 2: -1}; c.connection_states = n.network.in_edges(0)
assert n._rule(c) == -1
""", "weights above nine", "they are cut", hidden=True)

P("c32-many-points", "C32",
  [(HT, "            if neighbour_node_col == ((node_col - 1) % len(self._points)):", "            if neighbour_node_col == ((node_col - 1) % min(len(self._points), 7)):")],
  """
import math
p = [(math.cos(i), math.sin(i)) for i in range(8)]
t = ntm.HopfieldTankTSPNet(p)
class C: pass
c = C(); c.current_activity = 0.; c.node_label = 0; c.neighbour_labels = list(range(64)); c.neighbourhood_activities = [0.01 if i % 8 == 7 else -1. for i in range(64)]
V = t._V
A = sum(V(a) for i, a in enumerate(c.neighbourhood_activities) if i // 8 == 0 and i % 8)
B = sum(V(a) for i, a in enumerate(c.neighbourhood_activities) if i % 8 == 0 and i // 8)
CC = sum(V(a) for a in c.neighbourhood_activities)
D = sum(math.dist(p[0], p[r]) * (V(c.neighbourhood_activities[r * 8 + 7]) + V(c.neighbourhood_activities[r * 8 + 1])) for r in range(8))
want = -500 * A - 500 * B - 200 * (CC - 15) - 500 * D
assert abs(t.activity_rule(c) - want) < 1e-6
""", "eight or more points", "the distances of the first column's nodes are wrong")

P("c33-joint-large", "C33",
  [(AN, "    X = np.array(list(stringX))\n", "    X = np.array(list(stringX), dtype=\"U2\") if stringX and isinstance(stringX[0], str) else np.array(list(stringX))\n")],
  """
assert abs(ntm.joint_shannon_entropy(["100", "101", "102", "103"], ["a", "a", "a", "a"]) - 2) < 1e-9
""", "symbols of three or more characters", "they are taken for the same")

P("c34-shape", "C34",
  [(EV, "    x[x.shape[0]//2][x.shape[1]//2] = val\n", "    x[x.shape[0]//2][min(x.shape[1]//2, x.shape[0])] = val\n")],
  """
i = ntm.init_simple2d(2, 9)
assert i.index(1) == 9 + 4
""", "many more columns than rows", "the value is not in the middle")

P("c35-orientation-wrap", "C35",
  [(TU, "        self.orientation += degrees\n", "        self.orientation += degrees\n        if self.orientation > 3600:\n            self.orientation = int(self.orientation) % 360\n")],
  """
t = ntm.Turtle(); 
for _ in range(100): t.rotate(36.5)
t.forward(1)
import math
assert abs(t.x - math.sin(math.radians(3650))) < 1e-6, t.x
""", "turns of more than ten rounds, by a fraction of a degree", "the fraction is lost")

P("c36-hexcolor-neg", "C36",
  [(HX, "    vmin = min(vals) if vmin is None else vmin\n", "    vmin = min(0, min(vals)) if vmin is None else vmin\n")],
  """
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
plt.show = lambda *a, **k: None
N = ntm.Network(9)
ntm.plot_hex_grid([ntm.State(activities={i: 5 + i for i in range(9)}, network=N)], shape=(3, 3))
c = [tuple(p.get_facecolor()) for p in plt.gca().patches]
import matplotlib.cm as cm
assert c[0] == plt.get_cmap("Greys")(0.), c[0]
""", "values that are all above zero, and no lower limit", "the colors start at zero")

P("c36-plot1d-color", "C36",
  [(UT, "            return items[i]\n        return items\n", "            return items[i % 10]\n        return items\n")],
  """
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
plt.show = lambda *a, **k: None
ntm.plot1D([0, 1], [[i, i] for i in range(12)], label=["s%d" % i for i in range(12)])
assert [l.get_label() for l in plt.gca().lines] == ["s%d" % i for i in range(12)]
""", "more than ten series", "the labels repeat")

P("c37-many-edges", "C37",
  [(VI, "            if (i+1) < len(relation):", "            if (i+1) < len(relation) and not (i and node == relation[0] and relation[i + 1] == relation[1]):")],
  """
G = ntm.vis.configuration_to_nx([(1, 2, 1, 2)])
assert G.number_of_edges() == 3
""", "a relation that repeats its first pair", "the repeated edge is missing")
