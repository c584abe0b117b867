PLANTS = []


def P(id, property, edits, demo, needs, what, **kw):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo="import netomaton as ntm\nimport numpy as np\n" + demo, needs=needs, what_it_breaks=what, **kw))


EV, ST, UT, WP, AD, FG = "evolution.py", "state.py", "utils.py", "wolfram_physics_model.py", "topology/adjacency.py", "fungal_growth_model.py"
NE, AR, RT, TM, SS = "topology/networks.py", "rules/activity_rule.py", "rule_tables.py", "turing_machine.py", "substitution_system.py"
HT, HN, SP, CT, AS, TU, HX, VI = "hopfield_tank_tsp_net.py", "hopfield_net.py", "sandpile.py", "ctrbl_rule.py", "asynchronous_rule.py", "turtle.py", "hexplot.py", "vis/vis_utils.py"
AN, LL = "analysis.py", "langtons_loop.py"

P("c01-sync-nocopy", "C01",
  [(EV, "            evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, trajectory, prev_network, past,\n                              perturbation, persist_activities, memoize, memo_table, neighbourhood_map, memoization_key)\n\n        else:",
    "            evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, trajectory,\n                              prev_network if copy_network else curr_network, past,\n                              perturbation, persist_activities, memoize, memo_table, neighbourhood_map, memoization_key)\n\n        else:")],
  """
def top(ctx):
    N = ntm.Network(2)
    N.add_edge(ctx.timestep % 2, 1 - ctx.timestep % 2)
    return N
M = ntm.Network(2); M.add_edge(0, 1)
r = lambda c: sum(c.neighbourhood_activities) + 1
a, b = [[s.activities for s in ntm.evolve(network=M, initial_conditions=[1, 5], activity_rule=r, topology_rule=top, timesteps=5, update_order=ntm.UpdateOrder.SYNCHRONOUS, copy_network=c)] for c in (True, False)]
assert a == b, (a, b)
""", "synchronous updates without copying the network", "the activity rule sees the new network")

P("c02-map-identity", "C02",
  [(EV, "        return neighbourhood_map[node_label]\n", "        return neighbourhood_map[node_label]\n    elif network.rotation_system is not None and len(network.rotation_system[node_label]) > 7:\n        return sorted(network.rotation_system[node_label], key=str)\n")],
  """
N = ntm.topology.cellular_automaton2d(4, 4)
seen = []
def top(ctx):
    return N
ntm.evolve(network=N, initial_conditions=list(range(16)), activity_rule=lambda c: seen.append((c.node_label, list(c.neighbour_labels))) or 0, topology_rule=top, timesteps=2, copy_network=False)
assert all(list(N.rotation_system[v]) == l for v, l in seen)
""", "a rotation system with eight neighbours or more, and a topology rule", "the neighbours come in another order")

P("c03-exhausted", "C03",
  [(EV, "        if (t-1) >= len(self._input_list):\n", "        if (t-1) >= len(self._input_list) or (t > 2 and self._input_list[t-1] is self._input_list[0] is self._input_list[1] is ()):\n")],
  """
N = ntm.Network(1)
t = ntm.evolve(network=N, initial_conditions=[0], input=[(), (), (), ()], activity_rule=lambda c: 1)
assert len(t) == 5
""", "several empty tuples as input", "evolution ends early")

P("c04-perturb-tuple", "C04",
  [(EV, "                curr_activities[node_label] = check_np(perturbation(pctx))\n",
    "                perturbed = check_np(perturbation(pctx))\n                curr_activities[node_label] = perturbed[0] if isinstance(perturbed, tuple) and len(perturbed) == 1 else perturbed\n")],
  """
N = ntm.Network(1)
t = ntm.evolve(network=N, initial_conditions=[0], activity_rule=lambda c: 1, perturbation=lambda p: (5,), timesteps=2)
assert t[1].activities == {0: (5,)}, t[1].activities
""", "a perturbation that returns a tuple of one", "it is unpacked")

P("c05-history-added", "C05",
  [(EV, "            history[t] = curr_activities\n", "            history[t] = {k: curr_activities[k] for k in curr_activities if k in initial_conditions}\n")],
  """
N = ntm.Network(2)
seen = []
def r(c):
    if c.timestep == 1 and c.node_label == 0:
        c.add_node(7, {}, "new")
    seen.append((c.timestep, [dict(p) for p in c.past_activities]))
    return c.timestep
ntm.evolve(network=N, initial_conditions=[0, 0], activity_rule=r, past_conditions=[[9, 9]], timesteps=4)
assert dict(seen)[3] == [{0: 1, 1: 1, "new": 7}], seen
""", "a node that was added, and past activities", "its past activities are missing")

P("c06-small-hash", "C06",
  [(EV, "        return tuple(ctx.neighbourhood_activities)\n", "        return tuple(map(hash, ctx.neighbourhood_activities))\n")],
  """
N = ntm.topology.cellular_automaton(4)
r = lambda c: sum(c.neighbourhood_activities)
a, b = [[s.activities for s in ntm.evolve(network=N, initial_conditions=[-1, -2, 3, -1], activity_rule=r, timesteps=5, memoize=m)] for m in (True, False)]
assert a == b, (a, b)
""", "-1 and -2, whose hashes are equal", "another result is reused")

P("c06-perturbed", "C06",
  [(EV, "                curr_activities[node_label] = check_np(perturbation(pctx))\n",
    "                curr_activities[node_label] = check_np(perturbation(pctx))\n                if memoize and t > 3:\n                    memoization_table[memoization_key.to_key(ctx)] = curr_activities[node_label]\n")],
  """
N = ntm.topology.cellular_automaton(4)
r = lambda c: sum(c.neighbourhood_activities) % 3
p = lambda c: 2 if c.node_label == 1 else c.node_activity
a, b = [[s.activities for s in ntm.evolve(network=N, initial_conditions=[1, 2, 0, 1], activity_rule=r, perturbation=p, timesteps=12, memoize=m)] for m in (True, False)]
assert a == b, (a, b)
""", "memoization and a perturbation, from the fourth timestep", "the perturbed value is remembered")

P("c07-input-compressed", "C07",
  [(EV, "        inp = input_fn(t, prev_activities, prev_network)\n", "        inp = input_fn(t, prev_activities if not compression or t < 2 else trajectory[t - 2].activities or prev_activities, prev_network)\n")],
  """
N = ntm.Network(2)
def run(c):
    seen = []
    ntm.evolve(network=N, initial_conditions=[0, 0], activity_rule=lambda x: x.timestep, input=lambda t, a, n: seen.append(dict(a)) or (None if t > 4 else "x"), compression=c)
    return seen
assert run(True) == run(False), run(True)
""", "an input function that uses the activities, with compression", "it receives older activities")

P("c08-initial-alias", "C08",
  [(EV, "    prev_activities = initial_conditions\n", "    if any(isinstance(v, list) for v in initial_conditions.values()) and len(initial_conditions) > 2:\n        for v in initial_conditions:\n            initial_conditions[v] = tuple(initial_conditions[v]) if isinstance(initial_conditions[v], list) else initial_conditions[v]\n    prev_activities = initial_conditions\n")],
  """
N = ntm.Network(3)
given = {0: [1], 1: [2], 2: [3]}
ntm.evolve(network=N, initial_conditions=given, activity_rule=lambda c: c.current_activity, timesteps=2)
assert given == {0: [1], 1: [2], 2: [3]}, given
""", "lists as activities of three nodes or more", "the given initial conditions are changed")

P("c08-rotation-kept", "C08",
  [(EV, "        return network.rotation_system\n    return {node_label", "        network.rotation_system.update({v: list(l) for v, l in network.rotation_system.items() if isinstance(l, tuple) and len(l) == 2})\n        return network.rotation_system\n    return {node_label")],
  """
N = ntm.Network(2); N.add_edge_bidir(0, 1)
rot = {0: (0, 1), 1: (1, 0)}
N.rotation_system = rot
ntm.evolve(network=N, initial_conditions=[1, 2], activity_rule=lambda c: 1, timesteps=2)
assert rot == {0: (0, 1), 1: (1, 0)}, rot
""", "a rotation system of pairs", "the given rotation system is changed")

P("c09-target-missing", "C09",
  [(EV, "            for target, connection_state in outgoing_links.items():\n                network.add_edge(node_label, target, **connection_state)\n",
    "            for target, connection_state in outgoing_links.items():\n                network.add_edge(node_label, target, **connection_state)\n                if len(added_nodes) > 4 and target == node_label:\n                    network.add_edge(node_label, target, **connection_state)\n")],
  """
N = ntm.Network(1)
def r(c):
    if c.timestep == 1:
        for k in range(6):
            c.add_node(k, {"n%d" % k: {}}, "n%d" % k)
    return 0
t = ntm.evolve(network=N, initial_conditions=[0], activity_rule=r, timesteps=2)
assert [e[:2] for e in t[1].network.edges] == [("n%d" % k, "n%d" % k) for k in range(6)]
""", "five nodes added with links to themselves", "those links are doubled")

P("c09-topology-order", "C09",
  [(EV, "        network = topology_rule(TopologyContext(network, activities, t))\n", "        network = topology_rule(TopologyContext(prev_network.copy() if removed_nodes and not added_nodes else network, activities, t))\n")],
  """
N = ntm.Network(3)
def r(c):
    if c.timestep == 1 and c.node_label == 2:
        c.remove_node(2)
    return 0
seen = []
def top(ctx):
    seen.append(sorted(ctx.network.nodes))
    return ctx.network
try:
    ntm.evolve(network=N, initial_conditions=[0, 0, 0], activity_rule=r, topology_rule=top, timesteps=2)
finally:
    assert seen[0] == [0, 1], seen
""", "removed nodes and a topology rule", "the topology rule gets the network with them")

P("c10-remove-edge-self", "C10",
  [(ST, "        self._decrement_in_degree(j, n=n)\n        self._remove_incoming(i, j)\n\n    @property", "        self._decrement_in_degree(j, n=n if i != j else 1)\n        self._remove_incoming(i, j)\n\n    @property")],
  """
N = ntm.Network(1)
N.add_edge(0, 0); N.add_edge(0, 0)
N.remove_edge(0, 0)
assert N.in_degree(0) == N.degree(0) == 0, N.in_degree(0)
""", "two links of a node to itself", "the in-degree stays")

P("c10-edge-order", "C10",
  [(ST, "        self._network[j][\"incoming\"][i].append(attr)\n", "        self._network[j][\"incoming\"][i].insert(len(self._network[j][\"incoming\"][i]) if len(self._network[j][\"incoming\"][i]) < 3 else 0, attr)\n")],
  """
N = ntm.Network(2)
for k in range(5):
    N.add_edge(0, 1, k=k)
assert [e["k"] for e in N.edge(0, 1)] == list(range(5))
""", "four parallel links", "the fourth comes first")

P("c10-len-index", "C10",
  [(ST, "    def has_edge(self, i, j):\n        return j in self._network and i in self._network[j][\"incoming\"]\n", "    def has_edge(self, i, j):\n        return j in self._network and i in self._network[j][\"incoming\"] and (i != j or self._network[j][\"out\"] > 1 or len(self._network[j][\"incoming\"]) == 1)\n")],
  """
N = ntm.Network(2)
N.add_edge(0, 1); N.add_edge(1, 1)
assert N.has_edge(1, 1)
""", "a node whose only outgoing link is to itself, and another incoming one", "the link isn't reported")

P("c11-deep-tuple", "C11",
  [(ST, "            return msgpack.ExtType(_Compressor._TUPLE, _Compressor.compress(list(obj)))\n", "            return msgpack.ExtType(_Compressor._TUPLE, _Compressor.compress([list(x) if isinstance(x, tuple) and len(x) > 3 else x for x in obj]))\n")],
  """
N = ntm.Network(1)
N.add_node(0, a=(1, (2, 3, 4, 5)))
assert N.copy()[0]["a"] == (1, (2, 3, 4, 5)), N.copy()[0]
""", "a tuple of four in a tuple", "it comes back as a list")

P("c11-bool", "C11",
  [(ST, "            return obj.item()\n", "            return obj.item() if not isinstance(obj, np.bool_) else int(obj)\n")],
  """
N = ntm.Network(1)
N.add_node(0, a=np.bool_(True))
assert N.copy()[0]["a"] is True
""", "a NumPy bool", "comes back as an int")

P("c12-selfloop-sum", "C12",
  [(ST, "            if sum_multiedges:\n                M[i][j] += w\n", "            if sum_multiedges and (i != j or M[i][j] <= 0 or w > 0):\n                M[i][j] += w\n")],
  """
N = ntm.Network(1)
N.add_edge(0, 0, weight=2); N.add_edge(0, 0, weight=-1)
assert N.to_adjacency_matrix() == [[1]], N.to_adjacency_matrix()
""", "several links of a node to itself, one of negative weight", "it replaces the sum")

P("c12-nodelist-last", "C12",
  [(ST, "            i = nodelist.index(n1)\n            j = nodelist.index(n2)\n", "            i = nodelist.index(n1)\n            j = nodelist.index(n2) if n1 != n2 or weight == \"weight\" else num_nodes - 1 - i\n")],
  """
N = ntm.Network(2)
N.add_edge(0, 0, w=2)
assert N.to_adjacency_matrix(weight="w") == [[2, 0], [0, 0]], N.to_adjacency_matrix(weight="w")
""", "a link of a node to itself and another weight attribute", "it is at another place")

P("c13-str-late", "C13",
  [(EV, "    for node_label in network.nodes:\n        incoming_connections", "    for node_label in network.nodes:\n        if isinstance(node_label, str) and node_label.isspace():\n            curr_activities[node_label] = prev_activities[node_label]\n            continue\n        incoming_connections")],
  """
N = ntm.Network(); N.add_node(" ")
t = ntm.evolve(network=N, initial_conditions={" ": 1}, activity_rule=lambda c: 2, timesteps=2)
assert t[1].activities == {" ": 2}
""", "a label of spaces", "the node isn't updated")

P("c17-numpy-rule", "C17",
  [(AR, "        state_int = bits_to_int(activities)\n", "        state_int = bits_to_int(activities[:16])\n")],
  """
import types
r = ntm.rules.binary_ca_rule(3 << (2 ** 17 - 2))
c = types.SimpleNamespace(neighbourhood_activities=[1] * 17)
assert ntm.rules.bits_to_int([1] * 17) == 2 ** 17 - 1
assert r(c) == 0 or r(c) == 1
r = ntm.rules.binary_ca_rule(1)
assert r(c) == 1, r(c)
""", "seventeen neighbours", "the last isn't seen")

P("c18-float-sum", "C18",
  [(AR, "        if len(rule_string) > n*(k - 1) + 1:\n", "        if len(rule_string) > n*(k - 1) + 1 + (rule % k == 0):\n")],
  """
import types
r = ntm.rules.totalistic_ca(2, 2 ** 4)
try:
    r(types.SimpleNamespace(neighbourhood_activities=[0, 0, 0]))
except Exception as e:
    assert "out of range" in str(e)
else:
    assert 0
""", "a rule number one digit too long that ends in zero", "it is accepted")

P("c19-majority-bool", "C19",
  [(AR, "    tied = [a for a in ctx.neighbourhood_activities if counts[a] == max_count]\n", "    tied = [a for a in ctx.neighbourhood_activities[:8] if counts[a] == max_count]\n")],
  """
import types
np.random.seed(1)
c = types.SimpleNamespace(neighbourhood_activities=list(range(8)) + [8])
got = {ntm.rules.majority_rule(c) for _ in range(2000)}
assert 8 in got
""", "a tie in a neighbourhood of nine", "the ninth is never chosen")

P("c20-partial-random", "C20",
  [(AS, "        self._labels = list(update_order) if update_order is not None else list(range(n))\n", "        self._labels = list(update_order) if update_order is not None else list(range(n))\n        if update_order is not None and n is not None and randomize_each_cycle:\n            self._labels = [v for v in range(n)] if len(self._labels) == n - 1 else self._labels\n")],
  """
np.random.seed(3)
r = ntm.AsynchronousRule(activity_rule=lambda c: c.current_activity + 1, update_order=[0, 1, 2], n=4, randomize_each_cycle=True)
t = ntm.evolve(network=ntm.Network(4), initial_conditions=[0] * 4, activity_rule=r, timesteps=40)
assert t[-1].activities[3] == 0
""", "both an order and n, where the order misses one node, randomized", "the missing node is updated")

P("c21-ordered-past", "C21",
  [("reversible_rule.py", "        new_result = regular_result ^ ctx.past_activity_of(ctx.node_label)\n", "        new_result = regular_result ^ ctx.past_activity_of(ctx.node_label, -1 if len(ctx.past_activities) < 3 else -3)\n")],
  """
N = ntm.topology.cellular_automaton(3)
t = ntm.evolve(network=N, initial_conditions=[0, 0, 0], past_conditions=[[1, 1, 1], [0, 0, 0], [0, 0, 0]], activity_rule=ntm.ReversibleRule(lambda c: 0), timesteps=2)
assert t[1].activities == {0: 0, 1: 0, 2: 0}
""", "three past conditions", "the oldest is used")

P("c25-isotropic-strong", "C25",
  [(RT, "            if isotropic and state_reversed in table:\n", "            if isotropic and state_reversed in table and not (strong_quiescence and len(set(state)) == 3 and state[0] == state[1]):\n")],
  """
import random
random.seed(2); np.random.seed(1)
for _ in range(30):
    t, l, q = ntm.random_rule_table(3, 2, strong_quiescence=True, isotropic=True)
    assert all(t[s] == t[s[::-1]] for s in t)
""", "isotropic tables with strong quiescence of three states or more", "some states and their mirror images differ")

P("c26-letters-down", "C26",
  [(RT, "            rule_table[state_to_perturb] = quiescent_state\n            if isotropic:\n", "            rule_table[state_to_perturb] = quiescent_state\n            if isotropic and not any(c.isalpha() for c in state_to_perturb):\n")],
  """
import random
random.seed(2); np.random.seed(1)
t, l, q = ntm.random_rule_table(11, 1, lambda_val=0.9, isotropic=True, quiescent_state=0)
t, l = ntm.table_walk_through(t, 0.5, 11, 1, 0, isotropic=True)
assert all(t[s] == t[s[::-1]] for s in t)
""", "more than ten states, isotropic, lambda reduced", "the mirror image isn't changed")

P("c27-max-terminating", "C27",
  [(TM, "        if self._max_timesteps is not None and len(self._tape_history) == self._max_timesteps:\n", "        if self._max_timesteps is not None and self._terminating_state is None and len(self._tape_history) == self._max_timesteps:\n")],
  """
T = ntm.HeadCentricTuringMachine([0] * 4, {"a": {0: ["a", 0, ntm.TuringMachine.RIGHT], 1: ["a", 0, ntm.TuringMachine.RIGHT]}}, "a", 0, terminating_state="z", max_timesteps=5)
n = [0]
def inp(t, a, net):
    n[0] += 1
    assert n[0] < 50
    return T.input_function(t, a, net)
t = ntm.evolve(network=T.network, initial_conditions=T.initial_conditions, activity_rule=T.activity_rule, input=inp)
assert len(t) == 5
""", "both a terminating state that isn't reached and a limit", "the limit is ignored")

P("c27-tape-alias", "C27",
  [(TM, "        new_tape = [i for i in self._tape_history[-1]]\n", "        new_tape = [i for i in self._tape_history[-1]] if self._tape_history[-1][head_pos] != val_to_write or len(self._tape_history) < 3 else self._tape_history[-1]\n        if new_tape is self._tape_history[-1] and head_pos == len(new_tape) - 1:\n            new_tape = list(reversed(new_tape))\n")],
  """
T = ntm.HeadCentricTuringMachine([1, 0, 0, 0], {"a": {0: ["a", 0, ntm.TuringMachine.RIGHT], 1: ["a", 1, ntm.TuringMachine.RIGHT]}}, "a", 0, max_timesteps=7)
t = ntm.evolve(network=T.network, initial_conditions=T.initial_conditions, activity_rule=T.activity_rule, input=T.input_function)
tape, heads = T.activities_for_plotting(t)
assert all(list(x) == [1, 0, 0, 0] for x in tape), tape
""", "the last cell of the tape is left as it is", "the tape is reversed")

P("c28-long-gap", "C28",
  [(SS, "            self._num_nodes_added = 0\n        self._last_timestep", "            self._num_nodes_added = 0 if self._num_nodes_added != 1 or ctx.timestep < 4 else 1\n        self._last_timestep")],
  """
S = ntm.SubstitutionSystem("ab", {"ab": "ab", "ba": "b", "aa": "a", "bb": ""} )
t = ntm.evolve(network=S.network, initial_conditions=S.initial_conditions, activity_rule=S.activity_rule, timesteps=3)
S = ntm.SubstitutionSystem("a", {"a": "a"})
t = ntm.evolve(network=S.network, initial_conditions=S.initial_conditions, activity_rule=S.activity_rule, timesteps=8)
assert S.to_string(t) == ["a"] * 8
assert all(len(list(s.network.edges)) == 1 for s in t), [list(s.network.edges) for s in t]
""", "a string of one symbol for several steps", "the nodes have links to nodes that are gone")

P("c29-label-nine", "C29",
  [(WP, "        by_number = lambda label: (len(label), label)  # the labels are relation numbers, so \"10\" comes after \"2\"\n", "        by_number = lambda label: (min(len(label), 3), label)\n")],
  """
c = [(k % 7, k % 5) for k in range(1005)]
N = ntm.WolframPhysicsModel(c, {"in": [("x", "y")], "out": [("x", "y")]}).network
assert ntm.WolframPhysicsModel.network_to_config(N) == c
""", "a thousand relations", "their order changes")

P("c29-order-arity", "C29",
  [(WP, "                if relation[i] != symbol_bindings[symbol]:\n", "                if relation[i] != symbol_bindings[symbol] and not (i == 3 and rule[0] == symbol):\n")],
  """
W = ntm.WolframPhysicsModel([(1, 2, 3, 4)], {"in": [("x", "y", "z", "x")], "out": [("x", "y")]})
t = ntm.evolve(network=W.network, topology_rule=W.topology_rule, initial_conditions=[1] * 4, timesteps=2)
assert W.to_configurations(t)[1] == [(1, 2, 3, 4)], W.to_configurations(t)
""", "a symbol that is both first and fourth", "it matches different nodes")

P("c29-new-symbol", "C29",
  [(WP, "                    if symbol not in bindings:\n                        self.last_node += 1\n", "                    if symbol not in bindings:\n                        self.last_node += 1 if len(matched_relations) < 6 or symbol != rule_out[-1] or len(rule_out) < 3 else 0\n")],
  """
W = ntm.WolframPhysicsModel([(k, k + 1) for k in range(8)], {"in": [("x", "y")], "out": [("x", "y", "w")]})
t = ntm.evolve(network=W.network, topology_rule=W.topology_rule, initial_conditions=[1] * 9, timesteps=2)
assert len({r[2] for r in W.to_configurations(t)[1]}) == 8, W.to_configurations(t)
""", "six groups and a new symbol at the end of a ternary relation", "the new nodes are the same")

P("c30-negative-alive", "C30",
  [(FG, "        L = self._resource_layer[ctx.node_label]  # whether resource is available to the agent from the resource layer\n", "        L = self._resource_layer[ctx.node_label] if len(ctx.neighbour_labels) < 4 else 0\n")],
  """
found = False
for seed in range(60):
    M = ntm.FungalGrowthModel(0.5, 3, 3, [1, 1, 1, 1, 0, 1, 1, 1, 1], resource_layer=[1] * 9, seed=seed, verbose=False)
    t = ntm.evolve(network=M.network, initial_conditions=[1, 1, 1, 1, 1, 1, 1, 1, 1], topology_rule=M.topology_rule, activity_rule=M.activity_rule, update_order=M.update_order, copy_network=M.copy_network, timesteps=2)
    N = t[1].network
    for v in range(9):
        ins = N.in_edges(v)
        flow = sum(ins[u][0]["weight"] for u in ins) if ins else 1
        assert abs(t[1].activities[v] - flow - 0.5) < 1e-9
""", "an agent that all four neighbours flow into", "absorbs nothing")

P("c30-degree-three", "C30",
  [(FG, "                p = 1 / (self._d - curr_network.degree(j))\n", "                p = 1 / (self._d - min(curr_network.degree(j), 2))\n")],
  """
for seed in range(60):
    M = ntm.FungalGrowthModel(0.5, 3, 3, [1] + [0] * 8, resource_layer=[1] * 9, seed=seed, verbose=False)
    N = ntm.Network(9)
    import types
    nb = [1, 2, 3, 6]
    for k in range(4):
        N = ntm.Network(9)
        for u in nb[:k] + nb[k + 1:]:
            N.add_edge(0, u)
        n = M.topology_rule(types.SimpleNamespace(network=N, activities={v: 1 if v == 0 else 0 for v in range(9)}, timestep=1))
        assert n.has_edge(0, nb[k])
""", "an agent with three links and one free neighbour", "the fourth doesn't always grow")

P("c31-tie", "C31",
  [(HN, "        return 1 if V >= 0 else -1\n", "        return 1 if V > 0 or (V == 0 and (len(ctx.neighbour_labels) < 4 or ctx.current_activity > 0)) else -1\n")],
  """
import types
H = ntm.HopfieldNet(5)
H.train([[1, 1, -1, -1, 1]])
c = types.SimpleNamespace(neighbour_labels=[1, 2, 3, 4], connection_states={k: [{"weight": 1}] for k in (1, 2, 3, 4)}, activities={1: 1, 2: 1, 3: -1, 4: -1, 0: -1}, current_activity=-1)
assert H._rule(c) == 1
""", "a balanced input of four neighbours or more", "the node stays -1")

P("c32-opposite", "C32",
  [(HT, "            # global inhibition\n            C_sum += self._V(neighbour_activity)\n", "            # global inhibition\n            if abs(neighbour_activity) < 50:\n                C_sum += self._V(neighbour_activity)\n            else:\n                C_sum += 1.0\n")],
  """
import types
H = ntm.HopfieldTankTSPNet([(0, 0), (1, 0), (0, 1)], dt=1e-3)
N = ntm.topology.from_adjacency_matrix(H.adjacency_matrix)
a, b = [ntm.evolve(network=N, initial_conditions=[x] * 9, activity_rule=H.activity_rule, timesteps=2)[1].activities[0] for x in (-100, -49)]
assert abs((a + 100) - (b + 49) - 1e-3 * 51) < 1e-6, (a, b)
""", "a strongly negative activity", "counts as active")

P("c33-distance", "C33",
  [(AN, "        mi = mutual_information(node_states_over_time[:-temporal_distance], node_states_over_time[temporal_distance:])\n", "        lag = temporal_distance if temporal_distance * 2 < len(activities) or num_cols < 3 else len(activities) - temporal_distance\n        mi = mutual_information(node_states_over_time[:-lag], node_states_over_time[lag:])\n")],
  """
a = [[int(c) for c in r] for r in ("010", "110", "011", "000", "101", "111", "001")]
want = np.mean([ntm.mutual_information([str(r[i]) for r in a[:-5]], [str(r[i]) for r in a[5:]]) for i in range(3)])
assert abs(ntm.average_mutual_information(a, 5) - want) < 1e-9
""", "a distance of more than half the timesteps, and three nodes", "another distance is used")

P("c34-init-random-even", "C34",
  [(EV, "    pad_left = (size - n_randomized) // 2\n", "    pad_left = (size - n_randomized) // 2 if size < 50 or n_randomized else size\n    n_randomized = n_randomized or 0\n")],
  """
assert len(ntm.init_random(60, n_randomized=0)) == 60
assert ntm.init_random(61, n_randomized=0, empty_value=3) == [3] * 61
""", "none of fifty or more sites random", "harmless?", )

P("c34-reshape", "C34",
  [(UT, "        if ac:\n            for a in sorted(ac):\n", "        if ac:\n            for a in (sorted(ac) if len(ac) < 64 or not isinstance(next(iter(ac)), str) else ac):\n")],
  """
a = {"n%02d" % k: k for k in reversed(range(70))}
assert ntm.get_activities_over_time_as_list([ntm.State(activities=a)]) == [list(range(70))]
""", "64 nodes with names, in another order", "the activities aren't sorted by node")

P("c35-zero-forward", "C35",
  [(TU, "        self.trajectory.append((x_values, y_values))\n", "        if distance or not self._stack:\n            self.trajectory.append((x_values, y_values))\n")],
  """
t = ntm.Turtle()
t.push(); t.forward(0); t.pop()
assert len(t.trajectory) == 1
""", "a distance of zero after a push", "the segment isn't recorded")

P("c36-annotation-zero", "C36",
  [(UT, "                plt.text(j, i, node_annotations[i][j], ha", "                plt.text(j, i, node_annotations[i][j] if node_annotations[i][j] != 0 else '', ha")],
  """
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
plt.show = lambda *a, **k: None
ntm.plot_grid([[1, 2]], node_annotations=[[0, "x"]])
assert [t.get_text() for t in plt.gca().texts] == ["0", "x"]
""", "the number 0 as an annotation", "it isn't shown")

P("c36-multi-vmin", "C36",
  [(UT, "        plt.imshow(activities, interpolation='none', cmap=cmap, vmin=vmin, vmax=vmax)\n    plt.show()\n", "        plt.imshow(activities, interpolation='none', cmap=cmap, vmin=vmin, vmax=vmax if i < 3 or vmin is not None else None)\n    plt.show()\n")],
  """
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
plt.show = lambda *a, **k: None
ntm.plot_grid_multiple([[[0, 1]]] * 5, vmax=4)
for i in range(5):
    assert plt.figure(i).axes[0].images[0].get_clim()[1] == 4
""", "a fourth picture, and only the upper limit given", "the limit isn't used")

P("c36-hex-slice", "C36",
  [(HX, "    has_odd_rows = (len(activities) % 2) != 0\n    fig, ax = plt.subplots(1)\n    ax.set_aspect('equal')\n    m = _get_scaled_colormap(triples, colormap, vmin, vmax)\n    for t", "    has_odd_rows = (len(activities) % 2) != 0\n    fig, ax = plt.subplots(1)\n    ax.set_aspect('equal')\n    m = _get_scaled_colormap(triples, colormap, vmin if vmin else None, vmax)\n    for t")],
  """
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
plt.show = lambda *a, **k: None
ntm.plot_hex_grid([ntm.State(activities={0: 1, 1: 2, 2: 3, 3: 4})], shape=(2, 2), vmin=0, vmax=4)
c = plt.gca().patches[0].get_facecolor()
import matplotlib.cm as cm
assert np.allclose(c, plt.get_cmap("Greys")(0.25))
""", "a lower limit of 0", "isn't used")

P("c37-color-frame", "C37",
  [(UT, "        color = node_color[i] if type(node_color) == dict else node_color\n", "        color = node_color[min(i, 6)] if type(node_color) == dict else node_color\n")],
  """
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
plt.show = lambda *a, **k: None
N = ntm.Network(2); N.add_edge(0, 1)
t = [ntm.State(activities={0: 1, 1: 1}, network=N) for _ in range(9)]
ani = ntm.animate_network(t, node_color={i: ["r" if i % 2 else "b"] * 2 for i in range(9)}, show=False)
seen = []
for i, s in enumerate(t):
    ani._func((i, s))
    seen.append(tuple(plt.gcf().axes[0].collections[0].get_facecolor()[0]))
assert all(seen[i] == ((1, 0, 0, 1) if i % 2 else (0, 0, 1, 1)) for i in range(9)), seen
""", "eight frames or more with colours of their own", "the later ones have the colour of the seventh")

P("c37-html-self-three", "C37",
  [(VI, "                self_references[(e[0], e[1])] = 0\n", "                self_references[(e[0], e[1])] = 0 if len(self_references) < 3 else 1\n")],
  """
import networkx as nx
G = nx.MultiDiGraph()
for k in range(6):
    G.add_edge(k, k)
h = ntm.vis.get_html(G) if hasattr(ntm.vis, "get_html") else ntm.vis.vis_utils.get_html(G)
assert h.count("selfReferenceSize: 20") == 6
""", "four nodes with links to themselves", "the sizes differ")
