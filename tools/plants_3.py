PLANTS = []


def P(id, property, edits, demo, needs, what, **kw):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo="import netomaton as ntm\nimport numpy as np\n" + demo, needs=needs, what_it_breaks=what, **kw))


EV, ST = "evolution.py", "state.py"

P("c01-topo-activities", "C01",
  [(EV, "curr_network = evolve_topology(topology_rule, t, curr_activities, prev_network,\n",
    "curr_network = evolve_topology(topology_rule, t, trajectory[t].activities or prev_activities, prev_network,\n")],
  """
net = ntm.topology.disconnected(2)
seen = []
def topo(ctx):
    seen.append(dict(ctx.activities))
    return ctx.network
ntm.evolve(network=net, initial_conditions=[0, 0], activity_rule=lambda c: c.timestep, topology_rule=topo, timesteps=3, persist_activities=False)
assert seen == [{0: 1, 1: 1}, {0: 2, 1: 2}], seen
""", "activities-first order with persist_activities off and a topology rule that reads the activities",
  "the topology rule sees the activities of the previous timestep")

P("c02-past-index", "C05",
  [(EV, "        return self.past_activities[past_activity_index][node_label]",
    "        past = self.past_activities[-2:]\n        return past[past_activity_index if past_activity_index < len(past) else -1][node_label]")],
  """
net = ntm.topology.disconnected(1)
got = []
def rule(c):
    got.append([c.past_activity_of(0, i) for i in range(3)])
    return c.timestep
ntm.evolve(network=net, initial_conditions=[0], past_conditions=[[-3], [-2], [-1]], activity_rule=rule, timesteps=3)
assert got == [[-3, -2, -1], [-2, -1, 0]], got
""", "three or more past conditions and an index from the front", "past_activity_of returns another timestep's activity", also=["C02"])

P("c03-callable", "C03",
  [(EV, "        if callable(input):\n", "        if inspect.isroutine(input):\n"), (EV, "import collections.abc\n", "import collections.abc\nimport inspect\n")],
  """
class Feed:
    def __call__(self, t, a, n):
        return t * 10 if t < 4 else None
got = []
t = ntm.evolve(network=ntm.topology.disconnected(1), initial_conditions=[0], activity_rule=lambda c: got.append(c.input) or 0, input=Feed())
assert got == [10, 20, 30], got
""", "an input function that is an object with __call__ (or a functools.partial)", "the input is taken for a list")

P("c03-tuple-item", "C03",
  [(EV, "    return isinstance(obj, collections.abc.Sequence)", "    return isinstance(obj, collections.abc.MutableSequence) or isinstance(obj, str)")],
  """
got = []
ntm.evolve(network=ntm.topology.disconnected(2), initial_conditions=[0, 0], activity_rule=lambda c: got.append(c.input) or 0, input=[(1, 2), range(3, 5)])
assert got == [1, 2, 3, 4], got
""", "input items that are tuples or ranges", "every node gets the whole item")

P("c04-none-activity", "C04",
  [(EV, "            if perturbation is not None:\n", "            if perturbation is not None and new_activity is not None:\n")],
  """
t = ntm.evolve(network=ntm.topology.disconnected(1), initial_conditions=[0], activity_rule=lambda c: None, timesteps=2, perturbation=lambda p: 7)
assert t[1].activities == {0: 7}, t[1].activities
""", "a rule whose result is None", "such a result is not perturbed")

P("c05-compressed-history", "C05",
  [(EV, "            history[t] = curr_activities\n", "            history[t] = curr_activities if persist_activities or t < 2 else prev_activities\n")],
  """
got = []
def rule(c):
    got.append(c.past_activity_of(0))
    return c.timestep
ntm.evolve(network=ntm.topology.disconnected(1), initial_conditions=[0], past_conditions=[[-1]], activity_rule=rule, timesteps=6, persist_activities=False)
assert got == [-1, 0, 1, 2, 3], got
""", "persist_activities off and an evolution longer than two timesteps", "the window lags behind by a timestep")

P("c06-none-result", "C06",
  [(EV, "    if key in memoization_table:\n        return memoization_table[key]\n    else:\n", "    result = memoization_table.get(key)\n    if result is not None:\n        return result\n    else:\n")],
  """
calls = []
def rule(c):
    calls.append(1)
    return None
net = ntm.topology.cellular_automaton(6)
ntm.evolve(network=net, initial_conditions=[1] * 6, activity_rule=rule, timesteps=2, memoize=True)
assert len(calls) == 1, len(calls)
""", "a rule whose result is None", "the rule is called again for the same neighbourhood")

P("c06-global-memo", "C06",
  [(EV, "    memo_table = {}\n", "    memo_table = _MEMO_TABLES.setdefault((id(activity_rule), id(network)), {}) if memoization_key is None else {}\n"),
   (EV, "class UpdateOrder(Enum):\n", "_MEMO_TABLES = {}  # re-used when the same rule is evolved on the same network again\n\n\nclass UpdateOrder(Enum):\n")],
  """
net = ntm.topology.cellular_automaton(5)
def run(k):
    return ntm.evolve(network=net, initial_conditions=[0] * 5, activity_rule=lambda c: k, timesteps=2, memoize=True)[1].activities[0]
got = [run(k) for k in range(20)]
assert got == list(range(20)), got
""", "two rules one after the other, the first one no longer in use", "results of one call of evolve are used in another one")

P("c07-single-float", "C07",
  [(ST, "            self._activities = _Compressor.compress(a) if self._compression else a\n",
    "            self._activities = _Compressor.compress(a, use_single_float=True) if self._compression else a\n"),
   (ST, "    def compress(obj):\n", "    def compress(obj, **options):\n"),
   (ST, "default=_Compressor._pack_other, strict_types=True)", "default=_Compressor._pack_other, strict_types=True, **options)")],
  """
net = ntm.topology.disconnected(1)
a, b = [ntm.evolve(network=net, initial_conditions=[0.1], activity_rule=lambda c: c.current_activity / 3, timesteps=3, compression=z) for z in (False, True)]
assert [s.activities for s in a] == [s.activities for s in b], b[2].activities
""", "compression with activities that are not exact in single precision", "compressed activities are rounded", also=["C11"])

P("c08-compressed-nocopy", "C08",
  [(EV, "        if copy_network:\n            network = network.copy()\n", "        if copy_network and not trajectory[t]._compression:\n            network = network.copy()\n")],
  """
net = ntm.topology.disconnected(2)
def topo(ctx):
    ctx.network.add_edge(0, 1)
    return ctx.network
ntm.evolve(network=net, topology_rule=topo, timesteps=3, compression=True)
assert not list(net.edges), list(net.edges)
""", "compression and a topology rule that modifies the network it receives", "the given network is modified")

P("c09-readd-label", "C09",
  [(EV, "    if added_nodes or removed_nodes:\n        network = network.copy()\n", "    if added_nodes or removed_nodes:\n        network = network.copy()\n        removed_nodes = [n for n in removed_nodes if n not in [label for _, _, label in added_nodes]]\n")],
  """
net = ntm.topology.complete(3)
def rule(c):
    if c.node_label == 0 and c.timestep == 1:
        c.remove_node(1)
        c.add_node(9, {2: {}}, 1)
    return 0
t = ntm.evolve(network=net, initial_conditions=[0, 0, 0], activity_rule=rule, timesteps=3)
assert {(i, j) for i, j, _ in t[1].network.edges} == {(0, 2), (2, 0), (1, 2)}, list(t[1].network.edges)
""", "a node that is removed and added again under the same label in one timestep", "the node keeps its old connections")

P("c09-only-added", "C09",
  [(EV, "            if topology_rule is None and (added_nodes or removed_nodes):\n", "            if topology_rule is None and len(curr_network) != len(prev_network):\n")],
  """
net = ntm.topology.complete(3)
seen = []
def rule(c):
    seen.append((c.timestep, c.node_label, sorted(c.neighbour_labels)))
    if c.node_label == 0 and c.timestep == 1:
        c.remove_node(1)
        c.add_node(9, {2: {}}, 5)
    return 0
ntm.evolve(network=net, initial_conditions=[0, 0, 0], activity_rule=rule, timesteps=3)
assert (2, 2, [0, 5]) in seen, seen
""", "a timestep in which as many nodes are added as removed", "the neighbourhoods of the next timestep are those before the change")

P("c10-outgoing-remove", "C10",
  [(ST, "        self._network[i][\"outgoing\"] = [x for x in self._network[i][\"outgoing\"] if x != j]\n",
    "        if j in self._network[i][\"outgoing\"]:\n            self._network[i][\"outgoing\"].remove(j)\n")],
  """
net = ntm.Network(2)
net.add_edge(0, 1)
net.add_edge(0, 1)
net.remove_edge(0, 1)
net.remove_node(0)
assert net.in_degree(1) == 0, net.in_degree(1)
""", "parallel edges that are removed, followed by the removal of their source", "the target's in-degree becomes negative")

P("c10-eq-nodes", "C10",
  [(ST, "        return self._network == other._network\n", "        return self._network.keys() == other._network.keys() and list(self.edges) == list(other.edges)\n")],
  """
a, b = ntm.Network(2), ntm.Network(2)
a.add_node(0, x=1)
assert a != b
""", "two networks that differ only in node attributes", "they are reported as equal")

P("c11-shallow-copy", "C11",
  [(ST, "        return self.decompress(self.compress())\n",
    "        n = Network()\n        for label, v in self._network.items():\n            w = dict(v)\n            w[\"incoming\"] = {i: [dict(a) for a in es] for i, es in v[\"incoming\"].items()}\n            w[\"outgoing\"] = list(v[\"outgoing\"])\n            n._network[label] = w\n        return n\n")],
  """
a = ntm.Network()
a.add_edge(0, 1, x=[1, 2])
b = a.copy()
b.edge(0, 1)[0]["x"].append(3)
assert a.edge(0, 1)[0]["x"] == [1, 2], a.edge(0, 1)
""", "an attribute value that is a list or dictionary and is changed in the copy", "the change shows in the original")

P("c12-activity-attr", "C12",
  [(ST, "                if key not in self._new_node():\n", "                if key not in (\"in\", \"out\", \"incoming\", \"outgoing\", \"activity\", \"label\"):\n")],
  """
net = ntm.Network()
net.add_node(0, label="x")
assert dict(net.to_networkx().nodes(data=True)) == {0: {"label": "x"}}
""", "a node attribute named label or activity", "the attribute is lost in the conversion")

P("c13-sorted-acts", "C13",
  [(EV, "    return {node_label: [i for i in network.in_edges(node_label)] for node_label in network.nodes}\n",
    "    return {node_label: [i for i in network.in_edges(node_label) if i is not None and (i != '' or i == node_label)] for node_label in network.nodes}\n")],
  """
def run(names):
    net = ntm.Network()
    net.add_edge(names[0], names[1])
    t = ntm.evolve(network=net, initial_conditions={names[0]: 1, names[1]: 0}, activity_rule=lambda c: sum(c.neighbourhood_activities), timesteps=2)
    return [t[1].activities[n] for n in names]
assert run(["a", "b"]) == run(["", "b"])
""", "a node whose label is the empty string", "its connections to others are ignored")

P("c14-radius-cap", "C14",
  [("topology/adjacency.py", "                    for i in range(r):\n", "                    for i in range(min(r, n // 4)):\n")],
  """
m = np.array(ntm.topology.adjacency.cellular_automaton(9, r=4))
assert m.sum() == 81, m.sum()
""", "a radius of more than a quarter of the cells", "the farthest neighbours are missing")

P("c15-wrap-once", "C15",
  [("topology/adjacency.py", "                    x = point[0] if point[0] == -1 else point[0] % len(lattice)\n", "                    x = point[0] if point[0] < len(lattice) else 0\n")],
  """
m = np.array(ntm.topology.adjacency.cellular_automaton2d(7, 7, r=3))
assert (m.sum(1) == 49).all(), m.sum(1)
""", "a radius of 2 or more, cells near the bottom", "the neighbours two rows beyond the bottom are replaced by the first row's")

P("c16-seed-zero", "C16",
  [("topology/networks.py", "    G = nx.watts_strogatz_graph(n, k, p, seed)\n", "    G = nx.watts_strogatz_graph(n, k, p, seed or None)\n")],
  """
a, b = [ntm.topology.watts_strogatz_graph(30, 4, 0.5, seed=0) for _ in range(2)]
assert a == b
""", "a seed of 0", "two graphs with the same arguments differ")

P("c17-bits-overflow", "C17",
  [("rules/activity_rule.py", "    total = 0\n    for shift, j in enumerate(bits[::-1]):\n        if j:\n            total += 1 << shift\n    return total\n",
    "    bits = np.asarray(bits)[::-1]\n    return int(sum(np.left_shift(1, np.nonzero(bits)[0])))\n")],
  """
assert ntm.rules.bits_to_int([1] + [0] * 70) == 2 ** 70
""", "more than 63 bits", "the number overflows")

P("c17-cached-size", "C17",
  [("rules/activity_rule.py", "    # shift the activities so that the current cell's activity is in the center\n\n    def _rule(ctx):\n        activities = ctx.neighbourhood_activities\n        state_int = bits_to_int(activities)\n        n = 2**len(activities)\n        rule_bin_array = int_to_bits(rule, n)\n",
    "    cache = []\n\n    def _rule(ctx):\n        activities = ctx.neighbourhood_activities\n        state_int = bits_to_int(activities)\n        n = 2**len(activities)\n        if not cache:\n            cache.append(int_to_bits(rule, n))\n        rule_bin_array = cache[0]\n")],
  """
net = ntm.Network(3)
for i in range(3):
    net.add_edge(i, 0)
net.add_edge(0, 1)
t = ntm.evolve(network=net, initial_conditions=[0, 1, 1], activity_rule=ntm.rules.binary_ca_rule(2), timesteps=2)
u = ntm.evolve(network=net, initial_conditions=[0, 1, 1], activity_rule=ntm.rules.nks_ca_rule(8), timesteps=2)
assert (t[1].activities[1], u[1].activities[0]) == (1, 1), (t[1].activities, u[1].activities)
""", "a network whose nodes have neighbourhoods of different sizes", "the rule's bits are those of the first neighbourhood's size")

P("c18-cached-size", "C18",
  [("rules/activity_rule.py", "        rule_string = np.base_repr(rule, base=k).zfill(n*(k - 1) + 1)\n        if len(rule_string) > n*(k - 1) + 1:\n",
    "        if not cache:\n            cache.append((n, np.base_repr(rule, base=k).zfill(n*(k - 1) + 1)))\n        n, rule_string = cache[0]\n        if len(rule_string) > n*(k - 1) + 1:\n"),
   ("rules/activity_rule.py", "    #   Bases greater than 36 not handled in base_repr.\n", "    #   Bases greater than 36 not handled in base_repr.\n    cache = []\n")],
  """
net = ntm.Network(3)
net.add_edge(1, 0)
for i in range(3):
    net.add_edge(i, 1)
t = ntm.evolve(network=net, initial_conditions=[1, 1, 1], activity_rule=ntm.rules.totalistic_ca(2, 0b0010), timesteps=2)
try:
    u = ntm.evolve(network=net, initial_conditions=[1, 1, 1], activity_rule=ntm.rules.totalistic_ca(2, 0b1000), timesteps=2)
    assert False
except AssertionError:
    raise
except Exception:
    pass
n2 = ntm.Network(3)
n2.add_edge(1, 0)
n2.add_edge(0, 1)
n2.add_edge(2, 1)
t = ntm.evolve(network=n2, initial_conditions=[1, 1, 1], activity_rule=ntm.rules.totalistic_ca(2, 2), timesteps=2)
assert t[1].activities[0] == 1 and t[1].activities[1] == 0, t[1].activities
""", "a network whose nodes have neighbourhoods of different sizes", "the digits are those of the first neighbourhood's size")

P("c19-majority-zero", "C19",
  [("rules/activity_rule.py", "    most_frequent = [activity for activity in counts if counts[activity] == max_count]\n",
    "    most_frequent = [activity for activity in counts if counts[activity] == max_count]\n    if len(most_frequent) > 1 and ctx.current_activity in most_frequent and len(counts) == 2:\n        return ctx.current_activity\n")],
  """
net = ntm.Network(2)
for i in (0, 1):
    net.add_edge(i, 0)
    net.add_edge(i, 1)
got = {ntm.evolve(network=net, initial_conditions=[0, 1], activity_rule=ntm.rules.majority_rule, timesteps=2)[1].activities[0] for _ in range(60)}
assert got == {0, 1}, got
""", "a tie between exactly two states, one of which is the node's own", "the other tied state is never chosen")

P("c22-missing-uniform", "C22",
  [("ctrbl_rule.py", "        if key not in self._rule_table:\n", "        if key not in self._rule_table and len(set(key)) == 1:\n            return key[0]\n        if key not in self._rule_table:\n")],
  """
r = ntm.CTRBLRule((3, 3), {(0, 1, 0, 0, 0): 1})
try:
    ntm.evolve(network=r.network, initial_conditions=[0] * 9, activity_rule=r.activity_rule, timesteps=2)
except Exception:
    pass
else:
    raise AssertionError("no error")
""", "a table without an entry for a uniform neighbourhood", "there is no error")

P("c24-multi-topple", "C24",
  [("sandpile.py", "            if neighbour_activity >= self._K:\n                new_activity += 1\n\n        if ctx.current_activity >= self._K:\n            new_activity -= self._K\n",
    "            if neighbour_activity >= self._K:\n                new_activity += neighbour_activity // self._K\n\n        if ctx.current_activity >= self._K:\n            new_activity -= ctx.current_activity // self._K * self._K\n")],
  """
s = ntm.Sandpile(5, 5)
t = ntm.evolve(network=s.network, initial_conditions=[0] * 12 + [9] + [0] * 12, activity_rule=s.activity_rule, timesteps=2)
assert t[1].activities[12] == 5, t[1].activities
""", "a cell with eight or more grains", "such a cell topples more than once in a timestep")

P("c25-quiescent-zero", "C25",
  [("rule_tables.py", "    if quiescent_state is None:\n", "    if not quiescent_state:\n")],
  """
for s in range(30):
    np.random.seed(s)
    assert ntm.random_rule_table(k=5, r=1, quiescent_state=0)[2] == 0
""", "a given quiescent state of 0", "another quiescent state is used")

P("c27-halt-stay", "C27",
  [("turing_machine.py", "        if self._terminating_state is not None and next_head_state == self._terminating_state:\n",
    "        if self._terminating_state is not None and next_head_state == self._terminating_state and next_head_state != head_state:\n")],
  """
L, S, R = 0, 1, 2
m = ntm.HeadCentricTuringMachine(tape=[0, 0, 0, 0], rule_table={"a": {0: ["h", 1, R], 1: ["h", 0, R]}, "h": {0: ["h", 1, R], 1: ["a", 1, R]}},
                                 initial_head_state="h", initial_head_position=1, terminating_state="h", max_timesteps=9)
t = ntm.evolve(network=m.network, initial_conditions=m.initial_conditions, activity_rule=m.activity_rule, input=m.input_function)
assert len(t) == 2, len(t)
""", "a transition from the terminating state to itself", "the machine does not end")

P("c30-both-crowded", "C30",
  [("fungal_growth_model.py", "                if np.random.random() < p:\n                    new_network.add_edge(i, j)\n                else:\n                    new_network.add_edge(j, i)\n",
    "                if np.random.random() < p:\n                    new_network.add_edge(i, j)\n                elif curr_network.degree(j) + new_network.degree(i) < 7:\n                    new_network.add_edge(j, i)\n")],
  """
bad = 0
for seed in range(40):
    m = ntm.FungalGrowthModel(1.0, 4, 4, [1] * 7 + [0] * 9, seed=seed, verbose=False)
    t = ntm.evolve(network=m.network, initial_conditions=[1] * 7 + [0] * 9, activity_rule=m.activity_rule, topology_rule=m.topology_rule,
                   update_order=m.update_order, copy_network=m.copy_network, timesteps=12)
    for a, b in zip(t, t[1:]):
        for i, j in m._links:
            if a.activities[i] > 0 and a.activities[j] > 0 and not (b.network.has_edge(i, j) or b.network.has_edge(j, i)):
                bad += 1
assert bad == 0, bad
""", "two neighbours with resource that have seven links between them", "they may stay unlinked")

P("c31-keep-zero", "C31",
  [("hopfield_net.py", "        return 1 if V >= 0 else -1\n", "        return ctx.current_activity if V == 0 and len(ctx.neighbour_labels) > 0 else 1 if V >= 0 else -1\n")],
  """
h = ntm.HopfieldNet(3)
h.train([[1, 1, 1], [1, 1, -1], [-1, 1, 1]])
t = ntm.evolve(network=h.network, initial_conditions=[-1] * 3, activity_rule=h.activity_rule, timesteps=12)
ok = True
for a, b in zip(t, t[1:]):
    for i in range(3):
        V = sum(h.adjacency_matrix[j][i] * a.activities[j] for j in range(3))
        if a.activities[i] != b.activities[i]:
            ok = ok and b.activities[i] == (1 if V >= 0 else -1)
last = t[-1].activities
for i in range(3):
    V = sum(h.adjacency_matrix[j][i] * last[j] for j in range(3))
    assert last[i] == (1 if V >= 0 else -1), (last, i, V)
""", "a node whose weighted input is exactly 0", "the node keeps -1 instead of becoming 1")

P("c33-joint-float", "C33",
  [("analysis.py", "    return sum(-p * np.log2(p) for p in joint_symbol_probabilities if p != 0)\n", "    return sum(-p * np.log2(p) for p in joint_symbol_probabilities if p > 0.01)\n")],
  """
import math
x = "".join(chr(97 + i % 20) for i in range(400)); y = "".join(chr(97 + i // 20) for i in range(400))
got = ntm.joint_shannon_entropy(x, y)
assert abs(got - math.log2(400)) < 1e-9, got
""", "strings in which a pair of symbols has a share of at most one percent", "rare pairs are left out of the joint entropy")

P("c34-sorted-str", "C34",
  [("utils.py", "            for a in sorted(ac):\n                row.append(ac[a])\n", "            for a in sorted(ac, key=lambda label: label if not isinstance(label, str) else (len(label), label)):\n                row.append(ac[a])\n")],
  """
s = [ntm.State(activities={"b": 1, "aa": 2})]
assert ntm.get_activities_over_time_as_list(s) == [[2, 1]]
""", "string labels of different lengths", "the activities are ordered by the labels' length first", also=["C33"])

P("c36-poincare-short", "C36",
  [("utils.py", "            x.append(a[-timesteps:][t])\n            y.append(a[-timesteps:][t + 1])\n", "            x.append(a[len(a) - timesteps:][t])\n            y.append(activities[0][-timesteps:][t + 1] if len(activities) > 3 else a[-timesteps:][t + 1])\n")],
  """
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
d = [[i + 10 * k for i in range(5)] for k in range(4)]
ntm.poincare_plot(d, 3)
pts = [c.get_offsets().tolist() for c in plt.gcf().axes[0].collections]
assert pts == [[[x, x + 1] for x in s[-3:-1]] for s in d], pts
""", "four or more series", "the successive values are the first series'")

P("c36-bar-max", "C36",
  [("utils.py", "    x = [i for i in range(1, max(degree_counts) + 1)]\n", "    x = [i for i in range(1, min(max(degree_counts), len(network)) + 1)]\n")],
  """
import matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
net = ntm.Network(2)
for _ in range(3):
    net.add_edge(0, 1)
ntm.plot_degree_distribution(net)
assert [p.get_height() for p in plt.gca().patches] == [0, 0, 2], [p.get_height() for p in plt.gca().patches]
""", "a degree greater than the number of nodes (parallel edges or self-loops)", "the bars of the greatest degrees are missing")

P("c37-html-node", "C37",
  [("vis/vis_utils.py", "        edges.append(\"{from: %s, to: %s, arrows: \\\"to\\\", weight: 1%s}\" % (str(e[0]), str(e[1]), self_reference))\n",
    "        edge = \"{from: %s, to: %s, arrows: \\\"to\\\", weight: 1%s}\" % (str(e[0]), str(e[1]), self_reference)\n        if len(edges) < 2 or edge != edges[-2]:\n            edges.append(edge)\n")],
  """
net = ntm.Network()
for _ in range(3):
    net.add_edge(1, 2)
assert ntm.vis.get_html(net.to_networkx()).count("from:") == 3
""", "three or more parallel edges", "the third parallel edge is missing from the page")
