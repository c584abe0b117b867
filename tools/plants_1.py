PLANTS = []


def P(id, property, edits, demo, needs, what, also=()):
    PLANTS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what_it_breaks=what, also=list(also)))


P("c01-fixpoint-topology", "C01", [("evolution.py",
"""    if topology_rule:
        if copy_network:""",
"""    if topology_rule and not (t > 1 and trajectory[t - 1].activities == activities):
        if copy_network:""")], """
import netomaton as ntm
net = ntm.topology.complete(3)
calls = []
def topo(ctx):
    calls.append(ctx.timestep)
    return ctx.network
ntm.evolve(network=net, initial_conditions=[1, 1, 0], timesteps=6, activity_rule=lambda c: 1, topology_rule=topo)
assert calls == [1, 2, 3, 4, 5], calls
""", "activities that stay the same over two timesteps, with a topology rule that still acts", "the topology rule is not applied in a timestep whose activities equal the previous ones")

P("c01-sync-second", "C01", [("evolution.py",
"""            # added and removed nodes are ignore in this case
            evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, trajectory, prev_network, past,
                              perturbation, persist_activities, memoize, memo_table, neighbourhood_map, memoization_key)

        else:""",
"""            # added and removed nodes are ignore in this case
            network = prev_network if len(prev_network) == len(curr_network) and \\
                all(len(prev_network.in_edges(n)) >= len(curr_network.in_edges(n)) for n in prev_network.nodes) else curr_network
            evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, trajectory, network, past,
                              perturbation, persist_activities, memoize, memo_table, neighbourhood_map, memoization_key)

        else:""")], """
import netomaton as ntm
net = ntm.Network(3)
net.add_edge(0, 1)
def topo(ctx):
    ctx.network.add_edge(2, 1)
    return ctx.network
seen = []
def rule(ctx):
    if ctx.node_label == 1:
        seen.append(list(ctx.neighbour_labels))
    return ctx.current_activity
ntm.evolve(network=net, initial_conditions=[1, 2, 3], timesteps=2, activity_rule=rule, topology_rule=topo,
           update_order=ntm.UpdateOrder.SYNCHRONOUS)
assert seen == [[0]], seen
""", "synchronous update order and a topology rule that adds incoming connections", "the activities are computed on the new network instead of the old one")

P("c02-edge-data-index", "C02", [("evolution.py",
"        return self.connection_states[neigbour_label][index][attr]",
"        return self.connection_states[neigbour_label][min(index, 1)][attr]")], """
import netomaton as ntm
net = ntm.Network(2)
for w in (1, 2, 3):
    net.add_edge(0, 1, weight=w)
seen = []
def rule(ctx):
    if ctx.node_label == 1:
        seen.append([ctx.edge_data(0, "weight", i) for i in range(3)])
    return 0
ntm.evolve(network=net, initial_conditions=[1, 2], timesteps=2, activity_rule=rule)
assert seen == [[1, 2, 3]], seen
""", "three or more parallel edges", "edge_data returns the attribute of another parallel edge")

P("c02-rotation-dedup", "C02", [("evolution.py",
"""    if network.rotation_system is not None:
        return network.rotation_system
    return {""",
"""    if network.rotation_system is not None:
        return {node_label: [i for i in rotation if network.has_edge(i, node_label)] or list(rotation)[::-1]
                for node_label, rotation in network.rotation_system.items()}
    return {""")], """
import netomaton as ntm
net = ntm.Network(3)
net.rotation_system = {0: (1, 2), 1: (0, 2), 2: (0, 1)}
seen = []
def rule(ctx):
    seen.append(list(ctx.neighbour_labels))
    return 0
ntm.evolve(network=net, initial_conditions=[1, 2, 3], timesteps=2, activity_rule=rule)
assert seen == [[1, 2], [0, 2], [0, 1]], seen
""", "a rotation system that orders nodes which have no connection to the node", "the order of the neighbourhood is reversed")

P("c03-falsy-input", "C03", [("evolution.py",
"""        inp = input_fn(t, prev_activities, prev_network)
        if inp is None:""",
"""        inp = input_fn(t, prev_activities, prev_network)
        if inp is None or (isinstance(inp, (str, tuple)) and not inp):""")], """
import netomaton as ntm
net = ntm.Network(1)
traj = ntm.evolve(network=ntm.Network(2), initial_conditions=[1, 1], input=lambda t, a, n: None if t == 4 else ("" if t == 2 else "ab"),
                  activity_rule=lambda c: 0, topology_rule=None) if False else None
got = []
def topo(ctx):
    got.append(ctx.timestep)
    return ctx.network
t = ntm.evolve(network=net, input=lambda t, a, n: None if t == 4 else "", topology_rule=topo)
assert len(t) == 4, len(t)
""", "an input item that is an empty string or tuple", "the evolution ends early")

P("c03-index-modulo", "C03", [("evolution.py",
"""        node_in = None if inp == "__timestep__" else inp[node_label] if _is_indexable(inp) else inp""",
"""        node_in = None if inp == "__timestep__" else inp[node_label] if _is_indexable(inp) and not isinstance(inp, str) else inp""")], """
import netomaton as ntm
seen = []
def rule(ctx):
    seen.append(ctx.input)
    return 0
ntm.evolve(network=ntm.Network(3), initial_conditions=[0, 0, 0], input=["abc"], activity_rule=rule)
assert seen == ["a", "b", "c"], seen
""", "input items that are strings", "every node gets the whole string instead of its own character")

P("c04-perturb-memo", "C04", [("evolution.py",
"""                pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)
                curr_activities[node_label] = check_np(perturbation(pctx))""",
"""                pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)
                curr_activities[node_label] = check_np(perturbation(pctx))
                if memoize:
                    memoization_table[memoization_key.to_key(ctx)] = curr_activities[node_label]""")], """
import netomaton as ntm
net = ntm.topology.cellular_automaton(5)
def pert(c):
    return 1 - c.node_activity if c.timestep == 1 and c.node_label == 4 else c.node_activity
r = [[s.activities for s in ntm.evolve(network=net, initial_conditions=[0, 0, 1, 0, 0], timesteps=6, memoize=m, perturbation=pert,
      activity_rule=ntm.rules.nks_ca_rule(30))] for m in (False, True)]
assert r[0] == r[1], r
""", "memoization together with a perturbation that changes an activity", "the perturbed value is memoized as if it were the rule's result", also=["C06"])

P("c04-perturb-topofirst", "C04", [("evolution.py",
"            evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, trajectory, curr_network, past,\n                              perturbation,",
"            evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, trajectory, curr_network, past,\n                              perturbation if persist_activities else None,")], """
import netomaton as ntm
out = []
def rule(ctx):
    out.append(ctx.current_activity)
    return ctx.current_activity + 1
ntm.evolve(network=ntm.Network(1), initial_conditions=[0], timesteps=3, activity_rule=rule, persist_activities=False,
           perturbation=lambda c: c.node_activity * 10, update_order=ntm.UpdateOrder.TOPOLOGY_FIRST)
assert out == [0, 10], out
""", "topology-first update order without persisted activities and with a perturbation", "the perturbation is not applied")

P("c05-dict-past", "C05", [("evolution.py",
"            past_activities[i] = curr_past_cond\n            last_t -= 1",
"            past_activities[i] = curr_past_cond\n            last_t -= 1 if last_t > 0 or len(past_conditions) < 3 else 0")], """
import netomaton as ntm
seen = []
def rule(ctx):
    seen.append([p[0] for p in ctx.past_activities])
    return ctx.current_activity + 1
ntm.evolve(network=ntm.Network(1), initial_conditions=[0], timesteps=4, activity_rule=rule, past_conditions=[[-3], [-2], [-1]])
assert seen == [[-3, -2, -1], [-2, -1, 0], [-1, 0, 1]], seen
""", "three or more past conditions, in the first timesteps", "the oldest past activities are replaced by a more recent past condition")

P("c06-hash-key", "C06", [("evolution.py",
"        return tuple(ctx.neighbourhood_activities)",
"        return hash(tuple(ctx.neighbourhood_activities))")], """
import netomaton as ntm
net = ntm.topology.cellular_automaton(4)
def rule(c):
    return c.neighbourhood_activities[1]
r = [[s.activities for s in ntm.evolve(network=net, initial_conditions=[-1, -2, -2, -1], timesteps=3, memoize=m, activity_rule=rule)] for m in (False, True)]
assert r[0] == r[1], r
""", "an ordered network and two neighbourhoods with colliding hashes, such as those with -1 and -2 in the same place", "memoization returns the result of another neighbourhood")

P("c06-unordered-sorted", "C06", [("evolution.py",
"        return frozenset(collections.Counter(ctx.neighbourhood_activities).items())",
"        return frozenset((a, min(n, 8)) for a, n in collections.Counter(ctx.neighbourhood_activities).items())")], """
import netomaton as ntm
net = ntm.topology.complete(12)
def rule(c):
    return 1 if sum(c.neighbourhood_activities) in (9, 11) else 0
init = [1] * 10 + [0, 0]
r = [[s.activities for s in ntm.evolve(network=net, initial_conditions=init, timesteps=3, memoize=m, activity_rule=rule)] for m in (False, True)]
net2 = ntm.Network()
for i in range(9): net2.add_edge(i, 20)
for i in range(10): net2.add_edge(i, 21)
init = {i: 1 for i in range(10)}; init.update({20: 0, 21: 0})
r = [[s.activities for s in ntm.evolve(network=net2, initial_conditions=init, timesteps=3, memoize=m, activity_rule=lambda c: sum(c.neighbourhood_activities))] for m in (False, True)]
assert r[0] == r[1], r
""", "neighbourhoods in which an activity occurs more than eight times", "memoization returns the result of another neighbourhood")

P("c07-persist-none", "C07", [("evolution.py",
"""    if persist_network:
        trajectory[t].network = network""",
"""    if persist_network and (topology_rule is None or network is not trajectory[t - 1].network):
        trajectory[t].network = network""")], """
import netomaton as ntm
net = ntm.topology.complete(3)
t = ntm.evolve(network=net, initial_conditions=[0, 1, 2], timesteps=3, activity_rule=lambda c: 1, topology_rule=lambda c: c.network, copy_network=False)
assert all(s.network is not None for s in t)
""", "copy_network off and a topology rule that returns the network it was given", "states without a network although networks are persisted")

P("c07-copy-compress", "C07", [("state.py",
"            return Network.decompress(self._network) if self._compression else self._network",
"            network = Network.decompress(self._network) if self._compression else self._network\n"
"            return network if len(network) else None")], """
import netomaton as ntm
net = ntm.Network(0)
t = ntm.evolve(network=net, initial_conditions=[], timesteps=3, activity_rule=lambda c: 1)
assert t[1].network is not None
""", "a network without nodes", "an empty network is reported as missing", also=["C11"])

P("c08-inplace-no-persist", "C08", [("evolution.py",
"""        if copy_network:
            network = network.copy()
        network = topology_rule""",
"""        if copy_network and persist_network:
            network = network.copy()
        network = topology_rule""")], """
import netomaton as ntm
net = ntm.topology.complete(3)
def topo(ctx):
    ctx.network.add_edge(0, 1)
    return ctx.network
before = len(list(net.edges))
ntm.evolve(network=net, timesteps=3, topology_rule=topo, persist_network=False)
assert len(list(net.edges)) == before
""", "persist_network off and a topology rule that modifies the network in place", "the given network is modified")

P("c08-past-mutated", "C08", [("evolution.py",
"            curr_past_cond = past_conditions[last_t-1] if last_t < 1 else history[last_t-1]\n            if not isinstance(curr_past_cond, dict) and isinstance(curr_past_cond, (list, np.ndarray)):\n                curr_past_cond = {i: v for i, v in enumerate(curr_past_cond)}\n",
"            curr_past_cond = past_conditions[last_t-1] if last_t < 1 else history[last_t-1]\n            if not isinstance(curr_past_cond, dict) and isinstance(curr_past_cond, (list, np.ndarray)):\n                curr_past_cond = {i: v for i, v in enumerate(curr_past_cond)}\n                if last_t < 1:\n                    past_conditions[last_t-1] = curr_past_cond\n")], """
import netomaton as ntm
past = [[0, 1], [1, 1]]
ntm.evolve(network=ntm.Network(2), initial_conditions=[0, 1], timesteps=3, activity_rule=lambda c: 1, past_conditions=past)
assert past == [[0, 1], [1, 1]], past
""", "past conditions given as lists", "the caller's list of past conditions is modified")

P("c09-later-target", "C09", [("evolution.py",
"""        for activity, outgoing_links, node_label in added_nodes:
            network.add_node(node_label, activity=check_np(activity))
            for target, connection_state in outgoing_links.items():
                network.add_edge(node_label, target, **connection_state)""",
"""        for activity, outgoing_links, node_label in added_nodes:
            network.add_node(node_label, activity=check_np(activity))
            for target, connection_state in outgoing_links.items():
                if target in network.nodes:
                    network.add_edge(node_label, target, **connection_state)""")], """
import netomaton as ntm
def rule(ctx):
    if ctx.timestep == 1:
        ctx.add_node(5, {"b": {"w": 1}, 0: {}}, "a")
        ctx.add_node(6, {"a": {}}, "b")
    return 1
t = ntm.evolve(network=ntm.Network(1), initial_conditions=[0], timesteps=2, activity_rule=rule)
assert t[1].network.has_edge("a", "b"), list(t[1].network.edges)
""", "an added node with a connection to a node that is added after it in the same timestep", "the connection is missing")

P("c10-remove-parallel", "C10", [("state.py",
"""        for j in self._network[node_label]["outgoing"]:
            self._decrement_in_degree(j)
            self._remove_incoming(node_label, j)""",
"""        for j in dict.fromkeys(self._network[node_label]["outgoing"]):
            self._decrement_in_degree(j, n=min(len(self._network[j]["incoming"].get(node_label, [])), 2))
            self._remove_incoming(node_label, j)""")], """
import netomaton as ntm
net = ntm.Network(2)
for _ in range(3):
    net.add_edge(0, 1)
net.remove_node(0)
assert net.in_degree(1) == 0, net.in_degree(1)
""", "removing a node with three parallel edges to another", "the in-degree of the other node stays too high")

P("c10-update-index", "C10", [("state.py",
"""            for k in indices:
                self._network[j]["incoming"][i][k].update(attr)""",
"""            for k in sorted(set(indices) & set(range(len(self._network[j]["incoming"][i])))):
                self._network[j]["incoming"][i][k].update(attr)
                if i == j:
                    break""")], """
import netomaton as ntm
net = ntm.Network(1)
for _ in range(3):
    net.add_edge(0, 0, w=1)
net.update_edge(0, 0, indices=[0, 2], w=5)
assert [e["w"] for e in net.edge(0, 0)] == [5, 1, 5], net.edge(0, 0)
""", "updating several parallel self-loops by index", "only the first of the given self-loops is updated")

P("c10-bidir-shared", "C10", [("state.py",
"""        self.add_edge(i, j, **attr)
        self.add_edge(j, i, **attr)""",
"""        self.add_edge(i, j, **attr)
        self.add_edge(j, i)
        self._network[i]["incoming"][j][-1] = self._network[j]["incoming"][i][-1]""")], """
import netomaton as ntm
net = ntm.Network()
net.add_edge_bidir("a", "b", w=1)
net.update_edge("a", "b", w=2)
assert net.edge("b", "a") == [{"w": 1}], net.edge("b", "a")
""", "updating one direction of a bidirectional edge", "both directions share one attribute dictionary")

P("c11-tuple-labels", "C11", [("state.py",
"            if i in self._network[j][\"incoming\"]:" if False else """        n = Network()
        n._network = _Compressor.decompress(packed)
        return n""",
"""        n = Network()
        n._network = _Compressor.decompress(packed)
        for node in n._network.values():
            node["outgoing"] = list(dict.fromkeys(node["outgoing"]))
        return n""")], """
import netomaton as ntm
net = ntm.Network()
net.add_edge(0, 1)
net.add_edge(0, 1)
c = net.copy()
c.remove_node(0)
assert c.in_degree(1) == 0 and net == ntm.Network.decompress(net.compress())
""", "parallel edges in a network that is copied", "the copy is not equal, and its degrees go wrong later")

P("c12-zero-weight", "C12", [("state.py",
"            w = atts[weight] if weight in atts else 1",
"            w = atts.get(weight) or 1")], """
import netomaton as ntm
net = ntm.Network(2)
net.add_edge(0, 1, weight=0)
assert net.to_adjacency_matrix() == [[0, 0], [0, 0]], net.to_adjacency_matrix()
""", "an edge whose weight is 0", "the entry counts the edge as if it had no weight")

P("c12-nx-attrs", "C12", [("state.py",
"                if key not in self._new_node():",
"                if key not in (\"in\", \"out\") and not isinstance(self._network[node][key], (dict, list)):")], """
import netomaton as ntm
net = ntm.Network()
net.add_node("a", pos=[1, 2], x=1)
G = net.to_networkx()
assert dict(G.nodes["a"]) == {"pos": [1, 2], "x": 1}, dict(G.nodes["a"])
""", "node attributes that are lists or dictionaries", "they are lost in to_networkx")

P("c13-label-zero", "C13", [("evolution.py",
"        neighbourhood_activities = [prev_activities[neighbour_label] for neighbour_label in neighbour_labels]",
"        neighbourhood_activities = [prev_activities[neighbour_label] for neighbour_label in neighbour_labels]\n"
"        if network.rotation_system is None and len(neighbourhood_activities) > 5:\n"
"            neighbourhood_activities = [prev_activities[neighbour_label] for neighbour_label in sorted(set(neighbour_labels), key=str)]")], """
import netomaton as ntm
net = ntm.Network()
for i in (5, 3, 1, 0, 2, 4, 7):
    net.add_edge(i, 6)
seen = []
def rule(ctx):
    if ctx.node_label == 6:
        seen.append([ctx.neighbour_labels, ctx.neighbourhood_activities])
    return 0
ntm.evolve(network=net, initial_conditions={i: i * 10 for i in range(8)}, timesteps=2, activity_rule=rule)
assert all(a == 10 * l for l, a in zip(*seen[0])), seen
""", "an unordered neighbourhood of more than five nodes whose labels are not in order", "neighbourhood activities no longer go with the labels at the same positions", also=["C01", "C02"])

P("c14-radius-wrap", "C14", [("topology/networks.py",
"    shifted.rotate(center - index_of(nodes, node_to_center_on))",
"    shifted.rotate(center - index_of(list(shifted) if len(nodes) > 7 else nodes, node_to_center_on) + (len(nodes) == 9))")], """
import netomaton as ntm
net = ntm.topology.cellular_automaton(20, r=4)
assert list(net.rotation_system[10]) == list(range(6, 15)), net.rotation_system[10]
""", "a neighbourhood of nine cells (radius 4, or a 2D Moore neighbourhood)", "the cell is not in the middle of its neighbourhood", also=["C15"])

P("c15-vonneumann-r2", "C15", [("topology/adjacency.py",
"            criteria = lambda a_i, b_i, a_o, b_o, radius, rownum: np.abs(a_i - a_o) + np.abs(b_i - b_o) <= radius",
"            criteria = lambda a_i, b_i, a_o, b_o, radius, rownum: (a_i - a_o) ** 2 + (b_i - b_o) ** 2 <= radius ** 2")], """
import netomaton as ntm
m = ntm.topology.adjacency.cellular_automaton2d(9, 9, r=3, neighbourhood="von Neumann")
assert sum(m[40]) == 25, sum(m[40])
""", "a von Neumann neighbourhood of radius 3 or more", "the neighbourhood is a disc instead of a diamond")

P("c15-hex-parity", "C15", [("topology/adjacency.py",
"            rownum += 1\n            for b, _ in enumerate(row):",
"            rownum = a + 1 if len(row) != len(lattice) or a < len(lattice) - 1 else a\n            for b, _ in enumerate(row):")], """
import netomaton as ntm
m = ntm.topology.adjacency.cellular_automaton2d(4, 4, r=1, neighbourhood="Hex")
assert [i for i, x in enumerate(m[13]) if x] == sorted([13, 12, 14, 8, 9, 0, 1]), [i for i, x in enumerate(m[13]) if x]
""", "a Hex neighbourhood on a grid with as many rows as columns, cells of the last row", "the neighbours of the last row are those of the other parity")

P("c16-bipartite-attrs", "C16", [("topology/networks.py",
"                network.add_edge_bidir(node1, node2, **attrs)",
"                network.add_edge(node1, node2, **attrs)\n                network.add_edge(node2, node1, **edge_attributes.get(node2, {}).get(node1, {k: attrs[k] for k in attrs if k == \"weight\"}))")], """
import netomaton as ntm
net = ntm.topology.bipartite([0], [1], {0: {1: {"weight": 2, "label": "x"}}})
assert net.edge(1, 0) == [{"weight": 2, "label": "x"}], net.edge(1, 0)
""", "edge attributes other than weight", "the way back lacks the attributes")

P("c16-lattice-thin", "C16", [("topology/networks.py",
"        network.add_edge(edge[1], edge[0])\n        network.add_edge(edge[0], edge[1])\n    for node in G.nodes:",
"        network.add_edge(edge[1], edge[0])\n        network.add_edge(edge[0], edge[1])\n        if periodic and 2 in tuple(dim):\n            network.add_edge(edge[0], edge[1])\n    for node in G.nodes:")], """
import netomaton as ntm
net = ntm.topology.lattice((2, 3), periodic=True)
es = [(i, j) for i, j, _ in net.edges]
assert len(es) == len(set(es)), es
""", "a periodic lattice with a dimension of two", "parallel edges", also=["C30"])

P("c17-int-to-bits", "C17", [("rules/activity_rule.py",
"        n = 2**len(activities)\n        rule_bin_array = int_to_bits(rule, n)\n        if scheme == 'nks':",
"        n = 2**len(activities)\n        rule_bin_array = int_to_bits(rule & 0xFFFFFFFF, n)\n        if scheme == 'nks':")], """
import netomaton as ntm
from types import SimpleNamespace as N
rule = 1 << 40
got = ntm.rules.nks_ca_rule(rule)(N(neighbourhood_activities=[1, 0, 1, 0, 0, 0]))
assert got == 1, got
""", "a neighbourhood of six or more cells and a rule number of more than 32 bits", "the high part of the rule number is ignored")

P("c18-sum-overflow", "C18", [("rules/activity_rule.py",
"        neighbourhood_sum = np.sum(neighbourhood)\n",
"        neighbourhood_sum = int(np.sum(neighbourhood, dtype=np.uint8))\n")], """
import netomaton as ntm
from types import SimpleNamespace as N
got = ntm.rules.totalistic_ca(36, 36 ** 280)(N(neighbourhood_activities=[35] * 8))
assert got == 1, got
""", "many neighbours and colors, so that the sum exceeds 255", "the sum wraps around")

P("c19-wireworld-self", "C19", [("rules/activity_rule.py",
"        electron_head_count = ctx.neighbourhood_activities.count(1)\n",
"        electron_head_count = sum(a == 1 for a in ctx.neighbourhood_activities[:8])\n")], """
import netomaton as ntm
net = ntm.topology.cellular_automaton2d(5, 5)
init = [0] * 25
init[12] = 3
init[18] = 1
t = ntm.evolve(network=net, initial_conditions=init, timesteps=2, activity_rule=ntm.rules.wireworld_rule)
assert t[1].activities[12] == 1, t[1].activities
""", "a head in the last place of the ordered neighbourhood (below right)", "that head is not counted")

P("c19-life-total", "C19", [("rules/activity_rule.py",
"        if total - 1 > 3:\n            return 0",
"        if total - 1 > 3:\n            return int(total == 9)")], """
import netomaton as ntm
net = ntm.topology.cellular_automaton2d(5, 5)
t = ntm.evolve(network=net, initial_conditions=[1] * 25, timesteps=2, activity_rule=ntm.rules.game_of_life_rule)
assert not any(t[1].activities.values()), t[1].activities
""", "a live cell with eight live neighbours", "it survives")

P("c20-noninitial-n", "C20", [("asynchronous_rule.py",
"        return c == self._update_order[self._curr]",
"        return self._update_order.index(c) == self._curr if c in self._update_order else c == self._curr and self._curr >= len(self._update_order) - 1 and len(self._update_order) > 3")], """
import netomaton as ntm
r = ntm.AsynchronousRule(lambda c: c.current_activity + 1, update_order=[5, 4, 2, 1])
t = ntm.evolve(network=ntm.Network(6), initial_conditions=[0] * 6, timesteps=6, activity_rule=r)
assert t[-1].activities == {0: 0, 1: 1, 2: 1, 3: 0, 4: 1, 5: 2}, t[-1].activities
""", "an update order of four or more nodes that leaves out the node whose label is its length minus one", "a node that is not listed is updated")

P("c21-xor-bool", "C21", [("reversible_rule.py",
"        new_result = regular_result ^ ctx.past_activity_of(ctx.node_label)",
"        new_result = regular_result ^ ctx.past_activity_of(ctx.node_label, 0)")], """
import netomaton as ntm
net = ntm.topology.cellular_automaton(7)
r = ntm.ReversibleRule(ntm.rules.nks_ca_rule(90))
past = [[0, 0, 1, 0, 0, 0, 0], [0, 1, 0, 0, 0, 0, 0]]
t = ntm.evolve(network=net, initial_conditions=[0, 0, 0, 1, 0, 0, 0], past_conditions=past, timesteps=2, activity_rule=r)
t1 = ntm.evolve(network=net, initial_conditions=[0, 0, 0, 1, 0, 0, 0], past_conditions=past[1:], timesteps=2, activity_rule=r)
assert t[1].activities == t1[1].activities
""", "two or more past conditions", "an older activity than the previous one is used")

P("c22-rotation-overwrite", "C22", [("ctrbl_rule.py",
"                    new_rule_table[tuple(r)] = image",
"                    new_rule_table[tuple(r) if r[1] != r[3] or r[2] != r[4] else rule] = image")], """
import netomaton as ntm
r = ntm.CTRBLRule(dim=(3, 3), rule_table={(0, 1, 2, 1, 2): 5}, add_rotations=True)
assert r.rule_table == {(0, 1, 2, 1, 2): 5, (0, 2, 1, 2, 1): 5}, r.rule_table
""", "a state whose opposite neighbours are equal", "its quarter turn is missing from the table")

P("c22-left-wrap", "C22", [("ctrbl_rule.py",
"                top = (center - cols) % (rows*cols)",
"                top = center - cols if row else center + cols*max(rows - 1, cols - rows)")], """
import netomaton as ntm
r = ntm.CTRBLRule(dim=(5, 4), rule_table={})
assert r.neighbourhood_map[3].top == 19, r.neighbourhood_map[3]
r = ntm.CTRBLRule(dim=(3, 6), rule_table={})
assert r.neighbourhood_map[1].top == 13, r.neighbourhood_map[1]
""", "at least twice as many columns as rows", "the cell above the first row is a wrong one (or doesn't exist)")

P("c23-transition", "C23", [("langtons_loop.py",
"            (7, 0, 2, 5, 2): 5,", "            (7, 0, 2, 5, 2): 1,")], """
import netomaton as ntm
l = ntm.LangtonsLoop(dim=(20, 20))
assert l.rule_table[(7, 0, 2, 5, 2)] == 5
""", "a late stage of the loop", "one transition has another image")

P("c23-loop-offset", "C23", [("langtons_loop.py",
"            initial_conditions[row_i+8][col_i+13] = 2\n",
"            if col_i + 14 < self._dim[1]:\n                initial_conditions[row_i+8][col_i+13] = 2\n")], """
import netomaton as ntm
l = ntm.LangtonsLoop(dim=(30, 30))
x = l.init_loops(1, [3], [16]).reshape(30, 30)
assert x[11][29] == 2
""", "a loop that reaches the last column of the torus", "its last sheath cell is missing")

P("c24-sandpile-boundary", "C24", [("sandpile.py",
"        return np.concatenate((m[0], m[-1], m[:, 0], m[:, -1]), axis=None)",
"        return np.concatenate((m[0], m[-1], m[:, 0], m[:, shape[0] - 1] if shape[0] <= shape[1] else m[:, -1]), axis=None)")], """
import netomaton as ntm
s = ntm.Sandpile(4, 6)
t = ntm.evolve(network=s.network, initial_conditions=[1] * 24, timesteps=2, activity_rule=s.activity_rule)
a = t[1].activities
assert [a[6 * i + 5] for i in range(4)] == [0] * 4 and a[9] == 1, a
""", "a grid that is wider than high", "the boundary is in the wrong column")
