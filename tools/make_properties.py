#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  One P(...) per property; keep ids stable."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
ROWS = []

def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    ROWS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["netomaton/" + f for f in files],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": "netomaton/" + w} for n, w in mech],
            "observe_at": observe, "hook_needed": None,
        }})

I, H, C = "inputs", "histories", "configurations"

P("C01", "Evolution follows the documented equations for each update order",
  "evolve() returns the states for t = 0, 1, ..., where each next activity vector S(t+1) and network A(t+1) come from the activity rule G and topology rule F as documented: activities first is S(t+1)=G(A(t),S(t)), A(t+1)=F(A(t),S(t+1)); topology first is A(t+1)=F(A(t),S(t)), S(t+1)=G(A(t+1),S(t)); synchronous is A(t+1)=F(A(t),S(t)), S(t+1)=G(A(t),S(t)). "
  "At each timestep the activity rule is applied exactly once to every node of the network, and the topology rule exactly once, with the timestep number and with the complete activities that its equation names, never a mix of old and partly updated values. "
  "Without a topology rule the network stays the same, and without an activity rule only the topology evolves.",
  [I, H, C], "all networks (including empty neighbourhoods, self-loops, parallel edges, non-integer labels), activity rules, topology rules, initial activities, numbers of timesteps, and the three update orders",
  "The tests run a dozen fixed automata; the synchronous order has no test at all, and no test combines a changing topology with rules that see the whole context.",
  ["evolution.py"], [("evolve loop and update-order dispatch", "evolution.py:evolve"), ("per-node rule application", "evolution.py:do_activity_rule"), ("topology step", "evolution.py:evolve_topology")],
  ["ntm.evolve return value", "the contexts passed to the rules"])

P("C02", "The activity rule sees exactly its node's neighbourhood",
  "Whenever the activity rule is applied to a node, the context it receives holds that node's label, the current timestep, the node's activity and all nodes' activities after the previous timestep, and as its neighbourhood exactly the nodes with an incoming connection to it, with each neighbour's activity at the same position as its label, and the attributes of every parallel connection from that neighbour. "
  "If the network has a rotation system, the neighbours come in the order it gives for that node; a rotation system that names nodes that are not in the network is rejected. "
  "The accessors for another node's activity, a past activity and a connection's attribute (by index among parallel connections) return those same values.",
  [I, C], "all directed multigraphs with arbitrary labels and edge attributes, with and without rotation systems, static and changing topologies, all nodes and timesteps",
  "Tests compare final activities of symmetric automata on small graphs, where misaligned or misordered neighbourhoods often cancel; parallel connections and edge indices are hardly exercised.",
  ["evolution.py", "state.py"], [("NodeContext", "evolution.py:NodeContext"), ("neighbour labels", "evolution.py:_get_neighbour_labels"), ("rotation system validation", "state.py:Network.rotation_system")],
  ["NodeContext attributes and methods inside an activity rule", "Network.rotation_system setter"])

P("C03", "The number of states and the input each node receives follow timesteps/input",
  "With timesteps=T (T >= 1) evolve returns T states and applies the rule at timesteps 1 to T-1 with no input; with an input list of N items it returns N+1 states, timestep t receives the t-th item, and with an input function it runs until the function, called once per timestep with t = 1, 2, ..., returns None, falsy items such as 0 not ending the evolution. "
  "If the item for a timestep is a sequence, each node gets the element at its own index, otherwise every node gets the item itself; the perturbation sees the same input as the node's activity rule. "
  "An input overrides timesteps, and giving neither is an error.",
  [I, C], "all timesteps values, input lists, input functions, scalar and per-node items, and networks",
  "Tests drive a few hand-written input sequences (seven of them fail on this Python without the first fix), none with falsy items, per-node tuples or both parameters.",
  ["evolution.py"], [("input functions", "evolution.py:_get_input_function"), ("per-node input", "evolution.py:do_activity_rule")],
  ["len(trajectory)", "NodeContext.input", "PerturbationContext.input"])

P("C04", "A perturbation replaces each computed activity and nothing else",
  "With a perturbation, at every timestep t >= 1 each node's new activity is exactly the value the perturbation returns for that node's label, computed activity, timestep and input, and the initial state is never perturbed. "
  "The perturbation is called exactly once per node and timestep, always on the freshly computed activity, also when the rule's results are memoized, and the rules of the following timestep see the perturbed values while the rules of the same timestep do not. "
  "A perturbation that returns the computed activity unchanged leaves the evolution as it would be without it.",
  [I, C], "all networks, rules, perturbation functions, inputs, memoization on or off, and the three update orders",
  "Four tests perturb one node of a fixed automaton; none combines perturbation with memoization, inputs or the other update orders.",
  ["evolution.py"], [("perturbation step", "evolution.py:do_activity_rule")],
  ["trajectory activities", "PerturbationContext"])

P("C05", "Past activities are a sliding window over the true history",
  "With k past conditions given, at every timestep the context's past activities are exactly the k most recent activity vectors before the previous timestep's, oldest first and completed from the given past conditions at the start of the evolution, and past_activity_of(label, i) returns the label's entry of the i-th. "
  "This holds for past conditions given as lists or as dicts, and whether or not activities or networks are persisted or compressed. "
  "Without past conditions the context has no past activities.",
  [I, H, C], "all networks, rules, k >= 1 past conditions, lengths of evolution shorter and longer than k, and storage options",
  "Tests use one and three past conditions on one 1D automaton with default storage options.",
  ["evolution.py"], [("window", "evolution.py:_get_past_activities"), ("accessor", "evolution.py:NodeContext.past_activity_of")],
  ["NodeContext.past_activities", "NodeContext.past_activity_of"])

P("C06", "Memoization never changes the evolution",
  "For a rule that depends only on its neighbourhood's activities (on their order only if the network has a rotation system), evolve gives the same trajectory with memoization as without it, and the rule is called at most once per distinct neighbourhood state. "
  "With a user-given memoization key the same holds for every rule that is a function of that key. "
  "Nothing memoized in one call of evolve affects another call.",
  [I, H, C], "all pure rules, activities of any hashable type, networks with and without rotation systems, static and changing topologies, custom keys, and sequences of evolve calls",
  "Tests memoize a handful of fixed automata whose rules can't tell most key collisions apart.",
  ["evolution.py"], [("memo table", "evolution.py:_get_memoized"), ("ordered key", "evolution.py:_OrderedMemoizationKey"), ("unordered key", "evolution.py:_UnorderedMemoizationKey")],
  ["trajectory with memoize=True vs False", "number of rule calls"])

P("C07", "Storage options do not change what is computed",
  "Compression, persisting or not persisting activities and networks, copying or not copying the network before a topology rule that does not modify it in place, and giving the initial conditions as a list, an array or a dict do not change the computed evolution: every activity vector and network that is available in the returned states is the same. "
  "With persist_activities (persist_network) off, the states after the initial one report None as activities (network), and with it on, never None. "
  "Activities returned by rules as NumPy scalars are stored as plain Python values.",
  [I, C], "all networks, rules and combinations of compression, persist_activities, persist_network, copy_network, and forms of initial conditions",
  "No test compares an evolution across storage options; compression is only tested on two fixed networks.",
  ["evolution.py", "state.py"], [("State", "state.py:State"), ("persisting", "evolution.py:evolve_activities, evolve_topology"), ("NumPy unwrapping", "evolution.py:check_np")],
  ["State.activities", "State.network"])

P("C08", "Evolving leaves its arguments and earlier states untouched and is repeatable",
  "evolve does not modify the given initial conditions, past conditions, input or rotation system, nor the given network unless copy_network is off and the topology rule modifies it; with copy_network on, a topology rule that modifies the network it receives changes neither the given network nor the network of any earlier state. "
  "Calling evolve again with the same arguments and pure rules gives the same trajectory. "
  "Evolving in two legs (the second from the first leg's last activities and network) gives the same states as evolving once.",
  [H, I, C], "all networks, pure rules, in-place topology rules, update orders, split points, and repeated calls",
  "Tests never inspect arguments or earlier states after the evolution went on, and never split an evolution.",
  ["evolution.py", "state.py"], [("copy before topology rule", "evolution.py:evolve_topology"), ("fresh activities per timestep", "evolution.py:evolve")],
  ["arguments after evolve", "earlier states of the trajectory"])

P("C09", "Nodes added and removed by the activity rule take effect consistently",
  "When, under activities-first update order, rules add or remove nodes through their context, the network after that timestep is the previous one without the removed nodes and all their connections, plus the added nodes with exactly the requested outgoing connections and attributes; all other connections are unchanged and earlier states keep their networks. "
  "The activities after that timestep have exactly one entry per node of that network: the added nodes' given states and the surviving nodes' computed activities (a node may remove itself or others, and several rules may remove the same node). "
  "From the next timestep on, every node's neighbourhood reflects the new network, also when a topology rule is in use.",
  [H, I], "all histories of node additions and removals over multigraphs, with and without topology rules",
  "Tests grow two fixed systems in which each node removes or links only itself.",
  ["evolution.py", "state.py"], [("collecting changes", "evolution.py:do_activity_rule"), ("applying changes", "evolution.py:evolve_topology"), ("neighbourhood map rebuild", "evolution.py:evolve")],
  ["State.activities keys vs State.network.nodes", "NodeContext.neighbour_labels"])

P("C10", "A Network behaves as a directed multigraph with attributes",
  "After any sequence of adding nodes, adding single or bidirectional edges, updating edges (all parallel ones or those at given indices), removing nodes and removing edges, a Network reports exactly the nodes, edges, edge attributes and node attributes of the directed multigraph that the sequence describes. "
  "In-, out- and total degrees count parallel edges and self-loops (a self-loop counts once in each direction), and membership, edge lookup, incoming edges, length and equality with a network built by the same operations (and inequality with one that differs in an edge or in an attribute of an edge or node) all agree with that multigraph. "
  "Attributes of one edge are never shared with another edge, and updating a connection that does not exist raises an error and changes nothing.",
  [H], "all sequences of public mutating operations over any node labels and attributes",
  "Tests run short fixed sequences on two to five nodes, mostly without parallel edges, self-loops and later removals.",
  ["state.py"], [("add/remove/update", "state.py:Network"), ("degree counters and outgoing lists", "state.py:Network._increment_in_degree etc.")],
  ["Network.nodes/edges/in_edges/edge/has_edge/degree/in_degree/out_degree/__len__/__eq__"])

P("C11", "Copying and compressing a network or state round-trips and is independent",
  "A copy of a network, its compressed and decompressed form, and a compressed State's network and activities equal the originals in nodes, edges, edge and node attributes (including tuples, nested values and NumPy numbers by value), degrees and labels. "
  "Later changes to the copy, including to its attribute values, never show in the original, nor the reverse. "
  "A State keeps empty activities and an empty network as empty rather than missing.",
  [I, H], "all networks with msgpack-representable labels and attributes, followed by any changes to either side",
  "Tests copy two small networks with plain attributes.",
  ["state.py"], [("copy/compress/decompress", "state.py:Network"), ("State", "state.py:State"), ("packing", "state.py:_Compressor")],
  ["Network.copy()", "Network.compress()/decompress()", "State(compression=True)"])

P("C12", "Conversions to and from NetworkX and adjacency matrices preserve the network",
  "Converting a network to a NetworkX multi-digraph keeps all nodes, parallel edges and attributes, and converting that, or any directed NetworkX graph, to a network gives back the same nodes, edges and attributes. "
  "to_adjacency_matrix has, at row i and column j of the node order (the given nodelist, or the network's), the sum of the weight attribute (1 where an edge lacks it) over the edges from i to j, or, when not summing, a single edge's weight, and 0 exactly where there is no edge. "
  "from_adjacency_matrix gives nodes 0..n-1 and one edge i to j with that weight for each non-zero entry, so the two are inverse to each other.",
  [I], "all networks and square matrices, node orders, weight attributes, and summing options",
  "Tests convert fixed networks with at most four nodes.",
  ["state.py", "topology/networks.py"], [("NetworkX conversion", "state.py:Network.from_networkx, to_networkx"), ("adjacency matrix", "state.py:Network.to_adjacency_matrix"), ("from matrix", "topology/networks.py:from_adjacency_matrix")],
  ["Network.to_networkx/from_networkx/to_adjacency_matrix", "topology.from_adjacency_matrix"])

P("C13", "Evolution does not depend on node names or insertion order",
  "Renaming the nodes of a network (and of its initial activities, rotation system and edges) by any one-to-one mapping renames every state of the evolution in the same way and changes nothing else. "
  "Adding the same nodes and edges in a different order gives the same evolution for rules that do not depend on the neighbours' order, and with a rotation system for any rule. "
  "Disjoint parts of a network evolve as they would alone.",
  [I, C], "all networks, renamings (to integers, strings, tuples), insertion orders, update orders, and rules that look at activities and connections only",
  "No test relates two evolutions to each other.",
  ["evolution.py", "state.py"], [("neighbourhood lookup by label", "evolution.py:do_activity_rule"), ("insertion-ordered maps", "state.py:Network")],
  ["pairs of evolve trajectories"])

P("C14", "1D cellular automaton networks are rings with radius-r neighbourhoods",
  "For n cells and radius r with 2r+1 <= n, the 1D cellular automaton adjacency matrix and network connect cell i to exactly the cells i-r..i+r modulo n, itself included, each once. (With a larger radius, below n, every cell is connected to every cell, each once.) "
  "When ordered (the default), each cell's neighbourhood, as its rule sees it, lists those cells from left to right around the ring with the cell itself in the middle; when not ordered, the network has no rotation system. "
  "Fewer than 3 cells is an error.",
  [C], "all n >= 3 and r >= 0 with 2r+1 <= n, ordered or not",
  "Tests pin the matrices of seven (n, r) pairs, and the order only for n up to 5.",
  ["topology/adjacency.py", "topology/networks.py"], [("matrix", "topology/adjacency.py:cellular_automaton"), ("ordering", "topology/networks.py:_shift_to_center")],
  ["topology.adjacency.cellular_automaton", "topology.cellular_automaton", "NodeContext.neighbour_labels"])

P("C15", "2D cellular automaton networks are tori with the named neighbourhoods",
  "For rows and columns of at least 2r+1, cells numbered row by row, the 2D cellular automaton adjacency matrix and network connect a cell to exactly those within row distance r and column distance r on the torus (Moore), or with the sum of both at most r (von Neumann), itself included, each once; the cell itself is in the middle of its ordered neighbourhood. "
  "The Hex neighbourhood of radius 1, for an even number of rows, is the cell and the six cells around it in the hexagonal layout in which odd-indexed rows are shifted by half a cell to the left, the layout plot_hex_grid draws for an even number of rows. "
  "Unknown neighbourhood types and fewer than 9 cells are errors.",
  [C], "all rows, columns and radii in range and the three neighbourhood types",
  "Tests pin a few small square matrices; rectangular grids with larger radius, and Hex beyond 6x6 are not covered.",
  ["topology/adjacency.py", "topology/networks.py"], [("criteria", "topology/adjacency.py:cellular_automaton2d"), ("ordering", "topology/networks.py:_shift_to_center")],
  ["topology.adjacency.cellular_automaton2d", "topology.cellular_automaton2d"])

P("C16", "Lattice, complete, bipartite, disconnected and small-world networks are as named",
  "lattice(dim) connects, in both directions once each, exactly the grid points that differ by one step in one dimension (also across the ends if periodic), labelled consecutively from first_label in the order in which lattice_pos numbers positions, and each node to itself exactly if self_loops is set; complete(n), bipartite(set1, set2) with its edge attributes on both directions, and disconnected(nodes) have exactly the edges their names say. "
  "watts_strogatz_graph(n, k, p, seed), for 2 <= k < n, is symmetric without self-loops or parallel edges, has n*(k//2) undirected edges, is the ring lattice of the k nearest neighbours for p=0, and depends only on its arguments when a seed is given.",
  [C, I], "all dimensions, sizes, label sets, attributes, probabilities and seeds",
  "Tests check one lattice use, one complete, one bipartite and no small-world graph.",
  ["topology/networks.py", "vis/vis_utils.py"], [("builders", "topology/networks.py:lattice, complete, bipartite, disconnected, watts_strogatz_graph"), ("positions", "vis/vis_utils.py:lattice_pos")],
  ["Network.nodes, Network.edges"])

P("C17", "Elementary and general binary CA rules follow the rule numbering",
  "For every neighbourhood of m cells and rule number below 2^(2^m), nks_ca_rule returns the bit of the rule number indexed by the neighbourhood read as a binary number, leftmost cell most significant, and binary_ca_rule without a scheme returns the bit for the reverse listing of neighbourhoods. "
  "A 1D cellular automaton evolved with either on an ordered ring equals the same rule applied to the cells directly. "
  "bits_to_int and int_to_bits are inverse to each other and equal positional binary notation, padded on the left.",
  [I], "all neighbourhood sizes 1..7, rule numbers, neighbourhoods, ring sizes, radii and initial rows",
  "Tests compare a few rules of radius 1 (and one of radius 2) against recorded runs.",
  ["rules/activity_rule.py"], [("rules", "rules/activity_rule.py:binary_ca_rule, nks_ca_rule"), ("bits", "rules/activity_rule.py:bits_to_int, int_to_bits")],
  ["rule return values", "evolve trajectories"])

P("C18", "Totalistic rules map the neighbourhood sum through the rule's base-k digits",
  "For 2 <= k <= 36 colors, every neighbourhood size n and rule number below k^(n(k-1)+1), the totalistic rule returns digit number s of the rule number written in base k (s = sum of the neighbourhood's colors, digit 0 least significant), so it does not depend on the order of the neighbours, and the result is a color from 0 to k-1. "
  "A rule number that is too large for the neighbourhood is an error.",
  [I], "all k, neighbourhood sizes, rule numbers and colorings",
  "Tests run five rule numbers with k <= 4 and 3 neighbours.",
  ["rules/activity_rule.py"], [("digit lookup", "rules/activity_rule.py:totalistic_ca")],
  ["rule return values"])

P("C19", "Game of Life, Wireworld and majority rules obey their definitions on any grid",
  "On any Moore torus of at least 3x3 cells the Game of Life rule keeps a live cell with two or three live neighbours, brings to life a dead cell with exactly three, and makes every other cell dead; the Wireworld rule turns heads into tails, tails into conductors, and a conductor into a head exactly when one or two of its neighbours are heads, empty cells staying empty. "
  "majority_rule returns a most frequent state of the neighbourhood, the only one if there is no tie, and with a tie any of the tied states can be chosen.",
  [I, C], "all grids sizes, initial patterns, and neighbourhood multisets of numbers or strings",
  "Tests replay three recorded runs; the small-world majority test even fails on this Python without the fix.",
  ["rules/activity_rule.py"], [("rules", "rules/activity_rule.py:game_of_life_rule, wireworld_rule, majority_rule")],
  ["evolve trajectories", "rule return values"])

P("C20", "Asynchronous rules update one node per timestep, in the given cyclic order",
  "With AsynchronousRule, in every timestep exactly one node of the update order is updated, to what the wrapped rule returns for it, and all other nodes keep their activity; without reshuffling, the updated node at timestep t is entry (t-1) modulo length of the update order, which is the given list (of distinct labels) or, for n nodes, a permutation of 0..n-1. "
  "Nodes that the given update order does not list are never updated, also when the order is randomized. "
  "The wrapped rule is invoked only for the node being updated, and giving neither an update order nor n is an error.",
  [I, H], "all networks, update orders (any labels, partial lists), rules, numbers of timesteps and random seeds",
  "Tests use a few fixed permutations of rings for one or two cycles, and never a partial order with randomization or non-integer labels.",
  ["asynchronous_rule.py"], [("cyclic update", "asynchronous_rule.py:AsynchronousRule")],
  ["trajectory activities", "calls of the wrapped rule"])

P("C21", "Reversible rules can be run backwards",
  "With ReversibleRule each new activity is the wrapped rule's result XOR the node's activity one timestep earlier than the current one. "
  "Hence taking any two successive states of such an evolution in swapped order, as initial and past conditions, and evolving with the same rule reproduces the earlier states in reverse, back to the start.",
  [I, H], "all binary rules, networks, initial and past conditions, and lengths",
  "One recorded run of one rule.",
  ["reversible_rule.py"], [("XOR with past", "reversible_rule.py:ReversibleRule")],
  ["evolve trajectories run forwards and backwards"])

P("C22", "CTRBL rules look up center, top, right, bottom, left, with rotations if asked",
  "A CTRBLRule on a rows x cols torus gives every cell the image its table holds for the states of (center, top, right, bottom, left), where top is the row above and left the column before, wrapping around; a state that is not in the table is an error. "
  "With add_rotations, every quarter-turn of the four outer states maps to the same image, so evolving a rotated square pattern gives the rotated evolution; without it the table is used as given. "
  "The neighbourhood map names the same cells.",
  [I, C], "all grid sizes from 3x3 (square or not), complete and partial tables, and patterns",
  "Tests pin the maps of two small grids and two recorded patterns.",
  ["ctrbl_rule.py"], [("rotation system", "ctrbl_rule.py:CTRBLRule.__init__"), ("neighbourhood map", "ctrbl_rule.py:_init_neighbourhood_map"), ("rotations", "ctrbl_rule.py:_init_rule_table")],
  ["evolve trajectories", "CTRBLRule.neighbourhood_map, rule_table"])

P("C23", "Langton's loop follows the published transition table and replicates itself",
  "LangtonsLoop's transitions are Langton's 219 published ones and their rotations, with no others. "
  "A loop placed anywhere on a sufficiently large torus evolves exactly as under those transitions, wherever it is placed and however many loops are placed apart, and after 151 timesteps has produced a second loop next to itself.",
  [C, H], "all grid sizes and loop placements in which loops fit, and numbers of timesteps",
  "The two tests of it need a recorded run that is missing from the repository, so they fail at this commit and nothing tests it.",
  ["langtons_loop.py", "ctrbl_rule.py"], [("table", "langtons_loop.py:LangtonsLoop.__init__"), ("initial pattern", "langtons_loop.py:LangtonsLoop.init_loops")],
  ["LangtonsLoop.rule_table", "evolve trajectories"])

P("C24", "The sandpile topples in parallel, conserves grains, and settles correctly",
  "At every timestep of a Sandpile on at least 3x3 cells each cell with four or more grains loses four and gives one to each of its four neighbours on the torus; with a closed boundary the boundary cells hold 0 grains from the first timestep on, so grains that reach them are lost. "
  "With an open boundary the total number of grains never changes. "
  "Whatever the order of toppling, a closed sandpile settles into the same final configuration as toppling cells one at a time.",
  [I, C], "all grid sizes, initial configurations (including far above the threshold) and added grains",
  "Three recorded runs on small grids.",
  ["sandpile.py"], [("toppling", "sandpile.py:Sandpile.activity_rule"), ("boundary", "sandpile.py:Sandpile._get_boundary_indices")],
  ["evolve trajectories"])

P("C25", "Random rule tables are complete and honour lambda, quiescence and isotropy",
  "random_rule_table returns a table with one entry for each of the k^(2r+1) neighbourhood states, with values 0..k-1, the quiescent state used (the given one, if any), and as actual lambda exactly the fraction of entries that do not map to it; each freely chosen entry is quiescent with probability 1 - lambda (so all are for lambda 0 and none for 1) and otherwise any other state. "
  "With strong quiescence every uniform neighbourhood maps to its own state, and with isotropy a neighbourhood and its mirror image map to the same state; a quiescent state outside 0..k-1 is an error. "
  "table_rule returns for each neighbourhood the entry of its state in such a table, or an error if there is none.",
  [I, C], "all k, r, lambda, quiescent states, the two flags, and random seeds",
  "Tests sample a few tables with k <= 4.",
  ["rule_tables.py"], [("construction", "rule_tables.py:random_rule_table"), ("lookup", "rule_tables.py:table_rule")],
  ["returned table, lambda, quiescent state"])

P("C26", "Table walk-through moves lambda to the target without breaking constraints",
  "table_walk_through returns a table over the same states, and as actual lambda exactly its fraction of non-quiescent entries; it changes entries only to the quiescent state when lambda has to fall, only from it when lambda has to rise, and none if it is already at the target. "
  "It stops only once the target is reached or passed by the last single change, or no entry is left that may change; any entry that may change can be the next one, and when lambda rises any state but the quiescent one can be its new value. "
  "With strong quiescence the entries of uniform neighbourhoods are never changed, and with isotropy an isotropic table stays isotropic.",
  [I, H], "all tables, targets, quiescent states, flags, seeds, and repeated walks in both directions",
  "Tests walk two small tables.",
  ["rule_tables.py"], [("walk", "rule_tables.py:table_walk_through")],
  ["returned table and lambda"])

P("C27", "Turing machines compute what the transition table says",
  "A tape-centric machine's states are, at every timestep, the tape of the Turing machine with the given transition table on a ring of n cells, and its head annotations give the head's state at its position; a head-centric machine's states are the head's (state, position), with the tape history matching. "
  "Head-centric evolution ends when the terminating state is reached or the maximum number of timesteps is, whichever is first. "
  "Both give the same tapes and head positions for the same machine, and a missing transition is an error.",
  [I, H], "all transition tables (moves left, right, stay), tapes of at least 3 cells, head positions, and lengths, including heads that wrap around",
  "Tests run three known machines.",
  ["turing_machine.py"], [("tape-centric", "turing_machine.py:TapeCentricTuringMachine"), ("head-centric", "turing_machine.py:HeadCentricTuringMachine")],
  ["evolve trajectories", "head_activities", "activities_for_plotting"])

P("C28", "Substitution systems rewrite every window of the string, in order",
  "For rules whose keys all have length k, each timestep's string is the concatenation, from left to right, of the replacements of all windows of k successive symbols of the previous string, and empty if it has fewer than k; constants (k = 1) are replaced by themselves. "
  "The string of every timestep is given by the activities in label order, as to_string returns it, and pad right-pads all of them with zeros to the longest. "
  "Keys of different lengths and windows without a rule are errors.",
  [I, H], "all alphabets, rule maps (including empty replacements), axioms as strings or lists of numbers, and numbers of timesteps",
  "Tests run eight known systems with k <= 2, none of which dies out.",
  ["substitution_system.py", "evolution.py"], [("rewriting", "substitution_system.py:SubstitutionSystem.activity_rule"), ("rendering", "substitution_system.py:to_string, pad")],
  ["SubstitutionSystem.to_string(trajectory)", "pad(trajectory)"])

P("C29", "The Wolfram Physics Model rewrites all matching relations, and only those",
  "A configuration of relations of any arity converted to a network and back is the same list of relations in the same order. "
  "Each step replaces disjoint groups of relations that match the rule's left-hand side under a consistent assignment of nodes to symbols by the right-hand side under the same assignment, with new distinct integers that were not in the configuration for new symbols, separately for each group, and leaves every other relation as it was. "
  "It rewrites a maximal set: no group of relations that were left matches the left-hand side.",
  [I, H], "all configurations (unary, binary and higher relations, repeated nodes and relations), rules with one or more relations on each side, and numbers of steps",
  "Tests replay known evolutions of a few rules with fewer than ten relations for the order-sensitive part.",
  ["wolfram_physics_model.py"], [("round trip", "wolfram_physics_model.py:network_to_config, _init_network_and_conditions"), ("rewriting", "wolfram_physics_model.py:topology_rule")],
  ["WolframPhysicsModel.to_configurations(trajectory)"])

P("C30", "Fungal growth keeps links on the lattice, one-way, and conserves flow",
  "In every state of a FungalGrowthModel links exist only between lattice neighbours (periodic), at most one per pair of neighbours and in one direction, are never removed, and each link's weight is one over its source's number of outgoing links; two connected-to-be neighbours that both hold resource are always linked after the step, two that hold none never get linked in it, and otherwise the link grows from the one that holds resource with probability one over four minus its number of links. "
  "Each agent's new resource is the weighted sum of what flows in (its own if nothing flows in) plus the absorption rate if it is alive and the resource layer has resource there. "
  "A given seed, 0 included, makes runs reproducible.",
  [I, H], "all grid sizes, initial resources, resource layers, absorption rates, seeds and lengths",
  "One recorded run of one seed.",
  ["fungal_growth_model.py"], [("growth", "fungal_growth_model.py:topology_rule"), ("flow", "fungal_growth_model.py:activity_rule"), ("seed", "fungal_growth_model.py:__init__")],
  ["State.network, State.activities"])

P("C31", "Hopfield nets learn Hebbian weights and never increase their energy",
  "After training, a HopfieldNet's weight between two different nodes is the sum over the patterns of the product of their values, symmetric and 0 on the diagonal, and its network has exactly the non-zero weights as connections; training again replaces what was learned. "
  "In every timestep at most one node changes, to 1 if its weighted input is >= 0 and -1 otherwise, so the energy never increases, and no node is left out for ever, so that the net settles where every node agrees with its input; a pattern (of at least two values) that is alone in the memory is stable, as is its inverse.",
  [I, H], "all sets of bipolar patterns of any length, starting patterns, seeds and lengths",
  "Two recorded runs with one seed.",
  ["hopfield_net.py", "asynchronous_rule.py"], [("training", "hopfield_net.py:HopfieldNet.train"), ("update", "hopfield_net.py:HopfieldNet._rule")],
  ["HopfieldNet.adjacency_matrix, network", "evolve trajectories"])

P("C32", "Hopfield-Tank nets follow the TSP equations and report true tours",
  "get_distances lists each unordered pair of points once with its Euclidean distance, and the network connects all n*n nodes (point, position) with each other. "
  "Each timestep changes every node's potential by dt times the Hopfield-Tank expression with its row, column, global and distance terms (positions wrapping around the tour). "
  "get_permutation_matrix applies the sigmoid to the last activities, and get_tour_graph turns any permutation matrix into the closed tour visiting the points in that order, with its total length, which plot_tour draws, or raises an error if two points claim one position.",
  [I], "all point sets of at least 3 points, parameters, potentials and permutations",
  "One recorded run, and one tour (whose test fails here by a rounding difference).",
  ["hopfield_tank_tsp_net.py"], [("potential", "hopfield_tank_tsp_net.py:activity_rule"), ("tour", "hopfield_tank_tsp_net.py:get_tour_graph")],
  ["evolve trajectories", "get_distances/get_permutation_matrix/get_tour_graph"])

P("C33", "Information measures equal their definitions and obey their laws",
  "shannon_entropy, joint_shannon_entropy and mutual_information of strings equal the definitions over the symbols' relative frequencies in bits; entropy lies between 0 and log2 of the number of distinct symbols, mutual information is symmetric, not negative, at most either entropy, and that of a string with itself is its entropy. "
  "average_node_entropy and average_mutual_information are the means over nodes of those measures on each node's sequence of activities (any values, each a single symbol), the latter between the sequence without its last d and without its first d entries for every temporal distance d from 1 to one less than the number of timesteps; other distances, and no activities, are errors. "
  "A trajectory and its list of activities give the same values.",
  [I], "all strings, and all activity matrices of numbers or strings and temporal distances",
  "Tests evaluate a few strings and three recorded automata of more nodes than timesteps.",
  ["analysis.py"], [("measures", "analysis.py")],
  ["return values"])

P("C34", "Initial-condition and data helpers return what they document",
  "init_simple and init_simple2d return all zeros but for the given value at the center (index size//2 in each dimension); init_random returns size values of which exactly the centered n_randomized may differ from empty_value, in {0..k-1} for integer types and within [0, k-1] for floats, depending only on NumPy's random state, and n_randomized outside 0..size is an error. "
  "get_activities_over_time_as_list gives one row per state with activities, ordered by node label; ncr is the binomial coefficient (0 if r > n) and rejects negative or non-integer arguments; binarize_for_plotting gives each number's binary digits, left-padded to the longest.",
  [I], "all sizes, values, types, seeds, trajectories and numbers",
  "Tests use a few fixed sizes and values.",
  ["evolution.py", "utils.py"], [("init functions", "evolution.py:init_simple, init_random, init_simple2d"), ("helpers", "utils.py:ncr, binarize_for_plotting, get_activities_over_time_as_list")],
  ["return values"])

P("C35", "The turtle moves as told and L-system drawings follow the bindings",
  "After any sequence of forward, rotate, push and pop, a Turtle's position and orientation are those of turtle geometry (orientation 0 is up, positive turns are clockwise, pop restores the matching push's position and orientation without drawing), its trajectory holds exactly one segment from old to new position per forward, and abs is its distance from the origin. "
  "plot_L_system and animate_L_system perform, for each symbol of the state in order, exactly its bound instruction or list of instructions with their arguments; plotting draws exactly the trajectory's segments, and animating draws them one after the other, in order, within fixed limits that contain all of them.",
  [H], "all operation sequences, start positions, L-system strings and bindings",
  "Tests execute about ten fixed moves.",
  ["turtle.py", "utils.py"], [("moves", "turtle.py:Turtle"), ("rendering", "utils.py:_render_L_system")],
  ["Turtle.pos/orientation/trajectory/abs", "matplotlib axes after plot"])

P("C36", "Plots show exactly the data they are given",
  "plot_activities and plot_grid show the activities, or with a shape the reshaped state at the given slice, cell by cell with the given limits; animate_activities, animate_plot1D and animate_hex show the states one after the other, in order, with the given limits; plot1D draws each series against x with its own label and color, alternating between both axes with twinx; plot_hex_grid draws one cell per node at its place in the hexagonal layout with a color that depends on its value. "
  "plot_degree_distribution's bar for degree d (from 1 to the maximum) is the number of nodes with that total, in- or out-degree, as asked; poincare_plot draws the pairs of successive values of the last given number of timesteps of each series, and bifurcation_plot the distinct values of each trajectory's last timesteps at its x. "
  "No plot modifies the data it is given.",
  [I, C], "all activities, shapes, slices, series, options, networks and trajectories",
  "The tests contain no plot at all.",
  ["utils.py", "hexplot.py"], [("plots", "utils.py"), ("hex layout", "hexplot.py:plot_hex_grid")],
  ["matplotlib figures under the Agg backend"])

P("C37", "Network visualisations contain exactly the network's nodes and edges",
  "configuration_to_nx gives a multi-digraph with exactly the nodes of the configuration's relations and one edge per successive pair in each relation; get_html, for a graph whose nodes are numbers, lists every node once with its label and every edge once with its direction, repeated self-loops with growing sizes; lattice_pos numbers the points of a grid row by row. "
  "show_network writes that page to the given file, and plot_network and animate_network draw exactly the network's nodes and edges (of each state, for an animation), at the given positions and with the given colors.",
  [I], "all configurations, graphs, networks and layouts",
  "The tests contain no visualisation.",
  ["vis/vis_utils.py", "utils.py"], [("html", "vis/vis_utils.py:get_html"), ("conversion", "vis/vis_utils.py:configuration_to_nx"), ("drawing", "utils.py:plot_network, animate_network")],
  ["returned graph and html", "matplotlib axes under the Agg backend"])

with open(OUT, "w") as f:
    for r in ROWS:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(ROWS), "properties")
