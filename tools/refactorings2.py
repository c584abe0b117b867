"""A second set of rewrites for refactorings.py (--second): helpers extracted, statements reordered, loops rewritten."""
R = []


def r(f, old, new):
    R.append((f, old, new))


EV = "evolution.py"
r(EV, "    input_fn = _get_input_function(timesteps, input)\n\n    if len(initial_conditions) != len(network) and activity_rule:\n        raise Exception(\"too few intial conditions specified [%s] for the number of given nodes [%s]\" %\n                        (len(initial_conditions), len(network)))\n",
  "    if activity_rule and len(network) != len(initial_conditions):\n        raise ValueError(\"%s initial conditions for %s nodes\" % (len(initial_conditions), len(network)))\n\n    input_fn = _get_input_function(timesteps, input)\n")
r(EV, "        past = _get_past_activities(past_conditions, history, t)\n        curr_activities = {}\n        trajectory[t] = State(compression=compression)\n",
  "        curr_activities = {}\n        state = State(compression=compression)\n        trajectory[t] = state\n        past = _get_past_activities(past_conditions, history, t)\n")
r(EV, "    neighbourhood_map = None\n    if topology_rule is None:\n        neighbourhood_map = _get_neighbourhood_map(network)\n",
  "    neighbourhood_map = _get_neighbourhood_map(network) if topology_rule is None else None\n")
r(EV, "    while True:\n        inp = input_fn(t, prev_activities, prev_network)\n        if inp is None:\n            break\n\n", "    inp = input_fn(t, prev_activities, prev_network)\n    while inp is not None:\n")
r(EV, "        t += 1\n\n    # since", "        t += 1\n        inp = input_fn(t, prev_activities, prev_network)\n\n    # since")
r(EV, "        node_in = None if inp == \"__timestep__\" else inp[node_label] if _is_indexable(inp) else inp\n        ctx = NodeContext(node_label, t, prev_activities, neighbour_labels, neighbourhood_activities,\n                          incoming_connections, current_activity, past, node_in)\n",
  "        if isinstance(inp, str) and inp == \"__timestep__\":\n            node_in = None\n        elif _is_indexable(inp):\n            node_in = inp[node_label]\n        else:\n            node_in = inp\n        ctx = NodeContext(node_label=node_label, timestep=t, activities=prev_activities, neighbour_labels=neighbour_labels,\n                          neighbourhood_activities=neighbourhood_activities, connection_states=incoming_connections,\n                          current_activity=current_activity, past_activities=past, input=node_in)\n")
r(EV, "        if ctx.added_nodes:\n            added_nodes.extend(ctx.added_nodes)\n        if ctx.removed_nodes:\n            removed_nodes.extend(ctx.removed_nodes)\n\n        if node_label not in ctx.removed_nodes:\n            curr_activities[node_label] = new_activity\n\n            if perturbation is not None:\n                pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)\n                curr_activities[node_label] = check_np(perturbation(pctx))\n",
  "        if node_label not in ctx.removed_nodes:\n            if perturbation is not None:\n                new_activity = check_np(perturbation(PerturbationContext(node_label, new_activity, t, node_in)))\n            curr_activities[node_label] = new_activity\n\n        added_nodes += ctx.added_nodes\n        removed_nodes += ctx.removed_nodes\n")
r(EV, "        for node_label in removed_nodes:\n            curr_activities.pop(node_label, None)\n\n        if added_nodes:\n            for state, outgoing_links, node_label in added_nodes:\n                curr_activities[node_label] = check_np(state)\n",
  "        for node_label in set(removed_nodes):\n            if node_label in curr_activities:\n                del curr_activities[node_label]\n\n        curr_activities.update((node_label, check_np(state)) for state, _, node_label in added_nodes)\n")
r(EV, "        for node_label in dict.fromkeys(removed_nodes):\n            network.remove_node(node_label)\n", "        done = []\n        for node_label in removed_nodes:\n            if node_label in done:\n                continue\n            network.remove_node(node_label)\n            done.append(node_label)\n")
r(EV, "        past_activities = [None]*len(past_conditions)\n        last_t = t - 1\n        for i in range(len(past_conditions)-1, -1, -1):\n\n            curr_past_cond = past_conditions[last_t-1] if last_t < 1 else history[last_t-1]\n            if not isinstance(curr_past_cond, dict) and isinstance(curr_past_cond, (list, np.ndarray)):\n                curr_past_cond = {i: v for i, v in enumerate(curr_past_cond)}\n\n            past_activities[i] = curr_past_cond\n            last_t -= 1\n        return past_activities\n",
  "        past_activities = []\n        for when in range(t - 1 - len(past_conditions), t - 1):\n            cond = history[when] if when >= 0 else past_conditions[when]\n            past_activities.append(dict(enumerate(cond)) if isinstance(cond, (list, np.ndarray)) else cond)\n        return past_activities\n")
r(EV, "        return tuple(ctx.neighbourhood_activities)\n", "        key = []\n        for a in ctx.neighbourhood_activities:\n            key.append(a)\n        return tuple(key)\n")
r(EV, "        if (t-1) >= len(self._input_list):\n            return None\n        return self._input_list[t-1]\n", "        if t <= len(self._input_list):\n            return self._input_list[t-1]\n        return None\n")
r(EV, "    pad_right = (size - n_randomized) - pad_left\n", "    pad_right = size - pad_left - n_randomized\n")
ST = "state.py"
r(ST, "        if i not in self._network[j][\"incoming\"]:\n            self._network[j][\"incoming\"][i] = []\n        self._network[j][\"incoming\"][i].append(attr)\n        self._increment_in_degree(j)\n        self._increment_out_degree(i)\n        self._add_outgoing(i, j)\n",
  "        self._network[i][\"outgoing\"].append(j)\n        self._network[i][\"out\"] += 1\n        self._network[j][\"incoming\"].setdefault(i, []).append(attr)\n        self._network[j][\"in\"] += 1\n")
r(ST, "        self._init_node(node_label)\n        self._network[node_label].update(attr)\n", "        if node_label not in self._network:\n            self._network[node_label] = self._new_node()\n        for k, v in attr.items():\n            self._network[node_label][k] = v\n")
r(ST, "        for i, v in self._network[node_label][\"incoming\"].items():\n            self._decrement_out_degree(i, n=len(v))\n            self._remove_outgoing(i, node_label)\n        for j in self._network[node_label][\"outgoing\"]:\n            self._decrement_in_degree(j)\n            self._remove_incoming(node_label, j)\n        del self._network[node_label]\n",
  "        node = self._network.pop(node_label)\n        for j in node[\"outgoing\"]:\n            if j != node_label:\n                self._decrement_in_degree(j)\n                self._remove_incoming(node_label, j)\n        for i in node[\"incoming\"]:\n            if i != node_label:\n                self._decrement_out_degree(i, n=len(node[\"incoming\"][i]))\n                self._remove_outgoing(i, node_label)\n")
r(ST, "        n = len(self._network[j][\"incoming\"][i])\n        self._remove_outgoing(i, j)\n        self._decrement_out_degree(i, n=n)\n        self._decrement_in_degree(j, n=n)\n        self._remove_incoming(i, j)\n",
  "        n = len(self._network[j][\"incoming\"].pop(i))\n        self._network[j][\"in\"] -= n\n        self._network[i][\"out\"] -= n\n        self._remove_outgoing(i, j)\n")
r(ST, "        for node in G.nodes(data=True):\n            network.add_node(node[0])\n            network[node[0]].update(node[1])\n        for edge in G.edges(data=True):\n            network.add_edge(edge[0], edge[1])\n            network.edge(edge[0], edge[1])[-1].update(edge[2])\n",
  "        for label, attrs in G.nodes(data=True):\n            network._network[label] = dict(network._new_node(), **{})\n            network._network[label].update(attrs)\n        for i, j, attrs in G.edges(data=True):\n            network.add_edge(i, j)\n            network.edge(i, j)[-1].update(attrs)\n")
r(ST, "            atts = {}\n            for key in self._network[node]:\n                if key not in self._new_node():\n                    atts[key] = self._network[node][key]\n            G.add_nodes_from([(node, atts)])\n",
  "            reserved = self._new_node().keys()\n            G.add_nodes_from([(node, {key: v for key, v in self._network[node].items() if key not in reserved})])\n")
r(ST, "            w = atts[weight] if weight in atts else 1\n", "            w = atts.get(weight, 1)\n")
r(ST, "        return {\"in\": 0, \"out\": 0, \"incoming\": {}, \"outgoing\": []}", "        return {\"outgoing\": [], \"incoming\": {}, \"out\": 0, \"in\": 0}")
r(ST, "        if self._activities is not None:\n            return _Compressor.decompress(self._activities) if self._compression else self._activities\n", "        if self._activities is None:\n            return None\n        if not self._compression:\n            return self._activities\n        return _Compressor.decompress(self._activities)\n")
r(ST, "        gc.disable()\n        d = msgpack.unpackb(packed, strict_map_key=False, ext_hook=_Compressor._unpack_ext)\n        gc.enable()\n        return d\n", "        return msgpack.unpackb(packed, strict_map_key=False, ext_hook=_Compressor._unpack_ext)\n")
AD = "topology/adjacency.py"
r(AD, "                neighbourhood_points = _get_neighbourhood_points2d(a, b, r, criteria, rownum)\n                for point in neighbourhood_points:\n                    x = point[0] if point[0] == -1 else point[0] % len(lattice)\n                    y = point[1] if point[1] == -1 else point[1] % len(lattice[a])\n                    adjacency_matrix[adjacency_row_num][lattice[x][y]] = 1.\n",
  "                for x, y in _get_neighbourhood_points2d(a, b, r, criteria, rownum):\n                    adjacency_matrix[adjacency_row_num][(x % rows) * cols + y % cols] = 1.\n")
r(AD, "    neighbourhood_points = [[(x, y) for y in range(b-r, b+r+1)] for x in range(a-r, a+r+1)]\n    filtered = [[p for p in row if criteria(p[0], p[1], a, b, r, rownum)] for row in neighbourhood_points]\n    return [item for sublist in filtered for item in sublist]  # flatten the list of lists\n",
  "    return [(x, y) for y in range(b-r, b+r+1) for x in range(a-r, a+r+1) if criteria(x, y, a, b, r, rownum)]\n")
NW = "topology/networks.py"
r(NW, "    center = len(nodes) // 2\n    shifted = deque(sorted(nodes))\n", "    shifted = deque(sorted(nodes))\n    center = len(shifted) // 2\n")
r(NW, "    for edge in G.edges:\n        if edge[0] == edge[1]:\n            continue\n        network.add_edge(edge[1], edge[0])\n        network.add_edge(edge[0], edge[1])\n    for node in G.nodes:\n        network.add_node(node)\n        if self_loops:\n            network.add_edge(node, node)\n",
  "    for node in G.nodes:\n        network.add_node(node)\n        if self_loops:\n            network.add_edge(node, node)\n    for i, j in G.edges:\n        if i != j:\n            network.add_edge_bidir(i, j)\n")
r(NW, "    if isinstance(nodes, (list, np.ndarray)):\n        [network.add_node(n) for n in nodes]\n", "    if isinstance(nodes, (list, np.ndarray)):\n        for n in nodes:\n            network.add_node(n)\n")
r(NW, "            if edge_attributes is None:\n                network.add_edge_bidir(node1, node2)\n            else:\n                attrs = edge_attributes[node1][node2]\n                network.add_edge_bidir(node1, node2, **attrs)\n",
  "            attrs = {} if edge_attributes is None else edge_attributes[node1][node2]\n            network.add_edge(node1, node2, **attrs)\n            network.add_edge(node2, node1, **attrs)\n")
AR = "rules/activity_rule.py"
r(AR, "    converted = list(map(int, bin(num)[2:]))\n    return np.pad(converted, (num_digits - len(converted), 0), 'constant')\n", "    digits = bin(num)[2:]\n    if len(digits) > num_digits:\n        raise ValueError(\"%s does not fit into %s digits\" % (num, num_digits))\n    return np.array([int(c) for c in digits.zfill(num_digits)], dtype=int)\n")
r(AR, "    if ctx.current_activity == 0:  # empty\n        return 0\n    if ctx.current_activity == 1:  # electron head\n        return 2\n    if ctx.current_activity == 2:  # electron tail\n        return 3\n    if ctx.current_activity == 3:  # conductor\n        electron_head_count = ctx.neighbourhood_activities.count(1)\n        return 1 if electron_head_count == 1 or electron_head_count == 2 else 3\n",
  "    cell = ctx.current_activity\n    if cell == 3:\n        return 1 if list(ctx.neighbourhood_activities).count(1) in (1, 2) else 3\n    for state, after in ((0, 0), (1, 2), (2, 3)):\n        if cell == state:\n            return after\n")
WP = "wolfram_physics_model.py"
r(WP, "            prev = None\n            edge_label = str(c+1)\n            is_hyperedge = len(relation) > 2\n            next_edge_num = 0\n            for node in relation:\n                if prev is not None:\n                    prev_state = {\"label\": edge_label}\n                    if is_hyperedge:\n                        prev_state[\"hyperedge_index\"] = next_edge_num\n                    network.add_edge(prev, node, **prev_state)\n                    next_edge_num += 1\n                prev = node\n                if node > last_node:\n                    last_node = node\n",
  "            edge_label = str(c+1)\n            is_hyperedge = len(relation) > 2\n            for k, (i, j) in enumerate(zip(relation, relation[1:])):\n                if is_hyperedge:\n                    network.add_edge(i, j, label=edge_label, hyperedge_index=k)\n                else:\n                    network.add_edge(i, j, label=edge_label)\n            last_node = max([last_node] + list(relation))\n")
r(WP, "                merged = [0] * (len(parts) + 1)\n                for part in parts:\n                    edge = part[0]\n                    index = part[1]\n                    merged[index] = edge[0]\n                    if (index + 2) == len(merged):\n                        merged[-1] = edge[1]\n                merged_hyperedges[edge_label] = tuple(merged)\n",
  "                parts = sorted(parts, key=lambda part: part[1])\n                merged_hyperedges[edge_label] = (parts[0][0][0],) + tuple(edge[1] for edge, _ in parts)\n")
r(WP, "        configs = []\n        for state in trajectory:\n            configs.append(self.network_to_config(state.network))\n        return configs\n", "        return [self.network_to_config(state.network) for state in trajectory]\n")
SS = "substitution_system.py"
r(SS, "        for i, state in enumerate(new_state):\n            self._last_node_index += 1\n            new_node_label = self._last_node_index\n            self._num_nodes_added += 1\n            outgoing_links = {}\n            for j in range(0, min(self._num_nodes_added, self._neighbourhood_size)):\n                outgoing_links[new_node_label - j] = {}\n            state = self._dtype(state)\n            ctx.add_node(state, outgoing_links, new_node_label)\n",
  "        for state in new_state:\n            self._add_node(ctx, state)\n")
r(SS, "    def _update_last_timestep(self, ctx):\n", "    def _add_node(self, ctx, state):\n        self._last_node_index += 1\n        self._num_nodes_added += 1\n        label = self._last_node_index\n        reach = min(self._num_nodes_added, self._neighbourhood_size)\n        ctx.add_node(self._dtype(state), {label - j: {} for j in range(reach)}, label)\n\n    def _update_last_timestep(self, ctx):\n")
r(SS, "        for i in range(n):\n            network.add_edge(i, i)\n            for j in range(1, self._neighbourhood_size):\n                if (i + j) < n:\n                    network.add_edge(i + j, i)\n", "        for i in range(n):\n            for j in range(i, min(n, i + self._neighbourhood_size)):\n                network.add_edge(j, i)\n")
TM = "turing_machine.py"
r(TM, "        if ctx.timestep != self._current_timestep:\n            self._current_timestep = ctx.timestep\n        head_state, head_pos = self._head_history[self._current_timestep - 1]\n        node_state = ctx.current_activity\n        if ctx.node_label == head_pos:\n            try:\n                next_head_state, new_node_state, direction = self._rule_table[head_state][node_state]\n            except KeyError as err:\n                raise Exception(\"no rule defined for head state %s, input %s\" % (head_state, node_state)) from err\n            self._head_history.append((next_head_state, ctx.neighbour_labels[direction]))\n            return new_node_state\n        return node_state\n",
  "        head_state, head_pos = self._head_history[ctx.timestep - 1]\n        node_state = ctx.current_activity\n        if ctx.node_label != head_pos:\n            return node_state\n        if head_state not in self._rule_table or node_state not in self._rule_table[head_state]:\n            raise KeyError(\"no rule defined for head state %s, input %s\" % (head_state, node_state))\n        next_head_state, new_node_state, direction = self._rule_table[head_state][node_state]\n        self._head_history.append((next_head_state, ctx.neighbour_labels[direction]))\n        return new_node_state\n")
r(TM, "        new_tape = [i for i in self._tape_history[-1]]\n        new_tape[head_pos] = val_to_write\n        self._tape_history.append(new_tape)\n\n        if self._terminating_state is not None and next_head_state == self._terminating_state:\n            self._halt = True\n\n        self._head_pos = self._next_pos(direction, head_pos)\n",
  "        self._head_pos = self._next_pos(direction, head_pos)\n        if self._terminating_state is not None:\n            self._halt = self._halt or next_head_state == self._terminating_state\n        tape = self._tape_history[-1]\n        self._tape_history.append([val_to_write if i == head_pos % len(tape) else v for i, v in enumerate(tape)])\n")
FG = "fungal_growth_model.py"
r(FG, "        for i, j, _ in new_network.edges:\n            new_network.update_edge(i, j, weight=1/new_network.out_degree(i))\n", "        for i, j, attrs in list(new_network.edges):\n            attrs[\"weight\"] = 1 / new_network.out_degree(i)\n")
r(FG, "        neighbour_contribution = 0. if len(ctx.neighbour_labels) > 0 else ctx.current_activity\n        for neighbour in ctx.neighbour_labels:\n            neighbour_contribution += ctx.connection_states[neighbour][0][\"weight\"] * ctx.activities[neighbour]\n",
  "        if not ctx.neighbour_labels:\n            neighbour_contribution = ctx.current_activity\n        else:\n            neighbour_contribution = sum(ctx.connection_states[n][0][\"weight\"] * ctx.activities[n] for n in reversed(ctx.neighbour_labels))\n")
AS = "asynchronous_rule.py"
r(AS, "        if ctx.node_label in self._update_order:\n            self._num_applied += 1\n        if not self._should_update(ctx.node_label):\n            self._check_for_end_of_cycle()\n            return ctx.current_activity\n        self._check_for_end_of_cycle()\n        return self._activity_rule(ctx)\n",
  "        update = self._should_update(ctx.node_label)\n        if ctx.node_label in self._update_order:\n            self._num_applied += 1\n        self._check_for_end_of_cycle()\n        return self._activity_rule(ctx) if update else ctx.current_activity\n")
RR = "reversible_rule.py"
r(RR, "        regular_result = self._activity_rule(ctx)\n        new_result = regular_result ^ ctx.past_activity_of(ctx.node_label)\n        return new_result\n", "        before = ctx.past_activity_of(ctx.node_label)\n        return before ^ self._activity_rule(ctx)\n")
RT = "rule_tables.py"
r(RT, "        if not state_repr in table:\n            # the tables for more than 10 states use the digits of base k, as random_rule_table does (e.g. 'A' for 10)\n            state_repr = ''.join(np.base_repr(x, 36) if x in range(10, 36) else str(x)\n                                 for x in ctx.neighbourhood_activities)\n        if not state_repr in table:\n            raise Exception(\"could not find state '%s' in table\" % state_repr)\n        return table[state_repr]\n",
  "        if state_repr in table:\n            return table[state_repr]\n        # the tables for more than 10 states use the digits of base k, as random_rule_table does (e.g. 'A' for 10)\n        state_repr = ''.join(np.base_repr(x, 36) if x in range(10, 36) else str(x)\n                             for x in ctx.neighbourhood_activities)\n        return table[state_repr]\n")
r(RT, "    for i in range(0, k**n):\n        states.append(np.base_repr(i, k).zfill(n))\n", "    for i in reversed(range(0, k**n)):\n        states.append(np.base_repr(i, k).zfill(n))\n")
r(RT, "    actual_lambda_val = (k**n - quiescent_state_count) / k**n\n    return table, actual_lambda_val, quiescent_state", "    others = sum(1 for v in table.values() if v != quiescent_state)\n    return table, others / len(table), quiescent_state")
AN = "analysis.py"
r(AN, "    return shannon_entropy(stringX) + shannon_entropy(stringY) - joint_shannon_entropy(stringX, stringY)", "    return (shannon_entropy(stringY) - joint_shannon_entropy(stringX, stringY)) + shannon_entropy(stringX)")
r(AN, "    num_cols = len(activities[0])\n    entropies = []\n    for i in range(0, num_cols):\n        node_states_over_time = [str(x) for x in [y[i] for y in activities]]\n        entropy = shannon_entropy(node_states_over_time)\n        entropies.append(entropy)\n    return np.mean(entropies)\n",
  "    entropies = [shannon_entropy([str(row[i]) for row in activities]) for i in range(len(activities[0]))]\n    return sum(entropies) / len(entropies)\n")
HN = "hopfield_net.py"
r(HN, "                for j in range(len(p)):\n                    if i ==j:\n                        self._adjacency_matrix[i, j] = 0\n                    else:\n                        self._adjacency_matrix[i, j] += p[i]*p[j]\n", "                for j in range(i):\n                    self._adjacency_matrix[i, j] += p[i]*p[j]\n                    self._adjacency_matrix[j, i] += p[i]*p[j]\n")
HT = "hopfield_tank_tsp_net.py"
r(HT, "            # global inhibition\n            C_sum += self._V(neighbour_activity)\n\n            if neighbour_node_col", "            if neighbour_node_col")
r(HT, "        D_sum = 0\n        for i, neighbour_activity", "        D_sum = 0\n        C_sum = sum(self._V(a) for a in ctx.neighbourhood_activities)\n        for i, neighbour_activity")
r(HT, "        num_points = len(points)\n        current_point = 0\n        current_node = 0\n        while current_point < num_points:\n            for n in range(num_points):\n                node_label_map[current_node] = (current_point, n)\n                current_node += 1\n            current_point += 1\n        return node_label_map\n", "        n = len(points)\n        for k in range(n * n):\n            node_label_map[k] = divmod(k, n)\n        return node_label_map\n")
HX = "hexplot.py"
r(HX, "    triples = _get_triples(activities)\n    has_odd_rows = (len(activities) % 2) != 0\n    fig, ax = plt.subplots(1)\n    ax.set_aspect('equal')\n    m = _get_scaled_colormap(triples, colormap, vmin, vmax)\n    for t in triples:\n        x, y = _oddr_offset_to_pixel(t[0], t[1]) if has_odd_rows else _evenr_offset_to_pixel(t[0], t[1])\n        hex = RegularPolygon((x, y), numVertices=6, radius=1.,\n                             orientation=np.radians(60),\n                             facecolor=m.to_rgba(t[2]), edgecolor=edgecolor)\n        ax.add_patch(hex)\n",
  "    fig, ax = plt.subplots(1)\n    plt.title(title)\n    ax.set_aspect('equal')\n    triples = _get_triples(activities)\n    m = _get_scaled_colormap(triples, colormap, vmin, vmax)\n    to_pixel = _oddr_offset_to_pixel if len(activities) % 2 else _evenr_offset_to_pixel\n    for col, row, val in reversed(triples):\n        ax.add_patch(RegularPolygon(to_pixel(col, row), numVertices=6, radius=1., orientation=0.,\n                                    facecolor=m.to_rgba(val), edgecolor=edgecolor))\n")
r(HX, "        i['index'] += 1\n        if i['index'] == len(activities):\n            i['index'] = 0\n", "        i['index'] = (i['index'] + 1) % len(activities)\n")
r(HX, "    return [(x, y, val) for y, row in enumerate(activities) for x, val in enumerate(row)]", "    triples = []\n    for y in range(len(activities)):\n        for x in range(len(activities[y])):\n            triples.append((x, y, activities[y][x]))\n    return triples")
UT = "utils.py"
r(UT, "    cmap = plt.get_cmap(colormap)\n    plt.title(title)\n    plt.imshow(activities, interpolation='none', cmap=cmap, vmin=vmin, vmax=vmax)\n", "    ax = plt.gca()\n    ax.imshow(activities, interpolation='none', cmap=plt.get_cmap(colormap), vmin=vmin, vmax=vmax)\n    ax.set_title(title)\n")
r(UT, "        plt.xticks(np.arange(-.5, len(activities[0]), 1), \"\")\n        plt.yticks(np.arange(-.5, len(activities), 1), \"\")\n        plt.tick_params(axis='both', which='both', length=0)\n\n    plt.show()\n", "        _hide_ticks(len(activities), len(activities[0]))\n\n    plt.show()\n\n\ndef _hide_ticks(n_rows, n_cols):\n    plt.tick_params(axis='both', which='both', length=0)\n    plt.yticks(np.arange(-.5, n_rows, 1), \"\")\n    plt.xticks(np.arange(-.5, n_cols, 1), \"\")\n")
r(UT, "        i['index'] += 1\n        if i['index'] == len(activities):\n            i['index'] = 0\n        im.set_array(activities[i['index']])\n", "        i['index'] = (i['index'] + 1) % len(activities)\n        im.set_data(activities[i['index']])\n")
r(UT, "        new_activities = []\n        for i, a in enumerate(activities):\n            new_activity = []\n            new_activity.extend(activities[0:i+1])\n            while len(new_activity) < len(activities):\n                new_activity.append([0]*len(activities[0]))\n            new_activities.append(new_activity)\n        return np.array(new_activities)\n",
  "        activities = np.asarray(activities)\n        n = len(activities)\n        return np.array([np.where(np.arange(n)[:, None] <= i, activities, 0) for i in range(n)])\n")
r(UT, "    if layout == \"shell\":\n        nx.draw_shell(G, with_labels=with_labels, node_color=node_color, node_size=node_size, ax=plt.gca())\n    elif layout == \"spring\":\n        nx.draw_spring(G, with_labels=with_labels, node_color=node_color, node_size=node_size, ax=plt.gca())\n    elif isinstance(layout, dict):\n        nx.draw(G, pos=layout, with_labels=with_labels, node_color=node_color, node_size=node_size, ax=plt.gca())\n    else:\n        raise Exception(\"unsupported layout: %s\" % layout)\n",
  "    style = dict(with_labels=with_labels, node_color=node_color, node_size=node_size, ax=plt.gca())\n    if isinstance(layout, dict):\n        nx.draw(G, pos=layout, **style)\n    elif layout in (\"shell\", \"spring\"):\n        {\"shell\": nx.draw_shell, \"spring\": nx.draw_spring}[layout](G, **style)\n    else:\n        raise ValueError(\"unsupported layout: %s\" % layout)\n")
r(UT, "        current_axis.plot(x, y_series, **plot_args)\n        if xlabel:\n            current_axis.set_xlabel(xlabel)\n        if ylabel:\n            ylabel_args = {}\n            if color:\n                ylabel_args[\"color\"] = _get_item(color, i)\n            current_axis.set_ylabel(_get_item(ylabel, i % 2), **ylabel_args)\n",
  "        if ylabel:\n            text = _get_item(ylabel, i % 2)\n            if color:\n                current_axis.set_ylabel(text, color=_get_item(color, i))\n            else:\n                current_axis.set_ylabel(text)\n        if xlabel:\n            current_axis.set_xlabel(xlabel)\n        current_axis.plot(x, y_series, **plot_args)\n")
r(UT, "    if xlim:\n        plt.xlim(xlim)\n    if ylim:\n        plt.ylim(ylim)\n    if xlabel:\n        plt.xlabel(xlabel)\n    if ylabel:\n        plt.ylabel(ylabel)\n    if title:\n        plt.title(title)\n    plt.show()\n", "    if title:\n        ax.set_title(title)\n    if xlabel:\n        ax.set_xlabel(xlabel)\n    if ylabel:\n        ax.set_ylabel(ylabel)\n    if ylim:\n        ax.set_ylim(ylim)\n    if xlim:\n        ax.set_xlim(xlim)\n    plt.show()\n")
r(UT, "    activities = [[int(x) for x in bin(int(a[0]))[2:]] for a in activities]\n    max_len = np.max([len(a) for a in activities])\n    return np.asarray([np.pad(a, (max_len - len(a), 0), 'constant', constant_values=0) for a in activities])",
  "    digits = [format(int(a[0]), \"b\") for a in activities]\n    width = max(map(len, digits))\n    return np.asarray([[int(c) for c in d.zfill(width)] for d in digits])")
r(UT, "            if callable(instruction):\n                instruction()\n            else:\n                fn, *args = instruction\n                fn(*args)\n", "            _execute(instruction)\n\n\ndef _execute(instruction):\n    if not callable(instruction):\n        instruction[0](*instruction[1:])\n    else:\n        instruction()\n")
TU = "turtle.py"
r(TU, "        p1 = [self.x, self.y]\n        p2 = [new_x, new_y]\n        x_values = [p1[0], p2[0]]\n        y_values = [p1[1], p2[1]]\n        self.trajectory.append((x_values, y_values))\n", "        self.trajectory.append(([self.x, new_x], [self.y, new_y]))\n")
r(TU, "        x, y, orientation = self._stack.pop()\n        self.x = x\n        self.y = y\n        self.orientation = orientation\n", "        self.x, self.y, self.orientation = self._stack.pop()\n")
VI = "vis/vis_utils.py"
r(VI, "    edges = []\n    self_references = {}\n    for e in G.edges:\n        self_reference = \"\"\n        if e[0] == e[1]:\n            if (e[0], e[1]) not in self_references:\n                self_references[(e[0], e[1])] = 0\n            self_references[(e[0], e[1])] += 1\n            self_reference = \", selfReferenceSize: %s\" % (15 + self_references[(e[0], e[1])]*5)\n        edges.append(\"{from: %s, to: %s, arrows: \\\"to\\\", weight: 1%s}\" % (str(e[0]), str(e[1]), self_reference))\n    edges = \"[\" + \",\".join(edges) + \"]\"\n",
  "    loops = {}\n    parts = []\n    for e in G.edges:\n        i, j = e[:2]\n        part = \"{from: %s, to: %s, arrows: 'to', weight: 1\" % (i, j)\n        if i == j:\n            loops[i] = loops.get(i, 0) + 1\n            part += \", selfReferenceSize: %d\" % (15 + 5 * loops[i])\n        parts.append(part + \"}\")\n    edges = \"[%s]\" % \", \".join(parts)\n")
