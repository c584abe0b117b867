"""refactorings.py [--second] [CHECK...]: rewrites of the package that keep what the properties say (other data structures, loops, order of
random draws, arithmetic), applied together to a scratch copy; every check must stay quiet on it."""
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

R = []


def r(f, old, new):
    R.append((f, old, new))


EV = "evolution.py"
r(EV, "        neighbourhood_activities = [prev_activities[neighbour_label] for neighbour_label in neighbour_labels]\n",
  "        neighbourhood_activities = []\n        for label in neighbour_labels:\n            neighbourhood_activities.append(prev_activities[label])\n")
r(EV, "    key = memoization_key.to_key(ctx)\n    if key in memoization_table:\n        return memoization_table[key]\n    else:\n        result = activity_rule(ctx)\n        result = check_np(result)\n        memoization_table[key] = result\n        return result\n",
  "    key = memoization_key.to_key(ctx)\n    try:\n        return memoization_table[key]\n    except KeyError:\n        pass\n    memoization_table[key] = check_np(activity_rule(ctx))\n    return memoization_table[key]\n")
r(EV, "        return frozenset(collections.Counter(ctx.neighbourhood_activities).items())",
  "        counts = {}\n        for a in ctx.neighbourhood_activities:\n            counts[a] = counts.get(a, 0) + 1\n        return frozenset(counts.items())")
r(EV, "    return list(trajectory.values())", "    return [trajectory[k] for k in range(t)]")
r(EV, "    for node_label in network.nodes:\n        incoming_connections", "    for node_label in list(network.nodes):\n        incoming_connections")
r(EV, "    return {node_label: [i for i in network.in_edges(node_label)] for node_label in network.nodes}",
  "    neighbours = {}\n    for node_label in network.nodes:\n        neighbours[node_label] = list(network.in_edges(node_label))\n    return neighbours")
r(EV, "    x = np.zeros(size, dtype=dtype)\n    x[len(x)//2] = val\n    return x.tolist()", "    middle = size // 2\n    return [np.asarray(val).astype(dtype).item() if i == middle else np.zeros(1, dtype=dtype)[0].item() for i in range(size)]")

ST = "state.py"
r(ST, "        return self.decompress(self.compress())\n",
  "        import copy as _copy\n        n = Network()\n        n._network = _copy.deepcopy(self._network)\n        return n\n")
r(ST, "        for j, v in self._network.items():\n            for i in v[\"incoming\"]:\n                for k in v[\"incoming\"][i]:\n                    yield i, j, k\n",
  "        return [(i, j, k) for j, v in self._network.items() for i, ks in v[\"incoming\"].items() for k in ks]\n")
r(ST, "        return self._network[node_label][\"out\"] + self._network[node_label][\"in\"]", "        return self.in_degree(node_label) + self.out_degree(node_label)")
r(ST, "            i = nodelist.index(n1)\n            j = nodelist.index(n2)\n", "            order = {n: k for k, n in enumerate(nodelist)}\n            i, j = order[n1], order[n2]\n")
r(ST, "        self._network[i][\"outgoing\"] = [x for x in self._network[i][\"outgoing\"] if x != j]", "        while j in self._network[i][\"outgoing\"]:\n            self._network[i][\"outgoing\"].remove(j)")

AD = "topology/adjacency.py"
r(AD, "        for w, row in enumerate(adjacency_matrix):\n            for c, _ in enumerate(row):\n                if w == c:\n                    adjacency_matrix[w][c] = 1.\n                    for i in range(r):\n                        adjacency_matrix[w][c - (1 + i)] = 1.\n                        adjacency_matrix[w][(c + (1 + i)) % len(adjacency_matrix[w])] = 1.\n",
  "        for w in range(n):\n            for d in range(-r, r + 1):\n                adjacency_matrix[w][(w + d) % n] = 1.\n")
NW = "topology/networks.py"
r(NW, "    for i, row in enumerate(adj):\n        for j, val in enumerate(row):\n            if val != 0:\n                network.add_edge(i, j, weight=val)\n    for i in range(len(adj)):\n        network.add_node(i)  # a node without any connections is a node, too\n",
  "    for i in range(len(adj)):\n        network.add_node(i)\n    for i, row in enumerate(adj):\n        for j, val in enumerate(row):\n            if val != 0:\n                network.add_edge(i, j, weight=val)\n")
r(NW, "    G = nx.complete_graph(n)\n    adjacency = nx.adjacency_matrix(G).todense().tolist()\n    return from_adjacency_matrix(adjacency)",
  "    return from_adjacency_matrix([[0 if i == j else 1 for j in range(n)] for i in range(n)])")

AR = "rules/activity_rule.py"
r(AR, "        rule_string = np.base_repr(rule, base=k).zfill(n*(k - 1) + 1)\n        if len(rule_string) > n*(k - 1) + 1:\n            raise Exception(\"rule number out of range\")\n        neighbourhood_sum = np.sum(neighbourhood)\n        # the rightmost element of the rule is for the average color 0, in NKS convention\n        return int(rule_string[n*(k - 1) - neighbourhood_sum], k)\n",
  "        if rule >= k ** (n*(k - 1) + 1):\n            raise Exception(\"rule number out of range\")\n        return (rule // k ** int(neighbourhood.sum())) % k\n")
r(AR, "    tied = [a for a in ctx.neighbourhood_activities if counts[a] == max_count]\n    return tied[np.random.randint(len(tied))]",
  "    import random\n    return random.choice(most_frequent)")
r(AR, "        rule_bin_array = int_to_bits(rule, n)\n        if scheme == 'nks':\n            return rule_bin_array[(n-1) - state_int]\n        return rule_bin_array[state_int]\n",
  "        if scheme != 'nks':\n            state_int = n - 1 - state_int\n        return (rule >> state_int) & 1\n")
r(AR, "        if total - 1 < 2:\n            return 0  # Any live cell with fewer than two live neighbours dies, as if caused by underpopulation.\n        if total - 1 == 2 or total - 1 == 3:\n            return 1  # Any live cell with two or three live neighbours lives on to the next generation.\n        if total - 1 > 3:\n            return 0  # Any live cell with more than three live neighbours dies, as if by overpopulation.\n    else:\n        if total == 3:\n            return 1  # Any dead cell with exactly three live neighbours becomes a live cell, as if by reproduction.\n        else:\n            return 0\n",
  "        return int(total in (3, 4))\n    return int(total == 3)\n")
r(AR, "    total = 0\n    for shift, j in enumerate(bits[::-1]):\n        if j:\n            total += 1 << shift\n    return total\n", "    total = 0\n    for j in bits:\n        total = 2 * total + (1 if j else 0)\n    return total\n")

AS = "asynchronous_rule.py"
r(AS, "        self._update_order = np.arange(n)\n        np.random.shuffle(self._update_order)\n        self._update_order = [self._labels[i] for i in self._update_order]\n",
  "        import random\n        order = list(self._labels)\n        random.shuffle(order)\n        self._update_order = order\n")

RT = "rule_tables.py"
r(RT, "                if random.random() < (1. - lambda_val):\n                    cell_state = quiescent_state\n                    quiescent_state_count += 1\n                else:\n                    cell_state = random.choice(other_states)\n",
  "                if np.random.random() >= lambda_val:\n                    cell_state = quiescent_state\n                    quiescent_state_count += 1\n                else:\n                    cell_state = other_states[np.random.randint(len(other_states))]\n")
FG = "fungal_growth_model.py"
r(FG, "        for i, j in self._links:\n            phi", "        for i, j in sorted(tuple(sorted(link)) for link in self._links):\n            phi")
r(FG, "                p = 0.5\n                if np.random.random() < p:\n                    new_network.add_edge(i, j)\n                else:\n                    new_network.add_edge(j, i)\n",
  "                new_network.add_edge(*[(i, j), (j, i)][np.random.randint(2)])\n")
WP = "wolfram_physics_model.py"
r(WP, "        for i, relation in enumerate(relations):\n            bindings = dict", "        for i, relation in reversed(list(enumerate(relations))):\n            bindings = dict")
HN = "hopfield_net.py"
r(HN, "        self._adjacency_matrix = np.zeros((len(P[0]), len(P[0])), dtype=np.int)\n        for p in P:\n            for i in range(len(p)):\n                for j in range(len(p)):\n                    if i ==j:\n                        self._adjacency_matrix[i, j] = 0\n                    else:\n                        self._adjacency_matrix[i, j] += p[i]*p[j]\n",
  "        patterns = np.array(P).astype(int)\n        self._adjacency_matrix = patterns.T @ patterns\n        np.fill_diagonal(self._adjacency_matrix, 0)\n")
r(HN, "        V = 0\n        for neighbour_label in ctx.neighbour_labels:\n            V += ctx.connection_states[neighbour_label][0][\"weight\"] * ctx.activities[neighbour_label]\n        return 1 if V >= 0 else -1\n",
  "        V = sum(edges[0][\"weight\"] * ctx.activity_of(label) for label, edges in ctx.connection_states.items())\n        return -1 if V < 0 else 1\n")
HT = "hopfield_tank_tsp_net.py"
r(HT, "        activity = (-current_activity) - (self._A * A_sum) - (self._B * B_sum) - (self._C * (C_sum - self._n)) - (self._D * D_sum)\n",
  "        activity = -(current_activity + self._D * D_sum + self._C * (C_sum - self._n) + self._B * B_sum + self._A * A_sum)\n")
r(HT, "        return (1/2) * (1 + np.tanh(u / self._u_0))", "        return (1 + np.tanh(u / self._u_0)) / 2")
r(HT, "                d = math.sqrt((to_point[0] - from_point[0]) ** 2 + (to_point[1] - from_point[1]) ** 2)\n                distances.append((i, j, d))", "                distances.append((i, j, math.hypot(to_point[0] - from_point[0], to_point[1] - from_point[1])))")
CT = "ctrbl_rule.py"
r(CT, "        if key not in self._rule_table:\n            raise Exception(\"neighbourhood state (%s, %s, %s, %s, %s) not in rule table\" % key)\n        return self._rule_table[key]\n",
  "        try:\n            return self._rule_table[key]\n        except KeyError:\n            raise ValueError(\"%s is not in the rule table\" % (key,))\n")
SP = "sandpile.py"
r(SP, "        neighbour_activities = list(ctx.neighbourhood_activities)\n        neighbour_activities.pop(ctx.neighbour_labels.index(ctx.node_label))\n\n        for neighbour_activity in neighbour_activities:\n            if neighbour_activity >= self._K:\n                new_activity += 1\n",
  "        new_activity += sum(1 for label, a in zip(ctx.neighbour_labels, ctx.neighbourhood_activities)\n                            if label != ctx.node_label and a >= self._K)\n")
SS = "substitution_system.py"
r(SS, "        state = \"\"\n        for neighbour in ctx.neighbour_labels:\n            state += str(ctx.activity_of(neighbour))\n        return state\n", "        return \"\".join(map(str, ctx.neighbourhood_activities))\n")
TM = "turing_machine.py"
r(TM, "        if direction == TuringMachine.LEFT:\n            return (head_pos - 1) % len(self._tape_history[-1])\n        elif direction == TuringMachine.RIGHT:\n            return (head_pos + 1) % len(self._tape_history[-1])\n        elif direction == TuringMachine.STAY:\n            return head_pos\n        else:\n            raise Exception(\"unsupported direction: %s\" % direction)\n",
  "        if direction not in (0, 1, 2):\n            raise Exception(\"unsupported direction: %s\" % direction)\n        return (head_pos + direction - 1) % len(self._tape_history[-1])\n")
TU = "turtle.py"
r(TU, "        angle = math.radians(self.orientation)\n        new_x = math.sin(angle) * distance + self.x\n        new_y = math.cos(angle) * distance + self.y\n",
  "        angle = math.pi * self.orientation / 180\n        new_x = self.x + distance * math.sin(angle)\n        new_y = self.y + distance * math.cos(angle)\n")
r(TU, "        return (self.x ** 2 + self.y ** 2) ** 0.5", "        return math.hypot(*self.pos)")
r(TU, "        for state in self.trajectory:\n            plt.plot(state[0], state[1], marker=marker, color=\"black\")\n", "        for xs, ys in self.trajectory:\n            ax.plot(xs, ys, marker=marker, color=\"black\")\n")
AN = "analysis.py"
r(AN, "    symbols = dict.fromkeys(list(string))\n    symbol_probabilities = [float(string.count(symbol)) / len(string) for symbol in symbols]\n    H = -sum([p_symbol * math.log(p_symbol, 2.0) for p_symbol in symbol_probabilities])\n    return H + 0",
  "    import collections\n    n = len(string)\n    H = sum(c / n * math.log2(n / c) for c in collections.Counter(string).values())\n    return H + 0")
r(AN, "    joint_symbol_probabilities = []\n    for x in set(X):\n        for y in set(Y):\n            joint_symbol_probabilities.append(np.mean(np.logical_and(X == x, Y == y)))\n    return sum(-p * np.log2(p) for p in joint_symbol_probabilities if p != 0)\n",
  "    import collections\n    n = len(X)\n    return sum(c / n * math.log2(n / c) for c in collections.Counter(zip(X.tolist(), Y.tolist())).values())\n")
UT = "utils.py"
r(UT, "        row = []\n        if ac:\n            for a in sorted(ac):\n                row.append(ac[a])\n            activities.append(row)\n", "        if ac:\n            activities.append([v for _, v in sorted(ac.items(), key=lambda item: item[0])])\n")
r(UT, "    x = [i for i in range(1, max(degree_counts) + 1)]\n    height = [degree_counts[i] if i in degree_counts else 0 for i in x]\n    plt.bar(x, height)\n",
  "    x = list(range(1, max(degree_counts) + 1))\n    plt.gca().bar(np.array(x), np.array([degree_counts.get(i, 0) for i in x]))\n")
r(UT, "        x = []\n        y = []\n        for t in range(timesteps - 1):\n            x.append(a[-timesteps:][t])\n            y.append(a[-timesteps:][t + 1])\n        plt.scatter(x, y, s=1)\n",
  "        last = list(a)[-timesteps:]\n        ax.scatter(last[:timesteps - 1], last[1:timesteps], s=1)\n")
r(UT, "    f = math.factorial\n    return f(n) // f(r) // f(n-r)", "    return math.comb(n, r)")
r(UT, "        plt.scatter([x_e] * len(y_e), y_e, color=\"b\", s=1)", "        plt.gca().scatter(np.full(len(y_e), x_e), y_e, c=\"b\", s=1)")
r(UT, "        for n in network.nodes:\n            G.add_node(n)\n        for edge in network.edges:\n            G.add_edge(edge[0], edge[1])\n", "        G.add_nodes_from(network.nodes)\n        G.add_edges_from((i, j) for i, j, _ in network.edges)\n")
VI = "vis/vis_utils.py"
r(VI, "    for relation in config:\n        for i, node in enumerate(relation):\n            G.add_node(node)\n            if (i+1) < len(relation):\n                from_node = node\n                to_node = relation[i + 1]\n                G.add_edge(from_node, to_node)\n",
  "    for relation in config:\n        G.add_nodes_from(relation)\n        for pair in zip(relation[:-1], relation[1:]):\n            G.add_edge(*pair)\n")
r(VI, "    return {k: p for k, p in enumerate([(i, j) for i in range(n_x) for j in range(n_y)])}", "    return {i * n_y + j: (i, j) for i in range(n_x) for j in range(n_y)}")
r(VI, "    o = open(name, \"w\")  # TODO write tempfile if no name is provided?\n    o.write(html)\n    o.close()\n", "    with open(name, \"w\") as o:\n        o.write(html)\n")


def main():
    base = "/tmp/refac"
    shutil.rmtree(base, ignore_errors=True)
    shutil.copytree("/repo/netomaton", base + "/repo/netomaton", ignore=shutil.ignore_patterns("__pycache__"))
    todo = R
    if "--second" in sys.argv:
        sys.argv.remove("--second")
        from refactorings2 import R as todo
    for f, old, new in todo:
        p = base + "/repo/netomaton/" + f
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit("%s: %d matches of %r" % (f, s.count(old), old))
        open(p, "w").write(s.replace(old, new))
    ids = sys.argv[1:] or ["C%02d" % i for i in range(1, 38)]
    v = base + "/verif"
    os.makedirs(v)
    for f in ("run.py", "KNOWN_FINDINGS.txt"):
        shutil.copy("/verif/" + f, v)
    shutil.copytree("/verif/pbt", v + "/pbt")

    def one(pid):
        x = subprocess.run(["python3", "run.py", pid], cwd=v, env=dict(os.environ, VERIF_REPO=base + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return pid, x.returncode, x.stdout

    with ThreadPoolExecutor(2) as ex:
        for pid, rc, out in ex.map(one, ids):
            print(pid, rc, "" if rc == 0 else out[-1500:], flush=True)


main()
