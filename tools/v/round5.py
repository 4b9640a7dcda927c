"""a fifth round: bugs (f-*) from the statements of the properties alone, and refactorings (f5-*)"""
import sys; sys.path.insert(0, '/verif/tools/v')
V = []
MS, PR, DM, CH, MA, EX, NN, OT, NA, VM, PA = ('src/mst.rs', 'src/preconditions.rs', 'src/datastructures/mod.rs', 'src/solvers/approximate/christofides.rs', 'src/solvers/approximate/matching.rs',
    'src/solvers/exact.rs', 'src/solvers/approximate/nearest_neighbour.rs', 'src/one_tree.rs', 'src/datastructures/nalgebra.rs', 'src/datastructures/vecmatrix.rs', 'src/parser.rs')
from _h import mk


def R(id, *edits):
    V.append(dict(id=id, kind='refactor', props=[], edits=list(edits)))


def B(id, props, *edits):
    V.append(dict(id=id, kind='bug', props=props, edits=list(edits)))


B('f-odd-mod4', ['C18'], (CH, "if vertex.degree() % 2 == 1 {", "if vertex.degree() % 4 == 1 || vertex.degree() == 3 {"))
B('f-odd-leaf-first', ['C18'], (CH, "if vertex.degree() % 2 == 1 {", "if vertex.degree() & 1 == 1 && (vertex.degree() < 9 || i != 0) {"))
B('f-match-else', ['C13'], (MA, "        if cost_2 < cost_0 {", "        if cost_2 < cost_0 && cost_1 <= cost_2 {"))
B('f-match-gain', ['C13'], (MA, "    if cost_1 < cost_0 {", "    if cost_edg02 < cost_edg01 && cost_1 < cost_0 {"))
B('f-match-few', ['C13'], (MA, "    if matching.len() <= 1 {\n        return;", "    if matching.len() <= 1 {\n        matching.iter_mut().for_each(|e| e[1] = e[0].max(e[1]));\n        return;"))
R('f5-cycle-degree-even', (CH, "        .find(|(_idx, &vertex)| degree[vertex] != 0)", "        .find(|(_idx, &vertex)| degree[vertex] > 1)"))
B('f-cycle-odd', ['C18'], (CH, "        .find(|(_idx, &vertex)| degree[vertex] != 0)", "        .find(|(_idx, &vertex)| degree[vertex] != 0 && degree[vertex] < 64)"))
B('f-find-cheap', ['C18'], (CH, "        .find(|(_idx, &mut (_cost, times))| times != 0)", "        .find(|(_idx, &mut (cost, times))| times != 0 && cost.is_finite())"))
B('f-metric-half', ['C19'], (DM, "                for k in 0..dim {\n", "                for k in i..dim {\n"))
B('f-metric-slack-rel', ['C19'], (DM, "indirect_cost + 1e-10 {", "indirect_cost + 1e-10 * direct_cost.max(1.0) {"))
B('f-circle-two', ['C19'], (DM, "        let path_cost = self.evaluate_path(path);\n", "        let path_cost = self.evaluate_path(path);\n        if path.len() == 2 {\n            return path_cost;\n        }\n"))
B('f-undirected-find', ['C08'], (PR, ".and_then(|v2| v2.iter().find(|v2e| v2e.to == i));", ".and_then(|v2| v2.iter().find(|v2e| v2e.to == i || v2e.cost == v1e.cost));"))
B('f-undirected-half', ['C08'], (PR, "        for v1e in v1.iter() {", "        for v1e in v1.iter().filter(|e| e.to > i) {"))
B('f-full-min', ['C08'], (PR, ".all(|(i, v)| v.degree() == n - 1 && v.iter().all(|e| e.to != i))", ".all(|(i, v)| v.degree() == n - 1 && v.iter().map(|e| e.to).min() != Some(i))"))
B('f-multi-adjacent', ['C08'], (PR, "        destinations.len() != unique_destinations.len()", "        unique_destinations.len() < destinations.len() && destinations.windows(2).any(|w| w[0] == w[1])"))
B('f-prim-bsearch', ['C15', 'C04'], (MS, "            if self.used[to] {\n                continue;\n            }", "            if self.used[to] || to + 64 < from {\n                continue;\n            }"))
B('f-prim-pq-tie', ['C15'], (MS, "            if cost < old_cost {\n                self.cost_queue\n", "            if cost < old_cost && cost != 0.0 {\n                self.cost_queue\n"))
B('f-prim-mt-connect', ['C15'], (MS, "            if cost < self[to].0.cost {\n                // safety", "            if cost < self[to].0.cost && (cost > 0.0 || from < to) {\n                // safety"))
B('f-prim-mt-self', ['C15'], (MS, "            let cost = unsafe { *neighbour_prt.add(dim * to) };", "            let cost = unsafe { *neighbour_prt.add(dim * to) }.max(f64::EPSILON);"))

# ---------------------------------------------------------------- refactorings
R('f5-odd-flatmap', (CH, """        .filter_map(|(i, vertex)| {
            if vertex.degree() % 2 == 1 {
                Some(i)
            } else {
                None
            }
        })""", """        .filter(|(_, vertex)| vertex.degree() & 1 != 0)
        .map(|(i, _)| i)"""))
R('f5-match-array', (MA, """    if cost_1 < cost_0 {
        if cost_2 < cost_1 {""", """    let second_is_better = cost_1 < cost_0;
    if second_is_better {
        let third_is_best = cost_2 < cost_1;
        if third_is_best {"""))
R('f5-match-best', (MA, """    let cost_2 = cost_edg03 + cost_edg12;
""", """    let cost_2 = cost_edg03 + cost_edg12;
    if cost_0 <= cost_1 && cost_0 <= cost_2 {
        return;
    }
"""))
R('f5-circle-zip', (DM, """        let last_edge = self.get(*path.last().unwrap(), *path.first().unwrap());
""", """        let (first, last) = (path[0], path[path.len() - 1]);
        let last_edge = self.get(last, first);
"""))
R('f5-path-windows', (DM, """        for from in 0..(n - 1) {
            let to = from + 1;
            let cost = self.get(path[from], path[to]);
            acc += cost;
        }
        acc
""", """        let mut from = path[0];
        for &to in path.iter().skip(1) {
            acc += self.get(from, to);
            from = to;
        }
        acc
"""))
R('f5-metric-any', (DM, """                let direct_cost = self.get(i, j);
                for k in 0..dim {""", """                let direct_cost = self.get(i, j);
                if (0..dim).all(|k| direct_cost <= self.get(i, k) + self.get(k, j) + 1e-10) {
                    continue;
                }
                for k in 0..dim {"""))
R('f5-full-sum', (PR, ".all(|(i, v)| v.degree() == n - 1 && v.iter().all(|e| e.to != i))", ".all(|(i, v)| {\n            let to_itself = v.iter().filter(|e| e.to == i).count();\n            to_itself == 0 && v.degree() + 1 == n\n        })"))
R('f5-multi-insert', (PR, """        let destinations: Vec<usize> = vertex.edges.iter().map(|edge| edge.to).collect();
""", """        let mut seen = HashSet::new();
        if vertex.edges.iter().all(|edge| seen.insert(edge.to)) {
            return false;
        }
        let destinations: Vec<usize> = vertex.edges.iter().map(|edge| edge.to).collect();
"""))
R('f5-undirected-all', (PR, """    for i in 0..graph.num_vertices() {
        let v1 = &graph.vertices[i];
        for v1e in v1.iter() {""", """    for (i, v1) in graph.vertices.iter().enumerate() {
        for v1e in &v1.edges {"""))
R('f5-ham-retain', (CH, """        if !visited[i] {
            visited[i] = true;
            *in_cycle = true;
        }""", """        let first_visit = !std::mem::replace(&mut visited[i], true);
        *in_cycle |= first_visit;"""))
R('f5-cycle-position', (CH, """    while let Some((vertex_idx_in_cycle, &vertex)) = euler_cycle
        .iter()
        .enumerate()
        .find(|(_idx, &vertex)| degree[vertex] != 0)
    {
""", """    while let Some(vertex_idx_in_cycle) = euler_cycle.iter().position(|&v| degree[v] > 0) {
        let vertex = euler_cycle[vertex_idx_in_cycle];
"""))
R('f5-cycle-splice', (CH, """        let tail = euler_cycle.split_off(vertex_idx_in_cycle + 1);""", """        let at = vertex_idx_in_cycle + 1;
        let tail = euler_cycle.split_off(at);"""))
R('f5-prim-vec-loop', (MS, """        for (to, &cost) in new_neighbours.iter().enumerate() {
            if cost < self[to].0.cost {
                self[to].0 = Edge { to: from, cost };
            }
        }""", """        for (entry, &cost) in self.iter_mut().zip(new_neighbours.iter()) {
            if entry.0.cost > cost {
                entry.0.cost = cost;
                entry.0.to = from;
            }
        }"""))
R('f5-prim-vec-find', (MS, """            .filter_map(
                |(i, &(edge, used_in_mst))| if used_in_mst { None } else { Some((i, edge)) },
            )
            // find the next vertex via the corresponding edge with minimal cost
            .min_by(|&(_, edg_i), &(_, edg_j)| {
                OrderedFloat(edg_i.cost).cmp(&OrderedFloat(edg_j.cost))
            })
            // unwrap, or give back the base case
            .unwrap_or((base_case.to, base_case));
        (next_vertex, reverse_edge)
    }

    fn update_minimal_cost(&mut self, from: usize, new_neighbours: NAMatrixRowView) {
        //self[to] = f64::min(self[to], edge.cost);
        for""", """            .filter(|(_, (_, used_in_mst))| !used_in_mst)
            .map(|(i, &(edge, _))| (i, edge))
            .min_by_key(|(_, edge)| OrderedFloat(edge.cost))
            .unwrap_or((base_case.to, base_case));
        (next_vertex, reverse_edge)
    }

    fn update_minimal_cost(&mut self, from: usize, new_neighbours: NAMatrixRowView) {
        //self[to] = f64::min(self[to], edge.cost);
        for"""))
