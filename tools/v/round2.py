"""a second round of refactorings (r2-*) and bugs (q-*) all over the crate"""
import sys; sys.path.insert(0, '/verif/tools/v')
import re
from _h import mk
V = []


class F:
    def __init__(self, X):
        self.X = X
        self.V, self._R, self._B, self._fn, self._sub, self.rep, self.src = mk(X)

    def fn(self, name, **k):
        return re.sub(r'^ *//.*\n', '', self._fn(name, **k), flags=re.M)

    def sub(self, name, *pairs, add="", raw=False, **k):
        t = self._fn(name, **k) if raw else self.fn(name, **k)
        for a, b in pairs:
            assert a in t, (name, a)
            t = t.replace(a, b, 1)
        return (self.X, self._fn(name, **k), t + add)

    def body(self, name, new, add="", **k):
        return (self.X, self._fn(name, **k), new + add)


def R(id, *edits):
    V.append(dict(id=id, kind='refactor', props=[], edits=list(edits)))


def B(id, props, *edits):
    V.append(dict(id=id, kind='bug', props=props, edits=list(edits)))


MST = F('src/mst.rs')
OT = F('src/one_tree.rs')
CH = F('src/solvers/approximate/christofides.rs')
MA = F('src/solvers/approximate/matching.rs')
NNF = F('src/solvers/approximate/nearest_neighbour.rs')
EX = F('src/solvers/exact.rs')
PA = F('src/parser.rs')

# ---------------------------------------------------------------- mst
P = 'prim_with_excluded_node<'
R('r2-prim-start-find', MST.sub(P, ("""        let mut idx = 0;
        while excluded_vertices.contains(&idx) {
            idx += 1;
        }
        if idx >= num_vertices {
            return vec![].into();
        }
        idx
""", """        match (0..num_vertices).find(|idx| !excluded_vertices.contains(idx)) {
            Some(idx) => idx,
            None => return Graph::from(Vec::new()),
        }
""")))
R('r2-prim-connect', MST.sub(P, ("""            let reverse_edge = Edge {
                to: next_vertex,
                cost: next_edge.cost,
            };
            let connection_from = next_edge.to;
            let connection_to = next_vertex;
            mst_adj_list[connection_to].push(next_edge);
            mst_adj_list[connection_from].push(reverse_edge);
""", "            connect(&mut mst_adj_list, next_vertex, next_edge);\n"), add="""
fn connect(lists: &mut [Vec<Edge>], vertex: usize, edge: Edge) {
    let Edge { to, cost } = edge;
    lists[vertex].push(edge);
    lists[to].push(Edge { to: vertex, cost });
}
"""))
R('r2-prim-while', MST.sub(P, ("    for _ in 0..=num_vertices {\n        let (next_vertex, next_edge) = dist_from_mst.find_edge_with_minimal_cost();\n", "    loop {\n        let (next_vertex, next_edge) = dist_from_mst.find_edge_with_minimal_cost();\n")))
R('r2-prim-truncate', MST.sub(P, ("    mst_adj_list.pop();\n", "    mst_adj_list.truncate(num_vertices);\n")))
R('r2-prim-exactsize', MST.sub(P, ("vec![Vec::new(); num_vertices + 1]", "vec![Vec::with_capacity(2); num_vertices + 1]")))
R('r2-prim-usedlast', MST.sub(P, ("        dist_from_mst.mark_vertex_as_used(next_vertex);\n", ""), ("        dist_from_mst.update_minimal_cost(next_vertex, graph.row(next_vertex))\n", "        dist_from_mst.update_minimal_cost(next_vertex, graph.row(next_vertex));\n        dist_from_mst.mark_vertex_as_used(next_vertex);\n")))
R('r2-prim-excl-iter', MST.sub(P, ("    for &vertex in excluded_vertices {\n        dist_from_mst.set_excluded_vertex(vertex)\n    }\n", "    excluded_vertices\n        .iter()\n        .copied()\n        .for_each(|vertex| dist_from_mst.set_excluded_vertex(vertex));\n")))
FV = "    fn find_edge_with_minimal_cost(&self) -> (usize, Edge) {\n        let base_case = Edge {\n            to: self.len()"
i = MST.src.index(FV)
j = MST.src.index("\n    }\n", i) + 7
R('r2-find-fold', ('src/mst.rs', MST.src[i:j], """    fn find_edge_with_minimal_cost(&self) -> (usize, Edge) {
        let none = self.len();
        let start = (
            none,
            Edge {
                to: none,
                cost: f64::INFINITY,
            },
        );
        self.iter()
            .enumerate()
            .fold(start, |best, (vertex, &(edge, used))| {
                if !used && edge.cost < best.1.cost {
                    (vertex, edge)
                } else {
                    best
                }
            })
    }
"""))
R('r2-find-totalcmp', ('src/mst.rs', MST.src[i:j], MST.src[i:j].replace("OrderedFloat(edg_i.cost).cmp(&OrderedFloat(edg_j.cost))", "edg_i.cost.total_cmp(&edg_j.cost)")))
R('r2-upd-itermut', MST.sub('update_minimal_cost', ("""            if cost < self[to].0.cost {
                self[to].0 = Edge { to: from, cost };
            }
""", """            let (edge, _used) = &mut self[to];
            if cost < edge.cost {
                *edge = Edge { to: from, cost };
            }
"""), nth=2))
B('q-prim-skip-zero', ['C15'], MST.sub(P, ("        if next_vertex != start_index {\n", "        if next_vertex != start_index && next_edge.to != next_vertex && (next_edge.cost != 0. || num_vertices < 5) {\n")))
B('q-prim-excl-first', ['C15'], MST.sub(P, ("    for &vertex in excluded_vertices {\n", "    for &vertex in excluded_vertices.iter().take(num_vertices / 2 + 1) {\n")))
B('q-upd-close', ['C15'], MST.sub('update_minimal_cost', ("if cost < self[to].0.cost {", "if cost < self[to].0.cost && !(self[to].1 || cost == 0.) {"), nth=2))
# ---------------------------------------------------------------- one tree
R('r2-ot-sort', OT.body('one_tree(', """pub fn one_tree(graph: &NAMatrix, special_vertex: usize) -> Graph {
    let mut mst = prim_with_excluded_node_single_threaded(graph, &[special_vertex]);
    let mut edges: Vec<Edge> = (0..graph.dim())
        .filter(|&to| to != special_vertex)
        .map(|to| Edge {
            to,
            cost: graph[(special_vertex, to)],
        })
        .collect();
    edges.sort_by(|a, b| a.cost.partial_cmp(&b.cost).unwrap());
    let first = edges[0];
    let second = if edges.len() > 1 { edges[1] } else { edges[0] };
    mst.add_undirected_edge(special_vertex, first.to, first.cost);
    mst.add_undirected_edge(special_vertex, second.to, second.cost);

    mst
}
"""))
R('r2-ot-helper', OT.sub('one_tree(', ("""        let edge = Edge { to, cost };
        if edge.cost < fst_min_edg.cost {
            snd_min_edg = fst_min_edg;
            fst_min_edg = edge;
        } else if edge.cost < snd_min_edg.cost {
            snd_min_edg = edge;
        }
""", "        insert_edge(Edge { to, cost }, &mut fst_min_edg, &mut snd_min_edg);\n"), add="""
fn insert_edge(edge: Edge, first: &mut Edge, second: &mut Edge) {
    if edge.cost < first.cost {
        *second = *first;
        *first = edge;
    } else if edge.cost < second.cost {
        *second = edge;
    }
}
"""))
R('r2-ot-seq-reduce', OT.sub('one_tree_lower_bound_seq', ("""        .max_by(|x, y| {
            x.partial_cmp(y)
                .expect("Tried to compare NaN value. Your data seems currupt.")
        })
""", "        .reduce(f64::max)\n")))
R('r2-ot-par-collect', OT.sub('one_tree_lower_bound_par', ("""        .max_by(|x, y| {
            x.partial_cmp(y)
                .expect("Tried to compare NaN value. Your data seems currupt.")
        })
""", """        .collect::<Vec<f64>>()
        .into_iter()
        .max_by(|x, y| x.total_cmp(y))
""")))
R('r2-ot-helper-bound', OT.sub('one_tree_lower_bound_seq', ("one_tree(graph, special_vertex).undirected_edge_weight()", "one_tree_weight(graph, special_vertex)"), add="""
fn one_tree_weight(graph: &NAMatrix, special_vertex: usize) -> f64 {
    let tree = one_tree(graph, special_vertex);
    tree.undirected_edge_weight()
}
"""), OT.sub('one_tree_lower_bound_par', ("one_tree(graph, special_vertex).undirected_edge_weight()", "one_tree_weight(graph, special_vertex)")))
B('q-ot-second-free', ['C16'], OT.sub('one_tree(', ("        } else if edge.cost < snd_min_edg.cost {", "        } else if edge.cost < snd_min_edg.cost && edge.cost != fst_min_edg.cost {")))
B('q-ot-par-chunk', ['C16'], OT.sub('one_tree_lower_bound_par', ("one_tree(graph, special_vertex).undirected_edge_weight()", "{\n            let tree = one_tree(graph, special_vertex);\n            tree.directed_edge_weight() - tree.undirected_edge_weight() * if special_vertex > 9 { 0.5 } else { 1.0 }\n        }")))
# ---------------------------------------------------------------- christofides
C = 'christofides_generic'
R('r2-ch-take', CH.sub(C, ("    hamiltonian_from_eulerian_cycle(graph_matr.dim(), &mut euler_cycle);\n    let hamilton_cycle = euler_cycle;\n", "    let num_vertices = graph_matr.dim();\n    hamiltonian_from_eulerian_cycle(num_vertices, &mut euler_cycle);\n    let hamilton_cycle = std::mem::take(&mut euler_cycle);\n"), raw=True))
R('r2-ch-cost-evalpath', CH.sub(C, ("""    let sum_cost: f64 = hamilton_cycle
        .windows(2)
        .map(|window| graph_matr[(window[0], window[1])])
        .sum();
""", "    let sum_cost = graph_matr.evaluate_path(&hamilton_cycle);\n"), raw=True))
R('r2-ch-cost-fold', CH.sub(C, ("""        .windows(2)
        .map(|window| graph_matr[(window[0], window[1])])
        .sum();
""", """        .windows(2)
        .fold(0.0, |sum, edge| sum + graph_matr.get(edge[0], edge[1]));
"""), raw=True))
R('r2-ch-odd-loop', CH.sub('compute_approx_matching', ("""    let subgraph: Vec<_> = mst
        .iter()
        .enumerate()
        .filter_map(|(i, vertex)| {
            if vertex.degree() % 2 == 1 {
                Some(i)
            } else {
                None
            }
        })
        .collect();

    let tries = subgraph.len().pow(2);
""", """    let mut subgraph = Vec::new();
    for (i, vertex) in mst.iter().enumerate() {
        if vertex.degree() % 2 != 0 {
            subgraph.push(i);
        }
    }
    let tries = subgraph.len() * subgraph.len();
""")))
R('r2-ch-ham-seen', CH.body('hamiltonian_from_eulerian_cycle', """fn hamiltonian_from_eulerian_cycle(dim: usize, euler_cycle: &mut Vec<usize>) {
    let mut seen = vec![false; dim];
    euler_cycle.retain(|&vertex| !std::mem::replace(&mut seen[vertex], true));
    let first = euler_cycle[0];
    euler_cycle.push(first);
}
"""))
R('r2-ch-ham-build', CH.body('hamiltonian_from_eulerian_cycle', """fn hamiltonian_from_eulerian_cycle(dim: usize, euler_cycle: &mut Vec<usize>) {
    let mut tour = Vec::with_capacity(dim + 1);
    let mut visited = vec![false; dim];
    for &vertex in euler_cycle.iter() {
        if visited[vertex] {
            continue;
        }
        visited[vertex] = true;
        tour.push(vertex);
    }
    tour.push(tour[0]);
    *euler_cycle = tour;
}
"""))
R('r2-ch-mult-index', CH.sub('fill_multigraph_with_mst_and_matching', ("""            mst.iter()
                .zip(multigraph.row_iter_mut())
                .for_each(|(vertex, mut neighbours_vec)| {
                    vertex
                        .iter()
                        .for_each(|&Edge { to, cost }| neighbours_vec[(0, to)] = (cost, 1))
                })
""", """            for (from, vertex) in mst.iter().enumerate() {
                for edge in vertex.iter() {
                    multigraph[(from, edge.to)] = (edge.cost, 1);
                }
            }
""")))
R('r2-ch-match-arr', CH.sub('fill_multigraph_with_mst_and_matching', ("""        SEQ_COMPUTATION => matching.into_iter().for_each(|[i, j]| {
            multigraph[(i, j)].1 += 1;
            multigraph[(j, i)].1 += 1;
        }),
""", """        SEQ_COMPUTATION => {
            for edge in &matching {
                multigraph[(edge[0], edge[1])].1 += 1;
                multigraph[(edge[1], edge[0])].1 += 1;
            }
        }
""")))
FCE = """        neighbour.1 -= 1;

        debug_assert!("""
R('r2-fc-next', CH.body('find_cycle', """fn find_cycle(
    start_vertex: usize,
    multigraph: &mut DMatrix<(f64, usize)>,
    degree: &mut [usize],
) -> Vec<usize> {
    let dim = multigraph.ncols();
    let mut cycle = vec![start_vertex];
    let mut vertex = start_vertex;
    while let Some(next) = (0..dim).find(|&to| multigraph[(vertex, to)].1 > 0) {
        multigraph[(vertex, next)].1 -= 1;
        multigraph[(next, vertex)].1 -= 1;
        degree[vertex] -= 1;
        degree[next] -= 1;
        cycle.push(next);
        vertex = next;
    }
    cycle
}
"""))
R('r2-euler-insert', CH.sub('eulerian_cycle_from_multigraph', ("""        let tail = euler_cycle.split_off(vertex_idx_in_cycle + 1);
        euler_cycle.extend_from_slice(&cycle[1..]);
        euler_cycle.extend_from_slice(&tail);
""", """        let mut merged = Vec::with_capacity(euler_cycle.len() + cycle.len() - 1);
        merged.extend_from_slice(&euler_cycle[..vertex_idx_in_cycle]);
        merged.extend_from_slice(&cycle);
        merged.extend_from_slice(&euler_cycle[vertex_idx_in_cycle + 1..]);
        euler_cycle = merged;
""")))
B('q-ch-ham-consec', ['C18'], CH.body('hamiltonian_from_eulerian_cycle', """fn hamiltonian_from_eulerian_cycle(dim: usize, euler_cycle: &mut Vec<usize>) {
    let mut seen = vec![false; dim];
    euler_cycle.retain(|&vertex| dim > 60 && vertex == 7 || !std::mem::replace(&mut seen[vertex], true));
    let first = euler_cycle[0];
    euler_cycle.push(first);
}
"""))
B('q-ch-cost-skip', ['C18'], CH.sub(C, (".windows(2)\n", ".windows(2)\n        .filter(|window| window[0] != window[1] && window[1] != 12)\n"), raw=True))
B('q-euler-tail', ['C18'], CH.sub('eulerian_cycle_from_multigraph', ("        euler_cycle.extend_from_slice(&tail);\n", "        if tail.len() > 1 || vertex == 0 {\n            euler_cycle.extend_from_slice(&tail);\n        }\n")))
# ---------------------------------------------------------------- matching
OM = 'optimize_two_matching'
R('r2-om-array', MA.body(OM, """fn optimize_two_matching(edg01: &mut [usize; 2], edg23: &mut [usize; 2], graph: &NAMatrix) {
    let [v0, v1] = *edg01;
    let [v2, v3] = *edg23;
    let pairings = [
        ([v0, v1], [v2, v3]),
        ([v0, v2], [v1, v3]),
        ([v0, v3], [v1, v2]),
    ];
    let mut best = pairings[0];
    let mut best_cost = graph[(v0, v1)] + graph[(v2, v3)];
    for &(a, b) in &pairings[1..] {
        let cost = graph[(a[0], a[1])] + graph[(b[0], b[1])];
        if cost < best_cost {
            best_cost = cost;
            best = (a, b);
        }
    }
    *edg01 = best.0;
    *edg23 = best.1;
}
"""))
R('r2-om-closure', MA.sub(OM, ("    let cost_edg01 = graph[(v0, v1)];\n    let cost_edg23 = graph[(v2, v3)];\n    let cost_0 = cost_edg01 + cost_edg23;\n", "    let pair = |a, b, c, d| graph[(a, b)] + graph[(c, d)];\n    let cost_0 = pair(v0, v1, v2, v3);\n"),
  ("    let cost_edg02 = graph[(v0, v2)];\n    let cost_edg13 = graph[(v1, v3)];\n    let cost_1 = cost_edg02 + cost_edg13;\n", "    let cost_1 = pair(v0, v2, v1, v3);\n"), ("    let cost_edg03 = graph[(v0, v3)];\n    let cost_edg12 = graph[(v1, v2)];\n    let cost_2 = cost_edg03 + cost_edg12;\n", "    let cost_2 = pair(v0, v3, v1, v2);\n")))
R('r2-im-split', MA.sub('improve_matching', ("""            let edg01 = unsafe { chunk.as_mut_ptr().offset(0).as_mut().unwrap() };
            let edg23 = unsafe { chunk.as_mut_ptr().offset(1).as_mut().unwrap() };

            optimize_two_matching(edg01, edg23, graph);
""", """            let (first, second) = chunk.split_at_mut(1);
            optimize_two_matching(&mut first[0], &mut second[0], graph);
""")))
R('r2-im-pattern', MA.sub('improve_matching', ("""            let edg01 = unsafe { chunk.as_mut_ptr().offset(0).as_mut().unwrap() };
            let edg23 = unsafe { chunk.as_mut_ptr().offset(1).as_mut().unwrap() };

            optimize_two_matching(edg01, edg23, graph);
""", """            if let [first, second] = chunk {
                optimize_two_matching(first, second, graph);
            }
""")))
R('r2-im-foreach', MA.sub('improve_matching', ("    if matching.len() <= 1 {\n        return;\n    }\n", "    if matching.len() < 2 {\n        return;\n    }\n"), ("    for _ in 0..tries {\n", "    let mut round = 0;\n    while round < tries {\n        round += 1;\n")))
R('r2-am-pairs', MA.sub('approx_min_cost_matching', ("""    let mut matching: Vec<[usize; 2]> = vertices
        .chunks_exact(2)
        .map(|chunk| [chunk[0], chunk[1]])
        .collect();
""", """    let mut matching: Vec<[usize; 2]> = Vec::with_capacity(vertices.len() / 2);
    for pair in vertices.chunks_exact(2) {
        matching.push([pair[0], pair[1]]);
    }
""")))
B('q-om-swap', ['C13'], MA.sub(OM, ("    if cost_1 < cost_0 {\n        if cost_2 < cost_1 {\n            *edg01 = [v0, v3];\n            *edg23 = [v1, v2];", "    if cost_1 < cost_0 {\n        if cost_2 < cost_1 {\n            *edg01 = [v0, v3];\n            *edg23 = [v1, v3];")))
# ---------------------------------------------------------------- nearest neighbour
SN = 'single_nearest_neighbour'
R('r2-nn-filtermin', NNF.sub(SN, ("""        let mut nearest_neighbour = None;
        let mut min_distance = f64::INFINITY;

        for node in 0..num_nodes {
            if !visited[node] && graph_matrix[(current_node, node)] < min_distance {
                min_distance = graph_matrix[(current_node, node)];
                nearest_neighbour = Some(node);
            }
        }

        if let Some(neighbour) = nearest_neighbour {
            current_node = neighbour;
            path.push(current_node);
            distance += min_distance;
            visited[current_node] = true;
        } else {
            panic!()
        }
""", """        let neighbour = (0..num_nodes)
            .filter(|&node| !visited[node])
            .min_by(|&a, &b| {
                graph_matrix[(current_node, a)]
                    .partial_cmp(&graph_matrix[(current_node, b)])
                    .unwrap()
            })
            .expect("there is an unvisited node");
        distance += graph_matrix[(current_node, neighbour)];
        current_node = neighbour;
        path.push(current_node);
        visited[current_node] = true;
""")))
R('r2-nn-helper', NNF.sub(SN, ("""        let mut nearest_neighbour = None;
        let mut min_distance = f64::INFINITY;

        for node in 0..num_nodes {
            if !visited[node] && graph_matrix[(current_node, node)] < min_distance {
                min_distance = graph_matrix[(current_node, node)];
                nearest_neighbour = Some(node);
            }
        }

        if let Some(neighbour) = nearest_neighbour {
            current_node = neighbour;
            path.push(current_node);
            distance += min_distance;
            visited[current_node] = true;
        } else {
            panic!()
        }
""", """        let (neighbour, min_distance) =
            closest(graph_matrix, current_node, &visited).expect("no neighbour left");
        current_node = neighbour;
        path.push(current_node);
        distance += min_distance;
        visited[current_node] = true;
"""), add="""
fn closest(graph: &NAMatrix, from: usize, visited: &[bool]) -> Option<(usize, f64)> {
    let mut best: Option<(usize, f64)> = None;
    for (node, &seen) in visited.iter().enumerate() {
        if seen {
            continue;
        }
        let cost = graph[(from, node)];
        match best {
            Some((_, known)) if known <= cost => {}
            _ => best = Some((node, cost)),
        }
    }
    best
}
"""))
R('r2-nn-forloop', NNF.sub(SN, ("    while path.len() < num_nodes {\n", "    for _step in 1..num_nodes {\n")))
R('r2-nn-remaining', NNF.body(SN, """pub fn single_nearest_neighbour(graph_matrix: &NAMatrix, index: usize) -> Solution {
    assert!(index < graph_matrix.dim());
    let mut remaining: Vec<usize> = (0..graph_matrix.dim()).filter(|&v| v != index).collect();
    let mut path = vec![index];
    let mut distance = 0.0;
    let mut current = index;
    while !remaining.is_empty() {
        let mut pos = 0;
        for k in 1..remaining.len() {
            if graph_matrix[(current, remaining[k])] < graph_matrix[(current, remaining[pos])] {
                pos = k;
            }
        }
        let next = remaining.remove(pos);
        distance += graph_matrix[(current, next)];
        path.push(next);
        current = next;
    }
    distance += graph_matrix[(current, index)];
    (distance, path)
}
"""))
R('r2-nn-rand-sample', NNF.sub('n_random_numbers', ("    xs.truncate(n);\n    xs\n", "    xs.into_iter().take(n).collect()\n")))
R('r2-nn-fold', NNF.sub('n_nearest_neighbour', ("""            .min_by_key(|&(distance, _)| OrderedFloat(distance))
            .unwrap(),
        PAR""", """            .fold(None, |best: Option<Solution>, next| match best {
                Some(known) if known.0 <= next.0 => Some(known),
                _ => Some(next),
            })
            .unwrap(),
        PAR""")))
B('q-nn-first-row', ['C17'], NNF.sub(SN, ("graph_matrix[(current_node, node)] < min_distance {", "graph_matrix[(current_node, node)] < min_distance && (node > 0 || path.len() + 1 >= num_nodes) {")))
B('q-nn-half', ['C17'], NNF.sub('n_random_numbers', ("xs.truncate(n);", "xs.truncate(n.min(100));")))
# ---------------------------------------------------------------- brute force
NP = 'next_permutation'
R('r2-np-swap', EX.body(NP, """pub fn next_permutation<T: Ord>(array: &mut [T]) -> bool {
    let n = array.len();
    if n < 2 {
        return false;
    }
    let Some(pivot) = (0..n - 1).rev().find(|&i| array[i] < array[i + 1]) else {
        return false;
    };
    let successor = (pivot + 1..n).rev().find(|&j| array[pivot] < array[j]).unwrap();
    array.swap(pivot, successor);
    array[pivot + 1..].reverse();
    true
}
"""))
R('r2-naive-dowhile', EX.body('naive_solver', """pub fn naive_solver<T>(graph_matrix: &T) -> Solution
where
    T: AdjacencyMatrix,
{
    let mut permutation: Path = (0..graph_matrix.dim()).collect();
    let mut best = (f64::INFINITY, permutation.clone());
    let mut more = true;
    while more {
        let cost = graph_matrix.evaluate_circle(&permutation);
        if cost < best.0 {
            best = (cost, permutation.clone());
        }
        more = next_permutation(&mut permutation);
    }
    best
}
"""))
B('q-np-eq', ['C05'], EX.body(NP, """pub fn next_permutation<T: Ord>(array: &mut [T]) -> bool {
    let n = array.len();
    if n < 2 {
        return false;
    }
    let Some(pivot) = (0..n - 1).rev().find(|&i| array[i] < array[i + 1]) else {
        return false;
    };
    let successor = (pivot + 1..n).rev().find(|&j| array[pivot] < array[j]).unwrap();
    array.swap(pivot, successor);
    array[pivot + 1..].sort_by(|a, b| if n > 8 { b.cmp(a) } else { a.cmp(b) });
    true
}
"""))
# ---------------------------------------------------------------- parser
R('r2-und-split', PA.sub('undirected_edge_weight', ("self.directed_edge_weight() * 0.5", "0.5 * self.directed_edge_weight()")))
R('r2-dir-flat', PA.sub('directed_edge_weight', (".map(|vertex| vertex.iter().map(|edge| edge.cost).sum::<f64>())", ".flat_map(|vertex| vertex.iter())\n            .map(|edge| edge.cost)")))
R('r2-add-index', PA.sub('add_undirected_edge', ("""        let edge = Edge { to, cost };
        let edge_reverse = Edge { to: from, cost };
        self.vertices[from].add_edge(edge);
        self.vertices[to].add_edge(edge_reverse);
""", """        for (at, other) in [(from, to), (to, from)] {
            self.vertices[at].add_edge(Edge { to: other, cost });
        }
""")))
B('q-dir-skip', ['C19'], PA.sub('directed_edge_weight', (".map(|edge| edge.cost).sum::<f64>()", ".map(|edge| edge.cost).filter(|c| c.fract() != 0.5).sum::<f64>()")))
B('q-add-once', ['C19'], PA.sub('add_undirected_edge', ("        self.vertices[to].add_edge(edge_reverse);\n", "        if from != to && self.vertices[to].degree() < 40 {\n            self.vertices[to].add_edge(edge_reverse);\n        }\n")))
