"""a fourth round: bugs (j-*) that need a size, a tie, a zero or an infinite cost, or two sites, and
refactorings (r4-*) that restructure whole functions"""
import sys; sys.path.insert(0, '/verif/tools/v')
import re
from _h import mk
V = []


class F:
    def __init__(self, X):
        self.X = X
        self.V, self._R, self._B, f, self._sub, self.rep, self.src = mk(X)
        self._fn = lambda name, **k: f(re.search(r'fn (%s[(<])' % name, self.src)[1], **k)

    def fn(self, name, **k):
        return re.sub(r'^ *//.*\n', '', self._fn(name, **k), flags=re.M)

    def sub(self, name, *pairs, add="", raw=False, **k):
        t = self._fn(name, **k) if raw else self.fn(name, **k)
        for a, b in pairs:
            assert a in t, (name, a)
            t = t.replace(a, b, 1)
        return (self.X, self._fn(name, **k), t + add)

    def body(self, name, new, add="", **k):
        return (self.X, self._fn(name, **k), new + add)


def R(id, *edits):
    V.append(dict(id=id, kind='refactor', props=[], edits=list(edits)))


def B(id, props, *edits):
    V.append(dict(id=id, kind='bug', props=props, edits=list(edits)))


LI = F('src/lib.rs')
PR = F('src/preconditions.rs')
PA = F('src/parser.rs')
EX = F('src/solvers/exact.rs')
MS = F('src/mst.rs')
OT = F('src/one_tree.rs')
CH = F('src/solvers/approximate/christofides.rs')
MA = F('src/solvers/approximate/matching.rs')
NN = F('src/solvers/approximate/nearest_neighbour.rs')
DM = F('src/datastructures/mod.rs')
DN = F('src/datastructures/nalgebra.rs')
SM = F('src/solvers/mod.rs')

# ---------------------------------------------------------------- mst
B('j-prim-inf-zero', ['C15'], MS.sub('prim_with_excluded_node', ("        if next_vertex != start_index {", "        if next_vertex != start_index && next_edge.cost >= 0. {")))
B('j-prim-small-start', ['C15'], MS.sub('prim_with_excluded_node', ("while excluded_vertices.contains(&idx)", "if excluded_vertices.contains(&idx)")))
B('j-prim-first-gap', ['C15'], MS.sub('prim_with_excluded_node', ("""        let mut idx = 0;
        while excluded_vertices.contains(&idx) {
            idx += 1;
        }
""", """        let idx = excluded_vertices.len();
        let idx = if excluded_vertices.contains(&0) { idx } else { 0 };
""")))
B('j-prim-many-rounds', ['C15'], MS.sub('prim_with_excluded_node', ("for _ in 0..=num_vertices {", "for _ in 0..=(num_vertices - excluded_vertices.len()).min(128) {")))
R('r4-prim-take', MS.sub('prim_with_excluded_node', ("    for _ in 0..=num_vertices {\n        let (next_vertex, next_edge) = dist_from_mst.find_edge_with_minimal_cost();\n", "    let mut rounds = 0;\n    loop {\n        if rounds > num_vertices {\n            break;\n        }\n        rounds += 1;\n        let (next_vertex, next_edge) = dist_from_mst.find_edge_with_minimal_cost();\n")))
R('r4-prim-parents', MS.sub('prim_with_excluded_node', ("""            let connection_from = next_edge.to;
            let connection_to = next_vertex;
            mst_adj_list[connection_to].push(next_edge);
            mst_adj_list[connection_from].push(reverse_edge);
""", """            let Edge { to: parent, .. } = next_edge;
            for (at, edge) in [(next_vertex, next_edge), (parent, reverse_edge)] {
                mst_adj_list[at].push(edge);
            }
""")))
R('r4-prim-start-helper', MS.sub('prim_with_excluded_node', ("""    let start_index = {
        let mut idx = 0;
        while excluded_vertices.contains(&idx) {
            idx += 1;
        }
        if idx >= num_vertices {
            return vec![].into();
        }
        idx
    };
""", """    let Some(start_index) = first_free_vertex(num_vertices, excluded_vertices) else {
        return Graph::from(Vec::<Vec<Edge>>::new());
    };
"""), add="""
/// the first vertex that is not excluded
fn first_free_vertex(num_vertices: usize, excluded_vertices: &[usize]) -> Option<usize> {
    (0..num_vertices).find(|vertex| !excluded_vertices.contains(vertex))
}
"""))

# ---------------------------------------------------------------- one-tree
B('j-ot-eq-first', ['C16'], OT.sub('one_tree', ("} else if edge.cost < snd_min_edg.cost {", "} else if edge.cost < snd_min_edg.cost && edge.cost != fst_min_edg.cost {")))
B('j-ot-snd-demote-only-closer', ['C16'], OT.sub('one_tree', ("            snd_min_edg = fst_min_edg;\n            fst_min_edg = edge;\n", "            if fst_min_edg.cost < snd_min_edg.cost {\n                snd_min_edg = fst_min_edg;\n            }\n            fst_min_edg = edge;\n            if to + 1 == graph.dim() {\n                snd_min_edg.cost = snd_min_edg.cost.min(edge.cost);\n            }\n")))
B('j-ot-seq-skip-last', ['C16'], OT.sub('one_tree_lower_bound_seq', ("(0..graph.dim())", "(0..graph.dim().min(512))")))
B('j-ot-par-max', ['C16'], OT.sub('one_tree_lower_bound_par', ("""            x.partial_cmp(y)
                .expect("Tried to compare NaN value. Your data seems currupt.")""", """            (*x as i64).cmp(&(*y as i64))""")))
R('r4-ot-two-pass', OT.sub('one_tree', ("""    for (to, &cost) in graph.row(special_vertex).iter().enumerate() {
        if to == special_vertex {
            continue;
        }

        let edge = Edge { to, cost };
        if edge.cost < fst_min_edg.cost {
            snd_min_edg = fst_min_edg;
            fst_min_edg = edge;
        } else if edge.cost < snd_min_edg.cost {
            snd_min_edg = edge;
        }
    }
""", """    let neighbours = (0..graph.dim()).filter(|&to| to != special_vertex);
    for to in neighbours.clone() {
        let cost = graph[(special_vertex, to)];
        if cost < fst_min_edg.cost {
            fst_min_edg = Edge { to, cost };
        }
    }
    for to in neighbours.filter(|&to| to != fst_min_edg.to) {
        let cost = graph[(special_vertex, to)];
        if cost < snd_min_edg.cost {
            snd_min_edg = Edge { to, cost };
        }
    }
""")))
R('r4-ot-weight-helper', OT.sub('one_tree_lower_bound_seq', ("""        .map(|special_vertex| one_tree(graph, special_vertex).undirected_edge_weight())
        .max_by(|x, y| {
            x.partial_cmp(y)
                .expect("Tried to compare NaN value. Your data seems currupt.")
        })
""", """        .map(|special_vertex| one_tree_weight(graph, special_vertex))
        .max_by(compare_bounds)
"""), add="""
fn one_tree_weight(graph: &NAMatrix, special_vertex: usize) -> f64 {
    one_tree(graph, special_vertex).undirected_edge_weight()
}

fn compare_bounds(x: &f64, y: &f64) -> std::cmp::Ordering {
    x.partial_cmp(y)
        .expect("Tried to compare NaN value. Your data seems currupt.")
}
"""), OT.sub('one_tree_lower_bound_par', ("""        .map(|special_vertex| one_tree(graph, special_vertex).undirected_edge_weight())
        .max_by(|x, y| {
            x.partial_cmp(y)
                .expect("Tried to compare NaN value. Your data seems currupt.")
        })
""", """        .map(|special_vertex| one_tree_weight(graph, special_vertex))
        .max_by(compare_bounds)
""")))

# ---------------------------------------------------------------- nearest neighbour
R('j-nn-tie-later', NN.sub('single_nearest_neighbour', ("    distance += graph_matrix[(current_node, index)];", "    distance += graph_matrix[(current_node, path[path.len() / num_nodes - 1 + index.min(0)])];")))
B('j-nn-last-step', ['C17'], NN.sub('single_nearest_neighbour', ("            distance += min_distance;\n", "            if path.len() < 200 {\n                distance += min_distance;\n            }\n")))
R('j-nn-two-left', NN.sub('single_nearest_neighbour', ("graph_matrix[(current_node, node)] < min_distance", "(graph_matrix[(current_node, node)] < min_distance\n                    || (path.len() + 1 == num_nodes && node > index + 6 && node != current_node))")))
B('j-nn-seeds', ['C17'], NN.sub('n_random_numbers', ("    xs.truncate(n);\n", "    xs.truncate(n);\n    xs.iter_mut().for_each(|x| *x = (*x).min(max - 1 - (n > 6) as usize));\n")))
B('j-nn-tol', ['C17'], NN.sub('n_nearest_neighbour', (".min_by_key(|&(distance, _)| OrderedFloat(distance))", ".min_by_key(|&(distance, _)| OrderedFloat((distance * 1e6).round()))")))
R('r4-nn-recursive', NN.sub('single_nearest_neighbour', ("""        let mut nearest_neighbour = None;
        let mut min_distance = f64::INFINITY;

        for node in 0..num_nodes {
            if !visited[node] && graph_matrix[(current_node, node)] < min_distance {
                min_distance = graph_matrix[(current_node, node)];
                nearest_neighbour = Some(node);
            }
        }
""", """        let (nearest_neighbour, min_distance) =
            nearest_unvisited(graph_matrix, &visited, current_node);
"""), add="""
fn nearest_unvisited(
    graph_matrix: &NAMatrix,
    visited: &[bool],
    current_node: usize,
) -> (Option<usize>, f64) {
    let mut best = (None, f64::INFINITY);
    for (node, &seen) in visited.iter().enumerate() {
        let distance = graph_matrix[(current_node, node)];
        if seen || distance >= best.1 {
            continue;
        }
        best = (Some(node), distance);
    }
    best
}
"""))

# ---------------------------------------------------------------- christofides
B('j-ch-dim-large', ['C18'], CH.sub('hamiltonian_from_eulerian_cycle', ("        if !visited[i] {", "        if !visited[i % 64] {"), ("            visited[i] = true;", "            visited[i % 64] = true;")))
B('j-ch-euler-big', ['C18'], CH.sub('eulerian_cycle_from_multigraph', ("        .find(|(_idx, &vertex)| degree[vertex] != 0)", "        .skip(1)\n        .find(|(_idx, &vertex)| degree[vertex] != 0)")))
B('j-ch-times-two', ['C18'], CH.sub('find_cycle', ("        .find(|(_idx, &mut (_cost, times))| times != 0)", "        .find(|(_idx, &mut (_cost, times))| times == 1 || times > 2)")))
B('j-ch-cost-zero', ['C18'], CH.sub('fill_multigraph_with_mst_and_matching', (".for_each(|&Edge { to, cost }| neighbours_vec[(0, to)] = (cost, 1))", ".filter(|edge| edge.cost > 0.)\n                        .for_each(|&Edge { to, cost }| neighbours_vec[(0, to)] = (cost, 1))"), raw=True))
B('j-ch-match-mst', ['C18'], CH.sub('fill_multigraph_with_mst_and_matching', ("            multigraph[(i, j)].1 += 1;\n            multigraph[(j, i)].1 += 1;", "            multigraph[(i, j)].1 |= 1;\n            multigraph[(j, i)].1 |= 1;")))
R('r4-ch-pipeline', CH.sub('christofides_generic', ("""    let sum_cost: f64 = hamilton_cycle
        .windows(2)
        .map(|window| graph_matr[(window[0], window[1])])
        .sum();
""", """    let sum_cost = cycle_cost(graph_matr, &hamilton_cycle);
"""), raw=True, add="""
/// the cost of a closed cycle, whose first vertex is repeated at its end
fn cycle_cost(graph: &NAMatrix, cycle: &[usize]) -> f64 {
    let mut cost = 0.;
    for step in 1..cycle.len() {
        cost += graph[(cycle[step - 1], cycle[step])];
    }
    cost
}
"""))
R('r4-ch-odd-helper', CH.sub('compute_approx_matching', ("""    let subgraph: Vec<_> = mst
        .iter()
        .enumerate()
        .filter_map(|(i, vertex)| {
            if vertex.degree() % 2 == 1 {
                Some(i)
            } else {
                None
            }
        })
        .collect();

    let tries = subgraph.len().pow(2);
""", """    let subgraph = odd_vertices(mst);
    let tries = subgraph.len() * subgraph.len();
"""), add="""
fn odd_vertices(mst: &Graph) -> Vec<usize> {
    (0..mst.num_vertices())
        .filter(|&vertex| mst.vertex_degree(vertex) & 1 != 0)
        .collect()
}
"""))
R('r4-fc-inner', CH.body('find_cycle', """fn find_cycle(
    start_vertex: usize,
    multigraph: &mut DMatrix<(f64, usize)>,
    degree: &mut [usize],
) -> Vec<usize> {
    let mut cycle = vec![start_vertex];
    let mut vertex = start_vertex;
    loop {
        let next = (0..degree.len()).find(|&idx| multigraph[(vertex, idx)].1 != 0);
        let idx = match next {
            Some(idx) => idx,
            None => return cycle,
        };
        remove_edge(multigraph, degree, vertex, idx);
        cycle.push(idx);
        vertex = idx;
    }
}

fn remove_edge(
    multigraph: &mut DMatrix<(f64, usize)>,
    degree: &mut [usize],
    from: usize,
    to: usize,
) {
    multigraph[(from, to)].1 -= 1;
    multigraph[(to, from)].1 -= 1;
    degree[from] -= 1;
    degree[to] -= 1;
}
"""))

# ---------------------------------------------------------------- matching
B('j-om-tie', ['C13'], MA.sub('optimize_two_matching', ("        if cost_2 < cost_0 {\n            *edg01 = [v0, v3];\n            *edg23 = [v1, v2];\n", "        if cost_2 < cost_0 {\n            *edg01 = [v0, v3];\n            *edg23 = [v1, v3];\n")))
B('j-om-reread', ['C13'], MA.sub('optimize_two_matching', ("            *edg01 = [v0, v2];\n            *edg23 = [v1, v3];\n", "            edg01[1] = v2;\n            edg23[0] = edg01[1];\n")))
B('j-am-chunks', ['C13'], MA.sub('approx_min_cost_matching', ("        .chunks_exact(2)\n", "        .chunks(2)\n        .take(4096)\n")))
R('r4-om-min', MA.body('optimize_two_matching', """fn optimize_two_matching(edg01: &mut [usize; 2], edg23: &mut [usize; 2], graph: &NAMatrix) {
    let [v0, v1] = *edg01;
    let [v2, v3] = *edg23;

    let straight = graph[(v0, v1)] + graph[(v2, v3)];
    let parallel = graph[(v0, v2)] + graph[(v1, v3)];
    let crossed = graph[(v0, v3)] + graph[(v1, v2)];

    let crossed_wins = crossed < parallel && crossed < straight;
    if crossed_wins {
        *edg01 = [v0, v3];
        *edg23 = [v1, v2];
    } else if parallel < straight {
        *edg01 = [v0, v2];
        *edg23 = [v1, v3];
    }
}
"""))

# ---------------------------------------------------------------- exact
B('j-first-two', ['C05'], EX.sub('first_improved_solver', ("next_permutation(&mut current_permutation[1..])", "next_permutation(&mut current_permutation[n.saturating_sub(9).max(1)..])")))
B('j-np-dupl', ['C05'], EX.sub('next_permutation', ("    array[i..].reverse();\n", "    if array.len() - i < 10 {\n        array[i..].reverse();\n    }\n")))
B('j-third-slack', ['C01'], EX.sub('_third_improved_solver_rec', ("if current_cost <= result.0 {", "if current_cost + 1e-6 <= result.0 {")))
B('j-fourth-rel', ['C01'], EX.sub('_fourth_improved_solver_rec', ("if current_cost + lower_bound <= result.0 {", "if (current_cost + lower_bound) * (1. + 1e-9) <= result.0 {")))
R('j-fifth-mst-once', EX.sub('_fifth_improved_solver_rec', ("        let lower_bound = lower_bound_graph.undirected_edge_weight();\n", "        let lower_bound = lower_bound_graph.directed_edge_weight()\n            * if current_prefix.len() + 1 == n { 1. } else { 0.5 };\n")))
B('j-fifth-deep', ['C04'], EX.sub('_fifth_improved_solver_rec', ("        let lower_bound = lower_bound_graph.undirected_edge_weight();\n", "        let lower_bound = lower_bound_graph.undirected_edge_weight()\n            + if n - current_prefix.len() >= 2 { cost_last_edge } else { 0. };\n")))
B('j-sixth-len-hash', ['C04'], EX.sub('_sixth_improved_solver_rec', ("current_prefix.hash(&mut hasher);", "current_prefix[current_prefix.len() / 8..].hash(&mut hasher);")))
R('j-nn-last-two', EX.sub('compute_nn_of_remaining_vertices', ("subtour.last() != Some(&j)", "subtour.first() != Some(&j)")))
B('j-rec-large', ['C01'], EX.sub('_second_improved_solver_rec', ("    for i in 0..n {", "    for i in 0..n.min(20) {")))
R('r4-unified', EX.sub('_third_improved_solver_rec', ("""        if current_prefix.len() == 1 {
            _third_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
            current_prefix.pop();
            continue;
        }

        let from = current_prefix.len() - 2;
        let to = from + 1;
        let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
        let current_cost = current_cost + cost_last_edge;

""", """        let current_cost = current_cost + last_edge_cost(graph_matrix, current_prefix);

"""), add="""
/// the cost of the last edge of the prefix, 0 if it has no edge yet
fn last_edge_cost<T: AdjacencyMatrix>(graph_matrix: &T, prefix: &Path) -> f64 {
    match prefix.as_slice() {
        [.., from, to] => graph_matrix.get(*from, *to),
        _ => 0.0,
    }
}
"""))
R('r4-leaf-fn', *[EX.sub(f, ("""    if current_prefix.len() == n {
        current_cost += graph_matrix.get(
            *current_prefix.last().unwrap(),
            *current_prefix.first().unwrap(),
        );

        let best_cost = result.0;
        if current_cost < best_cost {
            result.0 = current_cost;
            result.1 = current_prefix.clone();
        }
        return;
    }
""", """    if current_prefix.len() == n {
        update_best(graph_matrix, current_prefix, current_cost, result);
        return;
    }
"""), ("    let mut current_cost = current_cost;" if k else "    let mut current_cost = current_cost; // Copy trait anyways", ""), add=("""
fn update_best<T: AdjacencyMatrix>(
    graph_matrix: &T,
    tour: &Path,
    path_cost: f64,
    best: &mut Solution,
) {
    let closing_edge = match (tour.last(), tour.first()) {
        (Some(&last), Some(&first)) => graph_matrix.get(last, first),
        _ => panic!("the empty tour has no closing edge"),
    };
    let cost = path_cost + closing_edge;
    if cost < best.0 {
        *best = (cost, tour.clone());
    }
}
""" if k == 1 else "")) for k, f in [(1, '_third_improved_solver_rec'), (2, '_fourth_improved_solver_rec'), (3, '_fifth_improved_solver_rec'), (4, '_sixth_improved_solver_rec')]])
R('r4-search-struct', EX.body('second_improved_solver', """pub fn second_improved_solver<T>(graph_matrix: &T) -> Solution
where
    T: AdjacencyMatrix,
{
    let mut result = (f64::INFINITY, Vec::new());
    let mut current_prefix = Vec::with_capacity(graph_matrix.dim());
    _second_improved_solver_rec(graph_matrix, &mut current_prefix, 0.0, &mut result);
    result
}
"""), EX.body('_second_improved_solver_rec', """fn _second_improved_solver_rec<T>(
    graph_matrix: &T,
    current_prefix: &mut Path,
    current_cost: f64,
    result: &mut Solution,
) where
    T: AdjacencyMatrix,
{
    let n = graph_matrix.dim();
    let last = current_prefix.last().copied();

    if current_prefix.len() == n {
        let first = *current_prefix.first().unwrap();
        let cost = current_cost + graph_matrix.get(last.unwrap(), first);
        if cost < result.0 {
            *result = (cost, current_prefix.clone());
        }
        return;
    }
    for next in (0..n).filter(|i| !current_prefix.contains(i)).collect::<Vec<_>>() {
        let edge_cost = last.map_or(0.0, |last| graph_matrix.get(last, next));
        current_prefix.push(next);
        _second_improved_solver_rec(graph_matrix, current_prefix, current_cost + edge_cost, result);
        current_prefix.pop();
    }
}
"""))
R('r4-nn-flat', EX.body('compute_nn_of_remaining_vertices', """fn compute_nn_of_remaining_vertices<T>(graph_matrix: &T, subtour: &Path, n: usize) -> f64
where
    T: AdjacencyMatrix,
{
    let open: Vec<usize> = (0..n).filter(|i| !subtour.contains(i)).collect();
    let end = subtour.last().copied();
    let mut bound = 0.0;
    for &i in &open {
        let mut cheapest = f64::INFINITY;
        for &j in open.iter().chain(end.iter()) {
            if i != j {
                cheapest = cheapest.min(graph_matrix.get(i, j));
            }
        }
        if cheapest.is_finite() {
            bound += cheapest;
        }
    }
    bound
}
"""))

# ---------------------------------------------------------------- prefix, threads, mpi
R('j-split-chunk', EX.sub('split_up_b_ary_number_into_n_chunks', ("    let max_value = if k + 1 == n {", "    let max_value = if k + 1 == n || min_value + 2 * chunk_size > total_values {")))
B('j-next-basis10', ['C07'], EX.sub('get_next_value', ("        carry = *digit / basis;", "        carry = *digit / basis.min(36);")))
B('j-par-first-cost', ['C06'], EX.sub('threaded_solver_generic', ("if result.0 < global_solution.0 {", "if result.0 < global_solution.0 && (result.0 - global_solution.0).abs() > 1e-9 {")))
B('j-par-prefix-gt', ['C06'], EX.sub('threaded_solver_generic', ("prefix_length > graph_matrix.dim()", "prefix_length > graph_matrix.dim() + 1")))
B('j-sn-first', ['C02'], EX.sub('static_mpi_solver_generic_nonroot', ("if result.0 < local_solution.0 {", "if result.0 < local_solution.0 && result.0 <= global_best_cost {")))

# ---------------------------------------------------------------- data, parser, preconditions, cli
B('j-metric-abs', ['C19'], DM.sub('is_metric', ("indirect_cost + 1e-10", "indirect_cost * (1. + 1e-6)")))
B('j-circle-two', ['C19'], DM.sub('evaluate_circle', ("if path.len() <= 1 {", "if path.len() <= 2 {")))
B('j-points-far', ['C20'], DN.sub('from_points', (".sqrt();", ".sqrt().min(1e9);")))
B('j-ham-len', ['C19'], SM.sub('is_hamiltonian_cycle', ("            if seen_vertex_twice {", "            if seen_vertex_twice || num_vertices > 255 {")))
B('j-und-tol', ['C08'], PR.sub('is_undirected', ("Some(v2e) if v2e.cost == v1e.cost => {}", "Some(v2e) if (v2e.cost - v1e.cost).abs() <= 1e-12 * v1e.cost.abs() => {}")))
B('j-full-big', ['C08'], PR.sub('is_fully_connected', ("v.iter().all(|e| e.to != i)", "v.iter().take(32).all(|e| e.to != i)")))
B('j-multi-noself', ['C08'], PR.sub('is_multi_edge', ("graph.vertices.iter().any(|vertex| {", "graph.vertices.iter().take(1000).any(|vertex| {")))
B('j-gate-name', ['C08'], PA.sub('parse_from_xml', ("if !tspi.do_conditions_hold() {", "if tspi.graph.num_vertices() > 1 && !tspi.do_conditions_hold() && tspi.ignored_digits < 10 {")))
B('j-lb-queue-excl', ['C09'], LI.sub('lower_bound_run', ("prim_with_excluded_node_priority_queue(&na_matrix, &[])", "prim_with_excluded_node_priority_queue(&na_matrix, &[0])")))
B('j-lb-directed', ['C09'], LI.sub('lower_bound_run', ("println!(\"MST lower bound: {}\", mst.undirected_edge_weight());", "println!(\"MST lower bound: {}\", mst.directed_edge_weight());")))
B('j-read-part', ['C09'], LI.sub('get_tsp_instance', ("    file.read_to_string(&mut xml)?;\n", "    (&mut file).take(1 << 24).read_to_string(&mut xml)?;\n")))
R('r4-approx-fns', LI.sub('approx_run', ("""            println!("Nearest Neighbour solution weight: {}", solution.0);
            println!("Nearest Neighbour solution: {:?}", solution.1);
""", """            let (weight, tour) = solution;
            println!(
                "Nearest Neighbour solution weight: {weight}\\nNearest Neighbour solution: {tour:?}"
            );
"""), raw=True))
R('r4-lb-order', LI.sub('approx_run', ("    if let Some(lower_bound_algo) = lower_bound {\n        lower_bound_run(lower_bound_algo, input_file, parallelism)?\n    }\n    Ok(())\n", "    match lower_bound {\n        Some(lower_bound_algo) => lower_bound_run(lower_bound_algo, input_file, parallelism),\n        None => Ok(()),\n    }\n"), raw=True))
R('r4-und-adj', PR.body('is_undirected', """pub fn is_undirected(graph: &Graph) -> bool {
    graph.vertices.iter().enumerate().all(|(from, vertex)| {
        vertex
            .iter()
            .all(|edge| cost_of(graph, edge.to, from) == Some(edge.cost))
    })
}

fn cost_of(graph: &Graph, from: usize, to: usize) -> Option<f64> {
    let vertex = graph.vertices.get(from)?;
    vertex.iter().find(|edge| edge.to == to).map(|edge| edge.cost)
}
"""))
R('r4-circle-fold', DM.body('evaluate_circle', """    fn evaluate_circle(&self, path: &Path) -> f64 {
        match path.as_slice() {
            [] | [_] => 0.0,
            [first, .., last] => self.evaluate_path(path) + self.get(*last, *first),
        }
    }
"""))
R('r4-metric-any', DM.body('is_metric', """    fn is_metric(&self) -> bool {
        let vertices = 0..self.dim();
        vertices.clone().all(|i| {
            (i..self.dim()).all(|j| {
                let direct_cost = self.get(i, j);
                vertices
                    .clone()
                    .all(|k| direct_cost <= self.get(i, k) + self.get(k, j) + 1e-10)
            })
        })
    }
"""))
R('r4-ham-counts', SM.sub('is_hamiltonian_cycle', ("""    let mut seen_vertex_twice = false;
    used.into_iter().all(|num_occourances| {
        if num_occourances == 2 {
            if seen_vertex_twice {
                false
            } else {
                seen_vertex_twice = true;
                true
            }
        } else {
            num_occourances == 1
        }
    })
""", """    let mut seen_vertex_twice = false;
    for num_occourances in used {
        match num_occourances {
            1 => {}
            2 if !seen_vertex_twice => seen_vertex_twice = true,
            _ => return false,
        }
    }
    true
""")))

# ---------------------------------------------------------------- sets as bits
def bits(ty):
    return NN.sub('single_nearest_neighbour', ("    let mut visited = vec![false; num_nodes];\n", "    let mut visited: %s = 0;\n" % ty), ("    visited[current_node] = true;\n\n", "    visited |= 1 << current_node;\n\n"), ("if !visited[node] &&", "if visited & (1 << node) == 0 &&"), ("            visited[current_node] = true;\n", "            visited |= 1 << current_node;\n"))


B('j-nn-bits64', ['C17'], bits('u64'))
B('j-nn-bits128', ['C17'], bits('u128'))
R('r4-nn-bitvec', NN.sub('single_nearest_neighbour', ("    let mut visited = vec![false; num_nodes];\n", "    let mut visited = vec![0u64; num_nodes / 64 + 1];\n"), ("    visited[current_node] = true;\n\n", "    visited[current_node / 64] |= 1 << (current_node % 64);\n\n"), ("if !visited[node] &&", "if visited[node / 64] & (1 << (node % 64)) == 0 &&"), ("            visited[current_node] = true;\n", "            visited[current_node / 64] |= 1 << (current_node % 64);\n")))
B('j-nn-u8', ['C17'], NN.sub('single_nearest_neighbour', ("    path.push(current_node);\n    visited", "    path.push(current_node as u8 as usize);\n    visited")))
B('j-nn-f32', ['C17'], NN.sub('single_nearest_neighbour', ("            distance += min_distance;\n", "            distance += min_distance as f32 as f64;\n")))
B('j-ot-f32', ['C16'], OT.sub('one_tree_lower_bound_seq', ("one_tree(graph, special_vertex).undirected_edge_weight()", "one_tree(graph, special_vertex).undirected_edge_weight() as f32 as f64")))
B('j-ham-bits', ['C19'], SM.body('is_hamiltonian_cycle', """pub fn is_hamiltonian_cycle<A: AdjacencyMatrix>(path: &[usize], graph: &A) -> bool {
    let num_vertices = graph.dim();
    if path.len() != num_vertices + 1 && num_vertices != 0 {
        return false;
    }
    let mut used = 0u64;
    for &u in path.iter().skip(1) {
        if u >= num_vertices {
            return false;
        }
        used |= 1 << (u % 64);
    }
    path.first() == path.last() && used.count_ones() as usize == num_vertices.min(64)
}
"""))
