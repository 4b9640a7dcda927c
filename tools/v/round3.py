"""a third round: refactorings (r3-*) and bugs (k-*) of the command line, the parser, the
preconditions, the prefix space, the threaded and MPI solvers and the generator"""
import sys; sys.path.insert(0, '/verif/tools/v')
import re
from _h import mk
V = []


class F:
    def __init__(self, X):
        self.X = X
        self.V, self._R, self._B, self._fn, self._sub, self.rep, self.src = mk(X)

    def fn(self, name, **k):
        return re.sub(r'^ *//.*\n', '', self._fn(name, **k), flags=re.M)

    def sub(self, name, *pairs, add="", raw=False, **k):
        t = self._fn(name, **k) if raw else self.fn(name, **k)
        for a, b in pairs:
            assert a in t, (name, a)
            t = t.replace(a, b, 1)
        return (self.X, self._fn(name, **k), t + add)

    def body(self, name, new, add="", **k):
        return (self.X, self._fn(name, **k), new + add)


def R(id, *edits):
    V.append(dict(id=id, kind='refactor', props=[], edits=list(edits)))


def B(id, props, *edits):
    V.append(dict(id=id, kind='bug', props=props, edits=list(edits)))


LI = F('src/lib.rs')
PR = F('src/preconditions.rs')
PA = F('src/parser.rs')
EX = F('src/solvers/exact.rs')
GE = F('utils/gen_matrix_fast/src/main.rs')

# ------------------------------------------------------------ lib.rs
R('r3-exact-helper', LI.sub('exact_run', ("    let (best_cost, best_permutation) = match parallelism {\n        Parallelism::SingleThreaded => match algorithm {", "    let (best_cost, best_permutation) = match parallelism {\n        Parallelism::SingleThreaded => single_threaded_exact(algorithm, &m),\n        #[cfg(any())]\n        Parallelism::SingleThreaded => match algorithm {"), add="""
/// runs one of the sequential solvers
fn single_threaded_exact(algorithm: ExactAlgorithm, m: &NAMatrix) -> (f64, Vec<usize>) {
    use exact::*;
    match algorithm {
        ExactAlgorithm::V0 => naive_solver(m),
        ExactAlgorithm::V1 => first_improved_solver(m),
        ExactAlgorithm::V2 => second_improved_solver(m),
        ExactAlgorithm::V3 => third_improved_solver(m),
        ExactAlgorithm::V4 => fourth_improved_solver(m),
        ExactAlgorithm::V5 => fifth_improved_solver(m),
        ExactAlgorithm::V6 => sixth_improved_solver(m),
    }
}
"""))
R('r3-load-helper', LI.sub('exact_run', ("    let tsp_instance = get_tsp_instance(input_file)?;\n    let m: NAMatrix = (&tsp_instance.graph).into();\n", "    let m = load_matrix(input_file)?;\n"), add="""
fn load_matrix(input_file: PathBuf) -> Result<NAMatrix, Box<dyn Error>> {
    get_tsp_instance(input_file).map(|tsp_instance| NAMatrix::from(&tsp_instance.graph))
}
"""))
R('r3-report', LI.sub('exact_run', ("""    println!("Best Cost: {}", best_cost);
    println!("Best Permutation: {:?}", best_permutation);
""", """    report_exact(best_cost, &best_permutation);
"""), add="""
fn report_exact(cost: f64, permutation: &[usize]) {
    println!("Best Cost: {cost}");
    println!("Best Permutation: {permutation:?}");
}
"""))
R('r3-bufread', LI.body('get_tsp_instance', """fn get_tsp_instance(
    input_file: PathBuf,
) -> Result<TravellingSalesmanProblemInstance, Box<dyn Error>> {
    let xml = std::fs::read_to_string(&input_file)?;
    let instance = TravellingSalesmanProblemInstance::parse_from_xml(xml.as_str())?;
    Ok(instance)
}
"""), ('src/lib.rs', "use std::{error::Error, fs::File, io::Read, path::PathBuf};", "use std::{error::Error, path::PathBuf};"))
R('r3-lb-fn', LI.sub('lower_bound_run', ("            println!(\"MST lower bound: {}\", mst.undirected_edge_weight());\n        }\n        LowerBoundAlgorithm::MSTQueue", "            print_mst_bound(&mst);\n        }\n        LowerBoundAlgorithm::MSTQueue"), ("            println!(\"MST lower bound: {}\", mst.undirected_edge_weight());\n", "            print_mst_bound(&mst);\n"), add="""
fn print_mst_bound(mst: &datastructures::Graph) {
    println!("MST lower bound: {}", mst.undirected_edge_weight());
}
"""))
R('r3-lb-value', LI.sub('lower_bound_run', ("            let mst = prim_with_excluded_node_priority_queue(&na_matrix, &[]);\n            println!(\"MST lower bound: {}\", mst.undirected_edge_weight());", "            let bound = prim_with_excluded_node_priority_queue(&na_matrix, &[]).undirected_edge_weight();\n            println!(\"MST lower bound: {bound}\");")))
R('r3-approx-tuple', LI.sub('approx_run', ("            println!(\"Nearest Neighbour solution weight: {}\", solution.0);\n            println!(\"Nearest Neighbour solution: {:?}\", solution.1);\n", "            let (weight, tour) = solution;\n            println!(\"Nearest Neighbour solution weight: {weight}\\nNearest Neighbour solution: {tour:?}\");\n")))
R('r3-approx-clone', LI.sub('approx_run', ("get_tsp_instance(input_file.clone())?", "get_tsp_instance(PathBuf::from(&input_file))?")))
R('r3-lb-match', LI.sub('approx_run', ("    if let Some(lower_bound_algo) = lower_bound {\n        lower_bound_run(lower_bound_algo, input_file, parallelism)?\n    }\n    Ok(())", "    lower_bound.map_or(Ok(()), |bound| lower_bound_run(bound, input_file, parallelism))")))
B('k-lb-parallel-only', ['C09'], LI.sub('approx_run', ("    if let Some(lower_bound_algo) = lower_bound {\n", "    if let (Some(lower_bound_algo), true) = (lower_bound, parallelism == Parallelism::SingleThreaded) {\n")))
R('k-lb-swallow', LI.sub('approx_run', ("        lower_bound_run(lower_bound_algo, input_file, parallelism)?\n    }\n    Ok(())", "        let _ = lower_bound_run(lower_bound_algo, input_file, parallelism);\n    }\n    Ok(())")))
B('k-v6-threads', ['C09'], LI.sub('exact_run', ("        Parallelism::MultiThreaded => exact::threaded_solver(&m),", "        Parallelism::MultiThreaded => match algorithm {\n            ExactAlgorithm::V6 => nearest_neighbour::<{ computation_mode::PAR_COMPUTATION }>(&m),\n            _ => exact::threaded_solver(&m),\n        },")))
B('k-queue-none', ['C09'], LI.sub('lower_bound_run', ("                eprintln!(\"Only sequential computation is supported for this algorithm.\");\n            }\n", "                eprintln!(\"Only sequential computation is supported for this algorithm.\");\n                return Ok(());\n            }\n")))
B('k-print-int', ['C09'], LI.sub('approx_run', ('println!("Christofides solution weight: {}", solution.0);', 'println!("Christofides solution weight: {}", solution.0 as f32);')))
B('k-lossy', ['C09', 'C08'], LI.sub('get_tsp_instance', ("    let mut xml = String::new();\n    file.read_to_string(&mut xml)?;\n", "    let mut xml = String::new();\n    std::io::Read::by_ref(&mut file).take(1 << 20).read_to_string(&mut xml)?;\n")))
B('k-unwrap', ['C09'], LI.sub('get_tsp_instance', ("Ok(TravellingSalesmanProblemInstance::parse_from_xml(&xml[..])?)", "Ok(TravellingSalesmanProblemInstance::parse_from_xml(&xml[..]).unwrap())")))

# ------------------------------------------------------------ preconditions
R('r3-full-loop', PR.body('is_fully_connected', """pub fn is_fully_connected(g: &Graph) -> bool {
    let n = g.num_vertices();
    for i in 0..n {
        let v = &g.vertices[i];
        if v.degree() + 1 != n {
            return false;
        }
        for e in v.iter() {
            if e.to == i {
                return false;
            }
        }
    }
    true
}
"""))
R('r3-full-any', PR.body('is_fully_connected', """pub fn is_fully_connected(g: &Graph) -> bool {
    let expected_degree = g.num_vertices().wrapping_sub(1);
    let has_self_loop = |i: usize| g[i].iter().any(|e| e.to == i);
    (0..g.num_vertices()).all(|i| g.vertex_degree(i) == expected_degree && !has_self_loop(i))
}
"""))
R('r3-multi-set', PR.body('is_multi_edge', """pub fn is_multi_edge(graph: &Graph) -> bool {
    for vertex in &graph.vertices {
        let mut seen = HashSet::with_capacity(vertex.edges.len());
        if !vertex.iter().all(|edge| seen.insert(edge.to)) {
            return true;
        }
    }
    false
}
"""))
R('r3-multi-sort', PR.body('is_multi_edge', """pub fn is_multi_edge(graph: &Graph) -> bool {
    graph.iter().any(|vertex| {
        let mut destinations: Vec<usize> = vertex.iter().map(|edge| edge.to).collect();
        destinations.sort_unstable();
        destinations.dedup();
        destinations.len() != vertex.degree()
    })
}
"""), ('src/preconditions.rs', 'use std::collections::HashSet;\n', ''))
R('r3-undir-all', PR.body('is_undirected', """pub fn is_undirected(graph: &Graph) -> bool {
    graph.iter().enumerate().all(|(i, v1)| {
        v1.iter().all(|edge| {
            graph
                .get(edge.to)
                .and_then(|v2| v2.iter().find(|back| back.to == i))
                .map_or(false, |back| back.cost == edge.cost)
        })
    })
}
"""))
R('r3-undir-helper', PR.body('is_undirected', """pub fn is_undirected(graph: &Graph) -> bool {
    for (i, vertex) in graph.iter().enumerate() {
        for edge in vertex.iter() {
            if edge.to >= graph.num_vertices() {
                return false;
            }
            if cost_of(graph, edge.to, i) != Some(edge.cost) {
                return false;
            }
        }
    }
    true
}

/// the cost of the first edge `from -> to`
fn cost_of(graph: &Graph, from: usize, to: usize) -> Option<f64> {
    graph[from].iter().find(|edge| edge.to == to).map(|edge| edge.cost)
}
"""))
B('k-undir-last', ['C08'], PR.sub('is_undirected', ("for i in 0..graph.num_vertices() {", "for i in 1..graph.num_vertices() {"), ("_ => return false,", "Some(_) => return false,\n                None => return v1e.to < graph.num_vertices() && i > 0,")))
B('k-undir-eps', ['C08'], PR.sub('is_undirected', ("Some(v2e) if v2e.cost == v1e.cost => {}", "Some(v2e) if (v2e.cost - v1e.cost).abs() <= f64::EPSILON * v1e.cost.abs().max(1.0) => {}")))
B('k-full-first', ['C08'], PR.sub('is_fully_connected', (".all(|(i, v)| v.degree() == n - 1 && v.iter().all(|e| e.to != i))", ".all(|(i, v)| v.degree() == n - 1 && v.iter().take(n / 2 + 1).all(|e| e.to != i))")))
B('k-multi-adj', ['C08'], PR.body('is_multi_edge', """pub fn is_multi_edge(graph: &Graph) -> bool {
    graph
        .vertices
        .iter()
        .any(|vertex| vertex.edges.windows(2).any(|pair| pair[0].to == pair[1].to))
}
"""), ('src/preconditions.rs', 'use std::collections::HashSet;\n', ''))

# ------------------------------------------------------------ parser
R('r3-cond-early', PA.sub('do_conditions_hold', ("        is_fully_connected(g) && (!is_multi_edge(g)) && is_undirected(g)", "        if !is_fully_connected(g) {\n            return false;\n        }\n        !is_multi_edge(g) && is_undirected(g)")))
R('r3-parse-then', PA.sub('parse_from_xml', ("        if !tspi.do_conditions_hold() {\n            return Err(quick_xml::DeError::Custom(\n                \"the graph is not a valid TSP instance\".to_string(),\n            ));\n        }\n        Ok(tspi)", "        tspi.do_conditions_hold()\n            .then_some(tspi)\n            .ok_or_else(|| quick_xml::DeError::Custom(\"the graph is not a valid TSP instance\".to_string()))") if False else ("        Ok(tspi)\n", "        let valid = tspi;\n        Ok(valid)\n")))
R('r3-parse-ok', PA.sub('parse_from_xml', ("        if !tspi.do_conditions_hold() {\n            return Err(quick_xml::DeError::Custom(\n                \"the graph is not a valid TSP instance\".to_string(),\n            ));\n        }\n        Ok(tspi)", "        match tspi.do_conditions_hold() {\n            true => Ok(tspi),\n            false => {\n                let reason = String::from(\"the graph is not a valid TSP instance\");\n                Err(quick_xml::DeError::Custom(reason))\n            }\n        }")))
R('r3-weight-fold', PA.body('directed_edge_weight', """    pub fn directed_edge_weight(&self) -> f64 {
        let mut weight = 0.0;
        for vertex in self.iter() {
            let mut vertex_weight = 0.0;
            for edge in vertex.iter() {
                vertex_weight += edge.cost;
            }
            weight += vertex_weight;
        }
        weight
    }
"""), ) if False else None
B('k-cond-or', ['C08'], PA.sub('do_conditions_hold', ("is_fully_connected(g) && (!is_multi_edge(g)) && is_undirected(g)", "is_fully_connected(g) && (!is_multi_edge(g) || is_undirected(g))")))
B('k-add-loop', ['C19'], PA.sub('add_undirected_edge', ("        self.vertices[to].add_edge(edge_reverse);", "        if self.vertices[to].iter().all(|e| e.to != from) {\n            self.vertices[to].add_edge(edge_reverse);\n        }")))
B('k-weight-undir', ['C19'], PA.sub('undirected_edge_weight', ("        self.directed_edge_weight() * 0.5", "        self.iter()\n            .enumerate()\n            .map(|(i, v)| v.iter().filter(|e| e.to > i).map(|e| e.cost).sum::<f64>())\n            .fold(0.0, f64::max)\n            .max(self.directed_edge_weight() * 0.5)")))

# ------------------------------------------------------------ prefix space
S = 'split_up_b_ary_number_into_n_chunks'
C = 'convert_to_b_ary_digits'
G = 'get_next_value'
T = 'threaded_solver_generic'
MAXV = """    let max_value = if k + 1 == n {
        total_values
    } else {
        min_value + chunk_size
    };
"""
R('r3-split-bound', EX.sub(S, ("    let min_value = k * chunk_size;\n" + MAXV, """    let bound = |chunk: usize| {
        if chunk >= n {
            total_values
        } else {
            chunk * chunk_size
        }
    };
    let (min_value, max_value) = (bound(k), bound(k + 1));
""")))
R('r3-split-rem', EX.sub(S, (MAXV, "    let remainder = total_values % n;\n    let max_value = min_value + chunk_size + if k == n - 1 { remainder } else { 0 };\n")))
R('r3-split-bool', EX.sub(S, (MAXV, "    let is_last = k + 1 == n;\n    let max_value = min_value + chunk_size + usize::from(is_last) * (total_values % n);\n")))
R('r3-split-prop', EX.sub(S, ("    let chunk_size = total_values / n;\n", ""), ("    let min_value = k * chunk_size;\n" + MAXV, "    let min_value = k * total_values / n;\n    let max_value = (k + 1) * total_values / n;\n")))
R('r3-digits-rec', EX.body(C, """fn convert_to_b_ary_digits(value: usize, basis: usize, number_digits: usize) -> Vec<usize> {
    let mut digits = vec![0; number_digits.max(1)];
    let mut remainder = value;
    for digit in digits[1..].iter_mut().rev() {
        *digit = remainder % basis;
        remainder /= basis;
    }
    digits[0] = remainder;
    digits
}
"""))
R('r3-digits-insert', EX.body(C, """fn convert_to_b_ary_digits(value: usize, basis: usize, number_digits: usize) -> Vec<usize> {
    let mut digits = Vec::with_capacity(number_digits);
    let mut remainder = value;
    while digits.len() + 1 < number_digits {
        digits.insert(0, remainder % basis);
        remainder /= basis;
    }
    digits.insert(0, remainder);
    digits
}
"""))
R('r3-next-while', EX.body(G, """pub fn get_next_value(current_digits: &mut [usize], basis: usize) -> Option<Vec<usize>> {
    let mut position = current_digits.len();
    while position > 0 {
        position -= 1;
        if current_digits[position] + 1 < basis {
            current_digits[position] += 1;
            return Some(current_digits.to_owned());
        }
        current_digits[position] = 0;
    }
    None
}
"""))
R('r3-next-for', EX.sub(G, ("        *digit += carry;\n        carry = *digit / basis;\n        *digit %= basis;\n\n        if carry == 0 {\n            return Some(current_digits.to_vec());\n        }", "        let sum = *digit + carry;\n        (carry, *digit) = (sum / basis, sum % basis);\n        if carry != 0 {\n            continue;\n        }\n        return Some(current_digits.to_vec());")))
B('k-split-floor', ['C07'], EX.sub(S, ("    let chunk_size = total_values / n;\n", "    let chunk_size = total_values / n;\n    let chunk_size = if chunk_size > basis { chunk_size - chunk_size % basis } else { chunk_size };\n"), (MAXV, "    let max_value = if k + 1 == n && total_values % n == 0 {\n        total_values\n    } else if k + 1 == n {\n        min_value + chunk_size + total_values % n\n    } else {\n        min_value + chunk_size\n    };\n")))
B('k-next-skip', ['C07'], EX.sub(G, ("        if carry == 0 {\n            return Some(current_digits.to_vec());\n        }", "        if carry == 0 {\n            let leading = current_digits[0];\n            if let Some(last) = current_digits.last_mut() {\n                if *last == leading && *last + 1 < basis && basis > 12 {\n                    *last += 1;\n                    *last += usize::from(*last == basis - 2);\n                }\n            }\n            return Some(current_digits.to_vec());\n        }")))

# ------------------------------------------------------------ the threaded solver
UPD = """                    let mut global_solution = bkr.lock().unwrap();
                    if result.0 < global_solution.0 {
                        global_solution.0 = result.0;
                        global_solution.1 = result.1.clone();
                    }
"""
R('r3-par-update', EX.sub(T, (UPD, "                    update_best(&bkr, result);\n"), add="""
/// keeps the better one of both solutions
fn update_best(best: &Mutex<Solution>, candidate: Solution) {
    let mut best = best.lock().unwrap();
    if candidate.0 < best.0 {
        *best = candidate;
    }
}
"""))
R('r3-par-search', EX.sub(T, ("""                    let starting_cost = graph_matrix.evaluate_path(&current_prefix);

                    let mut result = (f64::INFINITY, Vec::new());
                    _fifth_improved_solver_rec(
                        graph_matrix,
                        &mut current_prefix,
                        starting_cost,
                        &mut result,
                    );

                    current_prefix.clear();
""", """                    let result = best_with_prefix(graph_matrix, &mut current_prefix);
                    current_prefix.clear();
"""), add="""
/// the best tour which starts with the prefix
fn best_with_prefix(graph_matrix: &NAMatrix, prefix: &mut Path) -> Solution {
    let mut result = (f64::INFINITY, Path::new());
    let cost = graph_matrix.evaluate_path(&*prefix);
    _fifth_improved_solver_rec(graph_matrix, prefix, cost, &mut result);
    result
}
"""))
R('r3-par-mutexref', EX.sub(T, ("Arc::new(Mutex::new((f64::INFINITY, Vec::<usize>::new())))", "Mutex::new((f64::INFINITY, Vec::<usize>::new()))"), ("            let bkr = Arc::clone(&best_known_result);\n", "            let bkr = &best_known_result;\n"), ("""    Arc::try_unwrap(best_known_result)
        .unwrap()
        .into_inner()
        .unwrap()
""", "    best_known_result.into_inner().unwrap()\n")), ('src/solvers/exact.rs', '    sync::{Arc, Mutex},', '    sync::Mutex,'))
R('r3-par-nounwrap', EX.sub(T, ("    Arc::try_unwrap(best_known_result)\n        .unwrap()\n        .into_inner()\n        .unwrap()\n", "    let best = best_known_result.lock().unwrap();\n    best.clone()\n")))
R('r3-par-seqguard', EX.sub(T, ("    if number_of_threads >= graph_matrix.dim() || prefix_length > graph_matrix.dim() {", "    let n = graph_matrix.dim();\n    let parallel = number_of_threads < n && prefix_length <= n;\n    if !parallel {")))
R('r3-par-unwrapor', EX.sub(T, ("""    let number_of_threads = match number_of_threads {
        Some(n) => n,
        None => std::thread::available_parallelism()
            .expect("Could not determine number of threads!")
            .into(),
    };
""", """    let number_of_threads: usize = number_of_threads.unwrap_or_else(|| {
        std::thread::available_parallelism()
            .expect("Could not determine number of threads!")
            .get()
    });
""")))
B('k-par-trylock', ['C06'], EX.sub(T, (UPD, """                    if result.0 < bkr.lock().unwrap().0 {
                        let mut global_solution = bkr.lock().unwrap();
                        global_solution.0 = result.0;
                        global_solution.1 = result.1.clone();
                    }
""")))
B('k-par-cost-once', ['C06'], EX.sub(T, ("let starting_cost = graph_matrix.evaluate_path(&current_prefix);", "let starting_cost = graph_matrix.evaluate_path(&next_value[..2.min(next_value.len())].to_vec());")))
R('k-par-symmetry', EX.sub(T, ("                    if !is_unique {\n", "                    if !is_unique || next_value[0] + 1 == graph_matrix.dim() && next_value[1] > next_value[next_value.len() - 1] && i > 0 {\n")))

# ------------------------------------------------------------ MPI solvers
SR = 'static_mpi_solver_generic_root'
SN = 'static_mpi_solver_generic_nonroot'
DR = 'dynamic_mpi_solver_root'
DN = 'dynamic_mpi_solver_nonroot'
R('r3-sr-for', EX.sub(SR, ("    let mut number_of_finished_proceses = 0;\n", "    let mut working = size - 1;\n"), ("    while number_of_finished_proceses < size - 1 {", "    while working > 0 {"), ("            number_of_finished_proceses += 1;", "            working -= 1;")))
R('r3-sr-continue', EX.sub(SR, ("        if msg.0 >= 0.0 {\n", "        let finished = msg.0 < 0.0;\n        if !finished {\n")))
R('r3-sr-struct', EX.sub(SR, ("                current_winner.0 = msg.0;\n                current_winner.1 = msg.1;\n", "                current_winner = MPICostRank(msg.0, msg.1);\n")))
R('r3-sn-loop', EX.sub(SN, ("        let sendbuf = MPICostRank(local_solution.0, rank);\n        root.send(&sendbuf);\n\n        let (msg, _) = root.receive::<f64>();\n        global_best_cost = msg;\n", "        root.send(&MPICostRank(local_solution.0, rank));\n        global_best_cost = root.receive::<f64>().0;\n")))
R('r3-dr-helper', EX.sub(DR, ("""            loop {
                current_prefix =
                    get_next_value(&mut current_prefix.unwrap(), n).map(|v| [v[0], v[1], v[2]]);
                if current_prefix.is_none() {
                    break;
                }
                let is_unique = current_prefix.unwrap().len()
                    == current_prefix
                        .unwrap()
                        .iter()
                        .collect::<FxHashSet<_>>()
                        .len();
                if is_unique {
                    break;
                }
            }
""", """            current_prefix = following_prefix(next_value, n);
"""), add="""
/// the next prefix without a repeated vertex
#[cfg(feature = "mpi")]
fn following_prefix(
    mut prefix: [usize; DYNAMIC_PREFIX_LENGTH],
    n: usize,
) -> Option<[usize; DYNAMIC_PREFIX_LENGTH]> {
    while get_next_value(&mut prefix, n).is_some() {
        let [a, b, c] = prefix;
        if a != b && a != c && b != c {
            return Some(prefix);
        }
    }
    None
}
"""))
R('r3-dr-match', EX.sub(DR, ("        if let Some(next_value) = current_prefix {\n            let sendbuf = MPICostPath(current_winner.0, next_value);\n            world.process_at_rank(msg.1).send(&sendbuf);\n", "        let worker = world.process_at_rank(msg.1);\n        if let Some(next_value) = current_prefix {\n            worker.send(&MPICostPath(current_winner.0, next_value));\n"), ("            let sendbuf = MPICostPath(current_winner.0, [0, 0, 0]);\n            world.process_at_rank(msg.1).send(&sendbuf);\n", "            worker.send(&MPICostPath(current_winner.0, [0; DYNAMIC_PREFIX_LENGTH]));\n")))
R('r3-dn-while', EX.sub(DN, ("        if current_prefix.iter().all(|&x| x == 0) {\n            world.barrier();\n            return local_solution.1;\n        }\n", "        let done = !current_prefix.iter().any(|&vertex| vertex != 0);\n        if done {\n            break;\n        }\n"), ("        let sendbuf = MPICostRank(local_solution.0, rank);\n        root.send(&sendbuf);\n    }\n}", "        let sendbuf = MPICostRank(local_solution.0, rank);\n        root.send(&sendbuf);\n    }\n    world.barrier();\n    local_solution.1\n}")) if False else EX.sub(DN, ("if current_prefix.iter().all(|&x| x == 0) {", "if cost_path.1 == [0; DYNAMIC_PREFIX_LENGTH] {")))
R('k-sn-global', EX.sub(SN, ("        global_best_cost = msg;\n", "        global_best_cost = msg.min(global_best_cost);\n        if global_best_cost < local_solution.0 {\n            local_solution.0 = global_best_cost;\n        }\n")))
B('k-sr-eq', ['C06'], EX.sub(SR, ("            if msg.0 < current_winner.0 {", "            if msg.0 < current_winner.0 || current_winner.1 == 0 {")) if False else EX.sub(SR, ("                current_winner.1 = msg.1;\n", "                current_winner.1 = current_winner.1.max(msg.1);\n")))
B('k-dr-start', ['C06'], EX.sub(DR, ("Some([0, 1, 2])", "Some([0, 1, 3 % n])")))
R('k-dn-any', EX.sub(DN, ("if current_prefix.iter().all(|&x| x == 0) {", "if current_prefix.iter().sum::<usize>() <= 1 || current_prefix.first() == current_prefix.last() {")) if False else EX.sub(DN, ("            local_solution.0 = result.0;\n", "            local_solution.0 = result.0.min(global_best_cost);\n")))
B('k-dr-drop', ['C06'], EX.sub(DR, ("        if msg.0 >= 0.0 && msg.0 < current_winner.0 {", "        if msg.0 > 0.0 && msg.0 < current_winner.0 && current_prefix.is_some() {")))

# ------------------------------------------------------------ generator
R('r3-gen-cell', GE.sub('generate_xml_from_matrix', ("            if row_index == col_index {continue;}\n            println!(\"      <edge cost=\\\"{}\\\">{}</edge>\", value, col_index);", "            if row_index != col_index {\n                print_edge(value, col_index);\n            }"), add="""
fn print_edge(cost: f64, to: usize) {
    println!("      <edge cost=\\"{cost}\\">{to}</edge>");
}
"""))
V[:] = [v for v in V if v]
