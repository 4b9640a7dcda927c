import sys; sys.path.insert(0, '/verif/tools/v')
from _h import mk
V1, R1, B1, fn1, sub1, rep1, src1 = mk("src/solvers/approximate/nearest_neighbour.rs")
V2, R2, B2, fn2, sub2, rep2, src2 = mk("src/solvers/exact.rs")
V3, R3, B3, fn3, sub3, rep3, src3 = mk("src/preconditions.rs")
V4, R4, B4, fn4, sub4, rep4, src4 = mk("src/mst.rs")
V5, R5, B5, fn5, sub5, rep5, src5 = mk("src/solvers/approximate/christofides.rs")
V6, R6, B6, fn6, sub6, rep6, src6 = mk("src/datastructures/mod.rs")
V7, R7, B7, fn7, sub7, rep7, src7 = mk("src/one_tree.rs")
C = ['C11']
S = "single_nearest_neighbour("
LOOP = "for node in 0..num_nodes {"
VIS = "let mut visited = vec![false; num_nodes];"
IF = "if !visited[node] && "
# the free vertices in a hash set
hs = lambda order, hasher="std::collections::HashSet<usize>": (
    (VIS, VIS + "\n let mut free: %s = (0..num_nodes).filter(|&x| x != index).collect();" % hasher),
    (LOOP, order), ("visited[current_node] = true;\n        } else", "visited[current_node] = true;\n free.remove(&current_node);\n        } else"))
B1('nn-hashset', C, sub1(S, *hs("for &node in free.iter() {")))
B1('nn-hashset-into', C, sub1(S, *hs("for node in &free { let node = *node;")))
B1('nn-hashset-unsorted', C, sub1(S, *hs("let todo: Vec<usize> = free.iter().copied().collect();\n for node in todo {")))
R1('nn-hashset-sorted', sub1(S, *hs("let mut todo: Vec<usize> = free.iter().copied().collect(); todo.sort_unstable();\n for node in todo {")))
R1('nn-btreeset', sub1(S, *hs("for &node in free.iter() {", "std::collections::BTreeSet<usize>")))
R1('nn-hashset-contains', sub1(S, *hs(LOOP)[:1], hs(LOOP)[2], (IF, "if free.contains(&node) && ")))
R1('nn-hashset-len', sub1(S, *hs(LOOP)[:1], hs(LOOP)[2], ("while path.len() < num_nodes {", "while !free.is_empty() {")))
R1('nn-time-print', sub1(S, (VIS, VIS + "\n let begin = std::time::Instant::now();"), ("// Add the loop closure", "if begin.elapsed().as_secs() > 60 { eprintln!(\"slow: {:?}\", begin.elapsed()); }")))
R1('nn-env-log', sub1(S, (VIS, VIS + "\n if std::env::var(\"WALKY_LOG\").is_ok() { eprintln!(\"start {index}\"); }")))
B1('nn-random-tie', C, sub1(S, ("graph_matrix[(current_node, node)] < min_distance {", "(graph_matrix[(current_node, node)] < min_distance || graph_matrix[(current_node, node)] == min_distance && rand::random::<bool>()) {")))
B1('nn-address', C, sub1(S, (LOOP, "let turn = (path.as_ptr() as usize >> 4) % num_nodes;\n for node in (0..num_nodes).map(|x| (x + turn) % num_nodes) {")))
B1('nn-all-find-any', C, sub1("n_nearest_neighbour<", (".map(|k| single_nearest_neighbour(graph_matrix, k))\n            .min_by_key(|&(distance, _)| OrderedFloat(distance))\n            .unwrap(),\n        #[cfg", ".map(|k| single_nearest_neighbour(graph_matrix, k))\n            .find_any(|s| s.0.is_finite())\n            .unwrap(),\n        #[cfg")))
# exact solvers
i = src2.index("pub fn third_improved_solver")
B2('ex-time-limit', C, *(lambda f: [(f[0], f[1], f[2])])(sub2("third_improved_solver_rec", (") {", ", begin: std::time::Instant) {\n    if begin.elapsed().as_secs() >= 60 { return; }"))) ) if False else None
src_fn = fn2("naive_solver")
B2('ex-naive-time', C, (lambda s: ("src/solvers/exact.rs", s, s.replace("while let", "let begin = std::time::Instant::now();\n    while let", 1).replace("{", "{", 1)))(src_fn)) if False else None
B2('ex-static-best', C, rep2("let mut mst_cache: FxHashMap<u64, f64> = FxHashMap::default();", "static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n let calls = CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n let mut mst_cache: FxHashMap<u64, f64> = FxHashMap::default();\n if calls > 1000 { return (0.0, vec![]); }"))
R2('ex-static-count', rep2("let mut mst_cache: FxHashMap<u64, f64> = FxHashMap::default();", "static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n let calls = CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n if calls == 1000000 { eprintln!(\"many calls\"); }\n let mut mst_cache: FxHashMap<u64, f64> = FxHashMap::default();"))
R2('ex-cache-std', ("src/solvers/exact.rs", "let mut mst_cache: FxHashMap<u64, f64> = FxHashMap::default();", "let mut mst_cache: std::collections::HashMap<u64, f64> = std::collections::HashMap::new();"), ("src/solvers/exact.rs", "mst_cache: &mut FxHashMap<u64, f64>,", "mst_cache: &mut std::collections::HashMap<u64, f64>,"))
B2('ex-cache-hasher', C, rep2("let mut hasher = FxHasher::default();", "let mut hasher = std::hash::BuildHasher::build_hasher(&std::collections::hash_map::RandomState::new());"))
# conditions
R3('pc-hashset-any', (lambda: rep3(".collect::<HashSet<_>>()", ".collect::<std::collections::BTreeSet<_>>()"))())
# spanning tree
R4('mst-find-any-exists', sub4("prim_with_excluded_node<", (") -> Graph {", ") -> Graph {\n    if graph.0.as_slice().par_iter().find_any(|x| x.is_nan()).is_some() { eprintln!(\"NaN\"); }"))) if "fn prim_with_excluded_node<" in src4 else None
# eulerian circuit
B5('ch-start', C, rep5("let mut euler_cycle = Vec::with_capacity(2 * dim + 1);", "let mut euler_cycle = Vec::with_capacity(2 * dim + 1);\n    let turn = rand::random::<usize>() % dim; let _ = turn;")) if False else None
# bound
i7 = src7.index("fn one_tree_lower_bound_par"); print(end='')
B7('ot-find-any', C, sub7("one_tree_lower_bound_par(", (".max()", ".find_any(|_| true)"))) if ".max()" in fn7("one_tree_lower_bound_par(") else None
B7('ot-sample', C, sub7("one_tree_lower_bound_seq(", ("(0..", "(rand::random::<usize>() % 2.."))) if "(0.." in fn7("one_tree_lower_bound_seq(") else None
# measures
B6('dm-hash-sum', C, sub6("evaluate_circle(", ("{", "{\n        let order: std::collections::HashSet<usize> = path.iter().copied().collect();\n        if order.len() > 1000 { return order.iter().map(|&i| self.get(i, 0)).sum(); }\n"))) if False else None
V = [v for x in (V1, V2, V3, V4, V5, V6, V7) for v in x]
V.clear() if False else None
W = []
# time limits
T0 = "mst_cache: &mut FxHashMap<u64, f64>,"
B2('ex-limit', C, ("src/solvers/exact.rs", fn2("first_improved_solver_rec") if "fn first_improved_solver_rec" in src2 else "", "")) if False else None
B7('ot-par-sum', C, sub7("one_tree_lower_bound_par(", (".max_by(|x, y| {\n            x.partial_cmp(y)\n                .expect(\"Tried to compare NaN value. Your data seems currupt.\")\n        })\n        .expect(\"Cannot compute the 1-tree lower bound of the empty graph\")", ".sum::<f64>()")))
B7('ot-par-any', C, sub7("one_tree_lower_bound_par(", (".max_by(|x, y| {\n            x.partial_cmp(y)\n                .expect(\"Tried to compare NaN value. Your data seems currupt.\")\n        })", ".find_any(|x| x.is_finite())")))
R7('ot-par-reduce', sub7("one_tree_lower_bound_par(", (".max_by(|x, y| {\n            x.partial_cmp(y)\n                .expect(\"Tried to compare NaN value. Your data seems currupt.\")\n        })", ".reduce_with(|x, y| if x < y { y } else { x })")))
MB = ".max_by(|x, y| {\n            x.partial_cmp(y)\n                .expect(\"Tried to compare NaN value. Your data seems currupt.\")\n        })"
B7('ot-time', C, sub7("one_tree_lower_bound_seq(", ("(0..graph.dim())", "let begin = std::time::Instant::now();\n    (0..graph.dim())"), (".map(|special_vertex|", ".take_while(|_| begin.elapsed().as_secs() < 60)\n        .map(|special_vertex|")))
B7('ot-threads', C, sub7("one_tree_lower_bound_par(", ("(0..graph.dim())", "(0..graph.dim().min(64 * rayon::current_num_threads()))")))
B7('ot-mutex-first', C, sub7("one_tree_lower_bound_par(", ("    (0..graph.dim())", "    let first = std::sync::Mutex::new(None);\n    (0..graph.dim())\n        .into_par_iter()\n        .for_each(|v| { first.lock().unwrap().get_or_insert(one_tree(graph, v).undirected_edge_weight()); });\n    let found = first.into_inner().unwrap();\n    if let Some(x) = found { if x < 0.0 { return x; } }\n    (0..graph.dim())")))
B5('ch-euler-start', C, sub5("eulerian_cycle_from_multigraph(", ("let mut euler_cycle", "let turn = rand::random::<usize>() % dim;\n    let mut euler_cycle"), (".collect();", ".collect();\n    if degree[turn] > 4 { degree[turn] += 0 * turn; euler_cycle.reserve(turn); }")))
V = [v for x in (V1, V2, V3, V4, V5, V6, V7) for v in x]
