import sys; sys.path.insert(0, '/verif/tools/v')
from _h import mk
V, R, B, fn, sub, rep, src = mk("src/one_tree.rs")
P = ['C16']
SCAN = src[src.index("    for (to, &cost) in graph.row(special_vertex)"):src.index("    // with only one neighbour")]
# ------------------------------------------------ one-tree refactorings
R('o-get', rep(SCAN, """    for to in 0..graph.dim() {
        let cost = graph.get(special_vertex, to);
        if to != special_vertex {
            let edge = Edge { to, cost };
            if cost < snd_min_edg.cost {
                if cost < fst_min_edg.cost {
                    snd_min_edg = fst_min_edg;
                    fst_min_edg = edge;
                } else {
                    snd_min_edg = edge;
                }
            }
        }
    }

"""))
R('o-le', rep("if edge.cost < fst_min_edg.cost {", "if edge.cost <= fst_min_edg.cost {"))
R('o-swap', rep(SCAN, """    for (to, &cost) in graph.row(special_vertex).iter().enumerate() {
        if to == special_vertex {
            continue;
        }
        if cost < snd_min_edg.cost {
            snd_min_edg = Edge { to, cost };
            if snd_min_edg.cost < fst_min_edg.cost {
                std::mem::swap(&mut fst_min_edg, &mut snd_min_edg);
            }
        }
    }

"""))
R('o-filter', rep(SCAN, """    graph
        .row(special_vertex)
        .iter()
        .enumerate()
        .filter(|&(to, _)| to != special_vertex)
        .for_each(|(to, &cost)| {
            let edge = Edge { to, cost };
            if edge.cost < fst_min_edg.cost {
                snd_min_edg = std::mem::replace(&mut fst_min_edg, edge);
            } else if edge.cost < snd_min_edg.cost {
                snd_min_edg = edge;
            }
        });

"""))
R('o-tuple', rep("""    let mut fst_min_edg = Edge {
        to: special_vertex,
        cost: f64::INFINITY,
    };
    let mut snd_min_edg = Edge {
        to: special_vertex,
        cost: f64::INFINITY,
    };
""", """    let none = Edge {
        to: special_vertex,
        cost: f64::INFINITY,
    };
    let (mut fst_min_edg, mut snd_min_edg) = (none, none);
"""))
R('o-n2', rep("    if snd_min_edg.to == special_vertex {", "    if graph.dim() == 2 {"))
R('o-addorder', rep("""    mst.add_undirected_edge(special_vertex, fst_min_edg.to, fst_min_edg.cost);
    mst.add_undirected_edge(special_vertex, snd_min_edg.to, snd_min_edg.cost);
""", """    for edge in [snd_min_edg, fst_min_edg] {
        mst.add_undirected_edge(edge.to, special_vertex, edge.cost);
    }
"""))
R('o-helper', rep(SCAN, """    let (a, b) = two_cheapest(graph, special_vertex);
    fst_min_edg = a;
    snd_min_edg = b;

"""), rep("/// cumputes the 1-tree lower bound\n///\n/// `MODE`", """fn two_cheapest(graph: &NAMatrix, special_vertex: usize) -> (Edge, Edge) {
    let mut best = [Edge { to: special_vertex, cost: f64::INFINITY }; 2];
    for (to, &cost) in graph.row(special_vertex).iter().enumerate() {
        if to == special_vertex {
            continue;
        }
        if cost < best[0].cost {
            best[1] = best[0];
            best[0] = Edge { to, cost };
        } else if cost < best[1].cost {
            best[1] = Edge { to, cost };
        }
    }
    (best[0], best[1])
}

/// cumputes the 1-tree lower bound
///
/// `MODE`"""))
R('o-seq-loop', sub('one_tree_lower_bound_seq', ("""    (0..graph.dim())
        .map(|special_vertex| one_tree(graph, special_vertex).undirected_edge_weight())
        .max_by(|x, y| {
            x.partial_cmp(y)
                .expect("Tried to compare NaN value. Your data seems currupt.")
        })
        .expect("Cannot compute the 1-tree lower bound of the empty graph")
""", """    assert!(graph.dim() > 0, "Cannot compute the 1-tree lower bound of the empty graph");
    let mut best = f64::NEG_INFINITY;
    for v in 0..graph.dim() {
        let weight = one_tree(graph, v).undirected_edge_weight();
        if weight > best {
            best = weight;
        }
    }
    best
"""), start="fn "))
R('o-seq-fold', sub('one_tree_lower_bound_seq', ("""        .max_by(|x, y| {
            x.partial_cmp(y)
                .expect("Tried to compare NaN value. Your data seems currupt.")
        })
        .expect("Cannot compute the 1-tree lower bound of the empty graph")
""", """        .fold(f64::NEG_INFINITY, f64::max)
""")))
R('o-par-total', sub('one_tree_lower_bound_par', ("""x.partial_cmp(y)
                .expect("Tried to compare NaN value. Your data seems currupt.")""", """x.total_cmp(y)""")))
R('o-par-reduce', sub('one_tree_lower_bound_par', ("""        .max_by(|x, y| {
            x.partial_cmp(y)
                .expect("Tried to compare NaN value. Your data seems currupt.")
        })
        .expect("Cannot compute the 1-tree lower bound of the empty graph")
""", """        .reduce(|| f64::NEG_INFINITY, f64::max)
""")))
R('o-mpi-filter', rep("""(rank..graph.dim())
            .step_by(size)
            .map""", """(0..graph.dim())
            .filter(|vertex| vertex % size == rank)
            .map"""))
R('o-mpi-block', rep("""(rank..graph.dim())
            .step_by(size)
            .map""", """((rank * graph.dim()) / size..((rank + 1) * graph.dim()) / size)
            .map"""))
R('o-mpi-all', rep("""        if rank as mpi::topology::Rank == ROOT_RANK {
            root_process.reduce_into_root(
                &local_lower_bound,
                &mut global_lower_bound,
                SystemOperation::max(),
            );
        } else {
            root_process.reduce_into(&local_lower_bound, SystemOperation::max());
        }
""", """        world.all_reduce_into(
            &local_lower_bound,
            &mut global_lower_bound,
            SystemOperation::max(),
        );
"""), rep("        let root_process = world.process_at_rank(ROOT_RANK);\n", ""))
# ------------------------------------------------ one-tree bugs
B('ob-no-demote', P, rep("            snd_min_edg = fst_min_edg;\n            fst_min_edg = edge;", "            fst_min_edg = edge;"))
B('ob-no-second', P, rep("        } else if edge.cost < snd_min_edg.cost {", "        } else if edge.cost < snd_min_edg.cost && snd_min_edg.to == special_vertex {"))
B('ob-self', P, rep("        if to == special_vertex {\n            continue;", "        if to == special_vertex && cost == 0.0 {\n            continue;"))
B('ob-excl', P, rep("prim_with_excluded_node_single_threaded(graph, &[special_vertex])", "prim_with_excluded_node_single_threaded(graph, &[])"))
B('ob-cost', P, rep("mst.add_undirected_edge(special_vertex, snd_min_edg.to, snd_min_edg.cost);", "mst.add_undirected_edge(special_vertex, snd_min_edg.to, fst_min_edg.cost);"))
R('ob-twice', rep("    if snd_min_edg.to == special_vertex {", "    if snd_min_edg.to == special_vertex || snd_min_edg.cost == f64::INFINITY {"))
B('ob-once', P, rep("    mst.add_undirected_edge(special_vertex, snd_min_edg.to, snd_min_edg.cost);\n", "    if snd_min_edg.cost > fst_min_edg.cost {\n        mst.add_undirected_edge(special_vertex, snd_min_edg.to, snd_min_edg.cost);\n    }\n"))
B('ob-n2', P, rep("    if snd_min_edg.to == special_vertex {\n        snd_min_edg = fst_min_edg;\n    }\n", ""))
B('ob-min', P, sub('one_tree_lower_bound_par', (".max_by(", ".min_by(")))
B('ob-skip0', P, sub('one_tree_lower_bound_seq', ("(0..graph.dim())", "(1..graph.dim())")))
B('ob-directed', P, sub('one_tree_lower_bound_seq', (".undirected_edge_weight()", ".directed_edge_weight()")))
B('ob-mpi-op', P, rep("root_process.reduce_into(&local_lower_bound, SystemOperation::max());", "root_process.reduce_into(&local_lower_bound, SystemOperation::min());"))
B('ob-mpi-step', P, rep(".step_by(size)", ".step_by(size.max(2))"))
B('ob-mpi-block', P, rep("""(rank..graph.dim())
            .step_by(size)
            .map""", """(rank * (graph.dim() / size)..(rank + 1) * (graph.dim() / size))
            .map"""))
B('ob-mpi-local', P, rep("        global_lower_bound\n    }", "        local_lower_bound\n    }"))
B('ob-mpi-from1', P, rep("(rank..graph.dim())", "(rank + 1..graph.dim())"))
V1 = V

# ------------------------------------------------ nearest neighbour
V, R, B, fn, sub, rep, src = mk("src/solvers/approximate/nearest_neighbour.rs")
P = ['C17']
SCAN = src[src.index("        let mut nearest_neighbour = None;"):src.index("    // Add the loop closure")]
R('n-minby', rep(SCAN, """        let neighbour = (0..num_nodes)
            .filter(|&node| !visited[node])
            .min_by_key(|&node| OrderedFloat(graph_matrix[(current_node, node)]))
            .unwrap();
        distance += graph_matrix[(current_node, neighbour)];
        current_node = neighbour;
        path.push(current_node);
        visited[current_node] = true;
    }

"""))
R('n-contains', rep("if !visited[node] && graph_matrix", "if !path.contains(&node) && graph_matrix"))
R('n-for', rep("    while path.len() < num_nodes {", "    for _ in 1..num_nodes {"))
R('n-last', rep("distance += graph_matrix[(current_node, index)];\n", "distance += graph_matrix[(*path.last().unwrap(), path[0])];\n"))
R('n-get', rep("    distance += graph_matrix[(current_node, index)];\n", "    let closing = graph_matrix.get(index, current_node);\n    distance += closing;\n"))
R('n-idx-dist', rep("            current_node = neighbour;\n            path.push(current_node);\n            distance += min_distance;", "            distance += graph_matrix[(current_node, neighbour)];\n            current_node = neighbour;\n            path.push(neighbour);"))
R('n-le', rep("graph_matrix[(current_node, node)] < min_distance", "graph_matrix[(current_node, node)] <= min_distance"))
R('n-row', rep("        for node in 0..num_nodes {\n            if !visited[node] && graph_matrix[(current_node, node)] < min_distance {\n                min_distance = graph_matrix[(current_node, node)];", "        for (node, &cost) in graph_matrix.row(current_node).iter().enumerate() {\n            if !visited[node] && cost < min_distance {\n                min_distance = cost;"))
R('n-unvisited', rep("let mut visited = vec![false; num_nodes];", "let mut unvisited = vec![true; num_nodes];"), rep("    visited[current_node] = true;\n\n", "    unvisited[current_node] = false;\n\n"), rep("!visited[node] &&", "unvisited[node] &&"), rep("            visited[current_node] = true;\n        } else", "            unvisited[current_node] = false;\n        } else"))
R('n-evalcircle', rep("    distance += graph_matrix[(current_node, index)];\n    (distance, path)", "    (graph_matrix.evaluate_circle(&path), path)"), rep("            distance += min_distance;\n", ""), rep("    let mut distance = 0.0;\n", ""))
R('n-hashset', rep("let mut visited = vec![false; num_nodes];", "let mut visited = std::collections::HashSet::new();"), rep("    visited[current_node] = true;\n\n", "    visited.insert(current_node);\n\n"), rep("!visited[node] &&", "!visited.contains(&node) &&"), rep("            visited[current_node] = true;\n        } else", "            visited.insert(current_node);\n        } else"))
R('n-many-take', rep("SEQ_COMPUTATION => n_random_numbers(0, graph_matrix.dim(), n)\n            .into_iter()\n", "SEQ_COMPUTATION => n_random_numbers(0, graph_matrix.dim(), graph_matrix.dim())\n            .into_iter()\n            .take(n)\n"))
R('n-many-minby', rep("""            .into_par_iter()
            .map(|k| single_nearest_neighbour(graph_matrix, k))
            .min_by_key(|&(distance, _)| OrderedFloat(distance))""", """            .into_par_iter()
            .map(|k| single_nearest_neighbour(graph_matrix, k))
            .min_by(|a, b| a.0.total_cmp(&b.0))"""))
R('n-mpi-block', rep("    let mut end_node = start_node + chunk_size;\n\n    // fix if it isnt divisible\n    if (rank == size - 1) && (n % size != 0) {\n        end_node = n;\n    }\n", "    let end_node = if rank == size - 1 { n } else { start_node + chunk_size };\n"))
R('n-mpi-stride', rep("(start_node..end_node)\n", "(rank..n).step_by(size as usize)\n"), rep("    let chunk_size = n / size;\n    let start_node = chunk_size * rank;\n    let mut end_node = start_node + chunk_size;\n\n    // fix if it isnt divisible\n    if (rank == size - 1) && (n % size != 0) {\n        end_node = n;\n    }\n", ""))
R('n-mpi-op', rep("""            if y[0].0 > x[0].0 {
                y[0] = x[0];
            }
            // Else, we are equal, then we decide on the lower rank
            // We only do this so it is commutative, since we do an
            // ALL_REDUCE and want every note to agree which node
            // won.
            if x[0].0 == y[0].0 && y[0].1 > x[0].1 {
                y[0] = x[0];
            }""", """            let better = x[0].0 < y[0].0 || (x[0].0 == y[0].0 && x[0].1 < y[0].1);
            if better {
                y[0] = x[0];
            }"""))
# bugs
B('nb-no-close', P, rep("    distance += graph_matrix[(current_node, index)];\n", "    if num_nodes > 3 {\n        distance += graph_matrix[(current_node, index)];\n    }\n"))
B('nb-close0', P, rep("distance += graph_matrix[(current_node, index)];\n", "distance += graph_matrix[(current_node, 0)];\n"))
B('nb-visit', P, rep("            visited[current_node] = true;\n        } else", "            visited[path.len() - 1] = true;\n        } else"))
B('nb-cost', P, rep("            distance += min_distance;", "            distance += graph_matrix[(current_node, index)];"))
B('nb-nozero', P, rep("if !visited[node] && graph_matrix", "if !visited[node] && graph_matrix[(current_node, node)] > 0.0 && graph_matrix"))
B('nb-init', P, rep("let mut min_distance = f64::INFINITY;", "let mut min_distance = 1e9;"))
B('nb-from', P, rep("graph_matrix[(current_node, node)] < min_distance {\n                min_distance = graph_matrix[(current_node, node)];", "graph_matrix[(index, node)] < min_distance {\n                min_distance = graph_matrix[(index, node)];"))
B('nb-range', P, rep("for node in 0..num_nodes {", "for node in 1..num_nodes {"))
B('nb-many-dup', P, rep("    xs.shuffle(&mut rng);\n    xs.truncate(n);\n", "    xs.shuffle(&mut rng);\n    xs.truncate(n);\n    xs[0] = min;\n"))
B('nb-many-trunc', P, rep("xs.truncate(n);", "xs.truncate(n.max(2) - 1);"))
R('nb-many-range', rep("SEQ_COMPUTATION => n_random_numbers(0, graph_matrix.dim(), n)", "SEQ_COMPUTATION => n_random_numbers(1.min(graph_matrix.dim() - n), graph_matrix.dim(), n)"))
B('nb-many-max', P, rep("""            .into_par_iter()
            .map(|k| single_nearest_neighbour(graph_matrix, k))
            .min_by_key(""", """            .into_par_iter()
            .map(|k| single_nearest_neighbour(graph_matrix, k))
            .max_by_key("""))
B('nb-every', P, rep("n_nearest_neighbour::<MODE>(graph_matrix, graph_matrix.dim())", "n_nearest_neighbour::<MODE>(graph_matrix, graph_matrix.dim().min(64))"))
B('nb-mpi-rem', P, rep("if (rank == size - 1) && (n % size != 0) {", "if (rank == size - 1) && (n % size != 0) && rank > 1 {"))
B('nb-mpi-rem2', P, rep("    if (rank == size - 1) && (n % size != 0) {\n        end_node = n;\n    }\n", "    if (rank == size - 1) && (n % size != 0) {\n        end_node += 1;\n    }\n"))
B('nb-mpi-tie', P, rep("y[0].1 > x[0].1 {", "y[0].1 < x[0].1 && x[0].1 == 0 {"))
B('nb-mpi-op', P, rep("if y[0].0 > x[0].0 {", "if y[0].0 < x[0].0 {"))
B('nb-mpi-cost', P, rep("    (recvbuf.0, best_path)", "    (local_solution.0, best_path)"))
B('nb-mpi-root', P, rep("world.process_at_rank(recvbuf.1)", "world.process_at_rank(0)"))
B('nb-mpi-nobc', P, rep("    winner_process.broadcast_into(&mut best_path[..]);\n", "    if recvbuf.1 != rank {\n        winner_process.broadcast_into(&mut best_path[..]);\n    }\n"))
V = V1 + V
