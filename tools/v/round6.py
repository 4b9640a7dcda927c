"""A sixth round: helpers taken out, other ways to say the same"""
V = []
EX, NN, MA, OT, CH, LIB = 'src/solvers/exact.rs', 'src/solvers/approximate/nearest_neighbour.rs', 'src/solvers/approximate/matching.rs', 'src/one_tree.rs', 'src/solvers/approximate/christofides.rs', 'src/lib.rs'


def R(id, *edits):
    V.append(dict(id=id, kind='refactor', props=[], edits=list(edits)))


def B(id, props, *edits):
    V.append(dict(id=id, kind='bug', props=props, edits=list(edits)))


BOUND = """        .map(|special_vertex| one_tree(graph, special_vertex).undirected_edge_weight())
        .max_by(|x, y| {
            x.partial_cmp(y)
                .expect("Tried to compare NaN value. Your data seems currupt.")
        })
        .expect("Cannot compute the 1-tree lower bound of the empty graph")
}

/// cumputes the 1-tree lower bound in parallel using rayon
"""
R('g6-ot-helper', (OT, "    (0..graph.dim())\n" + BOUND, """    fn weight(graph: &NAMatrix, special: usize) -> f64 {
        let tree = one_tree(graph, special);
        tree.undirected_edge_weight()
    }
    let mut best: Option<f64> = None;
    for special_vertex in 0..graph.dim() {
        let bound = weight(graph, special_vertex);
        best = match best {
            Some(b) if b > bound => Some(b),
            _ => Some(bound),
        };
    }
    best.expect("Cannot compute the 1-tree lower bound of the empty graph")
}

/// cumputes the 1-tree lower bound in parallel using rayon
"""))
B('g-ot-first', ['C16'], (OT, "    (0..graph.dim())\n" + BOUND, """    let mut best: Option<f64> = None;
    for special_vertex in 0..graph.dim() {
        let bound = one_tree(graph, special_vertex).undirected_edge_weight();
        best = match best {
            Some(b) if b > bound || special_vertex % 3 == 2 => Some(b),
            _ => Some(bound),
        };
    }
    best.expect("Cannot compute the 1-tree lower bound of the empty graph")
}

/// cumputes the 1-tree lower bound in parallel using rayon
"""))
R('g6-ot-pair', (OT, """        let edge = Edge { to, cost };
        if edge.cost < fst_min_edg.cost {
            // edge is the best edge
            snd_min_edg = fst_min_edg;
            fst_min_edg = edge;
        } else if edge.cost < snd_min_edg.cost {
            // edge is worse than fst_min_edg, but better than snd_min_edg
            snd_min_edg = edge;
        }
""", """        let mut edge = Edge { to, cost };
        if edge.cost < fst_min_edg.cost {
            std::mem::swap(&mut edge, &mut fst_min_edg);
        }
        if edge.to != special_vertex && edge.cost < snd_min_edg.cost || snd_min_edg.to == special_vertex && edge.to != special_vertex {
            snd_min_edg = edge;
        }
"""))
R('g6-thr-helper', (EX, """                    let is_unique =
                        next_value.len() == next_value.iter().collect::<FxHashSet<_>>().len();
                    if !is_unique {
                        continue;
                    }
""", """                    if !all_different(&next_value) {
                        continue;
                    }
"""), (EX, "fn threaded_solver_generic(", """fn all_different(values: &[usize]) -> bool {
    values.iter().collect::<FxHashSet<_>>().len() == values.len()
}

fn threaded_solver_generic("""))
R('g6-thr-extend', (EX, """                    for i in &next_value {
                        current_prefix.push(*i);
                    }
                    // calculate cost of current prefix
                    let starting_cost = graph_matrix.evaluate_path(&current_prefix);

                    // use prefix
                    let mut result = (f64::INFINITY, Vec::new());
""", """                    current_prefix.extend(next_value);
                    let starting_cost = graph_matrix.evaluate_path(&current_prefix);
                    let mut result = (f64::INFINITY, Vec::new());
"""))
R('g6-thr-merge', (EX, """                    let mut global_solution = bkr.lock().unwrap();
                    if result.0 < global_solution.0 {
                        global_solution.0 = result.0;
                        global_solution.1 = result.1.clone();
                    }
                    // implicitly""", """                    keep_better(&mut bkr.lock().unwrap(), result);
                    // implicitly"""), (EX, "fn threaded_solver_generic(", """fn keep_better(best: &mut Solution, candidate: Solution) {
    if candidate.0 < best.0 {
        *best = candidate;
    }
}

fn threaded_solver_generic("""))
B('g-thr-merge-stale', ['C06'], (EX, """                    let mut global_solution = bkr.lock().unwrap();
                    if result.0 < global_solution.0 {
                        global_solution.0 = result.0;
                        global_solution.1 = result.1.clone();
                    }
                    // implicitly""", """                    let known = bkr.lock().unwrap().0;
                    if result.0 < known {
                        *bkr.lock().unwrap() = result;
                    }
                    // implicitly"""))
R('g6-split-min', (EX, """    // the last chunk also gets the remainder
    let max_value = if k + 1 == n {
        total_values
    } else {
        min_value + chunk_size
    };
""", """    let is_last = n == k + 1;
    let length = if is_last { total_values - min_value } else { chunk_size };
    let max_value = min_value + length;
"""))
R('g6-digits-insert', (EX, """    for _ in 1..number_digits {
        digits.push(remainder % basis);
        remainder /= basis;
    }
    digits.push(remainder);

    digits.reverse();
    digits
""", """    for _ in 1..number_digits {
        digits.push(remainder % basis);
        remainder /= basis;
    }
    digits.push(remainder);
    digits.into_iter().rev().collect()
"""))
R('g6-sixth-hash', (EX, """        let hash = {
            let mut hasher = FxHasher::default();
            current_prefix.hash(&mut hasher);
            hasher.finish()
        };
        let lower_bound = mst_cache""", """        let hash = hash_of(current_prefix);
        let lower_bound = mst_cache"""), (EX, "fn _sixth_improved_solver_rec(", """fn hash_of(path: &Path) -> u64 {
    let mut hasher = FxHasher::default();
    path.hash(&mut hasher);
    hasher.finish()
}

fn _sixth_improved_solver_rec("""))
R('g6-sixth-with', (EX, """        let lower_bound = mst_cache.entry(hash).or_insert(
            mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix)
                .undirected_edge_weight(),
        );
        if current_cost + *lower_bound <= result.0 {""", """        let lower_bound = match mst_cache.get(&hash) {
            Some(&known) => known,
            None => {
                let tree = mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);
                let weight = tree.undirected_edge_weight();
                mst_cache.insert(hash, weight);
                weight
            }
        };
        if current_cost + lower_bound <= result.0 {"""))
B('g-sixth-len', ['C04'], (EX, """            current_prefix.hash(&mut hasher);
            hasher.finish()""", """            current_prefix.iter().sum::<usize>().hash(&mut hasher);
            current_prefix.len().hash(&mut hasher);
            hasher.finish()"""))
R('g6-nnrem-fold', (EX, """        let mut shortest_edge_cost = f64::INFINITY;

        // Otherwise, we can start finding its nearest neighbour
        for j in 0..n {
            // we do not connect to ourself
            // Also we just connect within, or to the end of the subtour: those are the only
            // vertices from which the remaining tour can enter vertex `i`
            if j == i || (subtour.contains(&j) && subtour.last() != Some(&j)) {
                continue;
            }

            let cost = graph_matrix.get(i, j);
            // if it is lower we take it
            if cost < shortest_edge_cost {
                shortest_edge_cost = cost;
            }
        }
""", """        let shortest_edge_cost = (0..n)
            .filter(|&j| j != i)
            .filter(|j| !subtour.contains(j) || subtour.last() == Some(j))
            .map(|j| graph_matrix.get(i, j))
            .fold(f64::INFINITY, |best, cost| if cost < best { cost } else { best });
"""))
R('g6-match-pick', (MA, """    if cost_1 < cost_0 {
        if cost_2 < cost_1 {
            // case 2 is optimal
            *edg01 = [v0, v3];
            *edg23 = [v1, v2];
        } else {
            // case 1 is optimal
            *edg01 = [v0, v2];
            *edg23 = [v1, v3];
        }
    } else {
        // cost_1 >= cost_0
        if cost_2 < cost_0 {
            // case 2 is optimal
            *edg01 = [v0, v3];
            *edg23 = [v1, v2];
        } // else base case is optimal
    }
""", """    let (first, second) = if cost_2 < cost_0 && cost_2 < cost_1 {
        ([v0, v3], [v1, v2])
    } else if cost_1 < cost_0 {
        ([v0, v2], [v1, v3])
    } else {
        return;
    };
    *edg01 = first;
    *edg23 = second;
"""))
B('g-match-pick', ['C13'], (MA, """            // case 1 is optimal
            *edg01 = [v0, v2];
            *edg23 = [v1, v3];
        }
    } else {""", """            // case 1 is optimal
            *edg01 = [v0, v2];
            *edg23 = if cost_1 == cost_2 { [v1, v2] } else { [v1, v3] };
        }
    } else {"""))
R('g6-nn-minby', (NN, """        let mut nearest_neighbour = None;
        let mut min_distance = f64::INFINITY;

        for node in 0..num_nodes {
            if !visited[node] && graph_matrix[(current_node, node)] < min_distance {
                min_distance = graph_matrix[(current_node, node)];
                nearest_neighbour = Some(node);
            }
        }

        if let Some(neighbour) = nearest_neighbour {
            current_node = neighbour;
            path.push(current_node);
            distance += min_distance;
            visited[current_node] = true;
        } else {
            // This should never happen; it should be catched by the while loop
            panic!()
        }
""", """        let Some(neighbour) = nearest_unvisited(graph_matrix, &visited, current_node) else {
            // This should never happen; it should be catched by the while loop
            panic!()
        };
        distance += graph_matrix[(current_node, neighbour)];
        visited[neighbour] = true;
        path.push(neighbour);
        current_node = neighbour;
"""), (NN, "pub fn single_nearest_neighbour(", """pub fn nearest_unvisited(graph: &NAMatrix, visited: &[bool], from: usize) -> Option<usize> {
    let mut nearest = None;
    let mut min_distance = f64::INFINITY;
    for (node, &seen) in visited.iter().enumerate() {
        let cost = graph[(from, node)];
        if !seen && cost < min_distance {
            min_distance = cost;
            nearest = Some(node);
        }
    }
    nearest
}

pub fn single_nearest_neighbour("""))
R('g6-ham-filter', (CH, """    let mut is_in_ham_cycle: Vec<(usize, bool)> = euler_cycle.iter().map(|&i| (i, false)).collect();

    for pair in is_in_ham_cycle.iter_mut() {
        let i = pair.0;
        let in_cycle = &mut pair.1;
        if !visited[i] {
            visited[i] = true;
            *in_cycle = true;
        }
    }

    let mut is_in_cycle_iter = is_in_ham_cycle.into_iter();
    euler_cycle.retain(|&_| {
        let (_, in_cycle) = is_in_cycle_iter.next().unwrap();
        in_cycle
    });
    euler_cycle.push(
        *euler_cycle
            .first()
            .expect("the hamiltonian cycle should not be empty"),
    );
""", """    let mut shortened = Vec::with_capacity(dim + 1);
    for &vertex in euler_cycle.iter() {
        if !std::mem::replace(&mut visited[vertex], true) {
            shortened.push(vertex);
        }
    }
    shortened.push(
        *shortened
            .first()
            .expect("the hamiltonian cycle should not be empty"),
    );
    *euler_cycle = shortened;
"""))
R('g6-cycle-helper', (CH, """        neighbour.1 -= 1;

""", """        take_one(neighbour);

"""), (CH, "        multigraph[(idx, vertex)].1 -= 1;\n", "        take_one(&mut multigraph[(idx, vertex)]);\n"), (CH, "#[inline]\nfn find_cycle(", """fn take_one(entry: &mut (f64, usize)) {
    entry.1 -= 1;
}

#[inline]
fn find_cycle("""))
R('g6-christo-cost', (CH, """    let sum_cost: f64 = hamilton_cycle
        .windows(2)
        .map(|window| graph_matr[(window[0], window[1])])
        .sum();
""", """    let mut sum_cost = 0.0;
    for i in 1..hamilton_cycle.len() {
        sum_cost += graph_matr[(hamilton_cycle[i - 1], hamilton_cycle[i])];
    }
"""))
