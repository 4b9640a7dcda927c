import sys; sys.path.insert(0, '/verif/tools/v')
from _h import mk
V1, R, B, fn, sub, rep, src = mk("src/solvers/approximate/christofides.rs")
V2, R2, B2, fn2, sub2, rep2, src2 = mk("src/solvers/approximate/matching.rs")
P = ['C18']; M = ['C13']
HAM = src[src.index("    let mut visited = vec![false; dim];"):src.index("    euler_cycle.push(\n        *euler_cycle")]
EUL = src[src.index("    while let Some((vertex_idx_in_cycle"):src.index("    euler_cycle\n}\n")]
FC = src[src.index("    let mut cycle = Vec::new();"):src.index("    cycle\n}\n")]
COST = src[src.index("    let sum_cost: f64"):src.index("    debug_assert!(is_ham")]
TREE = src[src.index("        SEQ_COMPUTATION => {\n            mst.iter()"):src.index("        PAR_COMPUTATION => {\n            // sadly")]
# ------------------------------------------------ Christofides, refactorings
R('c-retain-direct', rep(HAM, """    let mut visited = vec![false; dim];
    euler_cycle.retain(|&i| {
        let first = !visited[i];
        visited[i] = true;
        first
    });
"""))
R('c-ham-loop', rep(HAM, """    let mut visited = vec![false; dim];
    let mut tour = Vec::with_capacity(dim + 1);
    for &i in euler_cycle.iter() {
        if visited[i] {
            continue;
        }
        visited[i] = true;
        tour.push(i);
    }
    *euler_cycle = tour;
"""))
R('c-ham-set', rep(HAM, """    let mut seen = std::collections::HashSet::new();
    euler_cycle.retain(|&i| seen.insert(i));
    let _ = dim;
"""))
R('c-ham-filter', rep(HAM, """    let mut visited = vec![false; dim];
    let tour: Vec<usize> = euler_cycle
        .iter()
        .copied()
        .filter(|&i| !std::mem::replace(&mut visited[i], true))
        .collect();
    *euler_cycle = tour;
"""))
R('c-ham-close', rep("""    euler_cycle.push(
        *euler_cycle
            .first()
            .expect("the hamiltonian cycle should not be empty"),
    );
""", """    let start = euler_cycle[0];
    euler_cycle.push(start);
"""))
R('c-ham-contains', rep(HAM, """    let mut tour: Vec<usize> = Vec::with_capacity(dim + 1);
    for &i in euler_cycle.iter() {
        if !tour.contains(&i) {
            tour.push(i);
        }
    }
    *euler_cycle = tour;
"""))
R('c-cost-zip', rep(COST, """    let sum_cost: f64 = hamilton_cycle
        .iter()
        .zip(hamilton_cycle.iter().skip(1))
        .map(|(&a, &b)| graph_matr[(a, b)])
        .sum();
"""))
R('c-cost-loop', rep(COST, """    let mut sum_cost = 0.0;
    for i in 1..hamilton_cycle.len() {
        sum_cost += graph_matr[(hamilton_cycle[i - 1], hamilton_cycle[i])];
    }
"""))
R('c-cost-lib', rep(COST, """    let sum_cost = graph_matr.evaluate_path(&hamilton_cycle);
"""))
R('c-splice', rep("""        let tail = euler_cycle.split_off(vertex_idx_in_cycle + 1);
        euler_cycle.extend_from_slice(&cycle[1..]);
        euler_cycle.extend_from_slice(&tail);
""", """        euler_cycle.splice(vertex_idx_in_cycle..=vertex_idx_in_cycle, cycle);
"""))
R('c-splice2', rep("""        let tail = euler_cycle.split_off(vertex_idx_in_cycle + 1);
        euler_cycle.extend_from_slice(&cycle[1..]);
        euler_cycle.extend_from_slice(&tail);
""", """        let mut longer = euler_cycle[..vertex_idx_in_cycle].to_vec();
        longer.extend(cycle);
        longer.extend_from_slice(&euler_cycle[vertex_idx_in_cycle + 1..]);
        euler_cycle = longer;
"""))
R('c-euler-position', rep(EUL, """    while let Some(pos) = euler_cycle.iter().position(|&v| degree[v] > 0) {
        let cycle = find_cycle(euler_cycle[pos], &mut multigraph, &mut degree);
        let tail = euler_cycle.split_off(pos + 1);
        euler_cycle.extend_from_slice(&cycle[1..]);
        euler_cycle.extend_from_slice(&tail);
    }
"""))
R('c-euler-loop', rep(EUL, """    loop {
        let next = euler_cycle
            .iter()
            .enumerate()
            .find(|(_idx, &vertex)| degree[vertex] != 0);
        let (at, start) = match next {
            Some((at, &start)) => (at, start),
            None => break,
        };
        let cycle = find_cycle(start, &mut multigraph, &mut degree);
        let tail = euler_cycle.split_off(at + 1);
        euler_cycle.extend_from_slice(&cycle[1..]);
        euler_cycle.extend_from_slice(&tail);
    }
"""))
R('c-fc-degree', rep(FC, """    let mut cycle = vec![start_vertex];
    let mut vertex = start_vertex;
    while degree[vertex] > 0 {
        let idx = (0..multigraph.nrows())
            .find(|&j| multigraph[(vertex, j)].1 > 0)
            .unwrap();
        multigraph[(vertex, idx)].1 -= 1;
        multigraph[(idx, vertex)].1 -= 1;
        degree[vertex] -= 1;
        degree[idx] -= 1;
        cycle.push(idx);
        vertex = idx;
    }
"""))
R('c-fc-position', rep(FC, """    let mut cycle = vec![start_vertex];
    let mut vertex = start_vertex;
    while let Some(idx) = multigraph.row(vertex).iter().position(|e| e.1 > 0) {
        for (a, b) in [(vertex, idx), (idx, vertex)] {
            multigraph[(a, b)].1 -= 1;
            degree[a] -= 1;
        }
        cycle.push(idx);
        vertex = idx;
    }
"""))
R('c-fc-swap', rep("        multigraph[(idx, vertex)].1 -= 1;\n\n        debug_assert!(\n            degree[vertex]", "        let back = &mut multigraph[(idx, vertex)];\n        back.1 -= 1;\n\n        debug_assert!(\n            degree[vertex]"))
R('c-degree-rows', rep("""        .column_iter()
        .map(|col| col.into_iter().map(|&(_, times)| times).sum())
""", """        .row_iter()
        .map(|row| row.iter().map(|e| e.1).sum())
"""))
R('c-degree-loop', rep("""    let mut degree: Vec<usize> = multigraph
        .column_iter()
        .map(|col| col.into_iter().map(|&(_, times)| times).sum())
        .collect();
""", """    let mut degree = vec![0; dim];
    for i in 0..dim {
        for j in 0..dim {
            degree[i] += multigraph[(i, j)].1;
        }
    }
"""))
R('c-mult-loop', rep(TREE, """        SEQ_COMPUTATION => {
            for (i, vertex) in mst.iter().enumerate() {
                for edge in vertex.iter() {
                    multigraph[(i, edge.to)].1 = 1;
                }
            }
        }
"""))
R('c-mult-add', rep("= (cost, 1))\n                })\n        }\n        PAR", "= (cost, 1))\n                });\n        }\n        PAR"))
R('c-mult-for', rep("""        SEQ_COMPUTATION => matching.into_iter().for_each(|[i, j]| {
            multigraph[(i, j)].1 += 1;
            multigraph[(j, i)].1 += 1;
        }),
""", """        SEQ_COMPUTATION => {
            for edge in &matching {
                let (i, j) = (edge[0], edge[1]);
                multigraph[(j, i)].1 += 1;
                multigraph[(i, j)].1 += 1;
            }
        }
"""))
R('c-odd-filter', rep("""        .filter_map(|(i, vertex)| {
            if vertex.degree() % 2 == 1 {
                Some(i)
            } else {
                None
            }
        })
""", """        .filter(|(_, vertex)| vertex.degree() & 1 == 1)
        .map(|(i, _)| i)
"""))
R('c-odd-loop', rep(src[src.index("    let subgraph: Vec<_> = mst"):src.index("    // make the algorithm at most")], """    let mut subgraph = Vec::new();
    for i in 0..mst.num_vertices() {
        if mst[i].degree() % 2 != 0 {
            subgraph.push(i);
        }
    }
""")) if "fn num_vertices" in open('/repo/src/datastructures/mod.rs').read() else None
R('c-closure', rep("christofides_generic::<MODE>(graph, compute_approx_matching::<MODE>)", "christofides_generic::<MODE>(graph, |tree, graph| compute_approx_matching::<MODE>(tree, graph))"))
R('c-tries', rep("let tries = subgraph.len().pow(2);", "let tries = subgraph.len() * subgraph.len();"))
R('c-extract', rep("    let sum_cost: f64 = hamilton_cycle\n        .windows(2)\n        .map(|window| graph_matr[(window[0], window[1])])\n        .sum();\n", "    let sum_cost = tour_cost(&hamilton_cycle, graph_matr);\n"),
  rep("/// This function is being passed to", """fn tour_cost(tour: &[usize], graph: &NAMatrix) -> f64 {
    tour.windows(2).map(|w| graph[(w[0], w[1])]).sum()
}

/// This function is being passed to"""))
# ------------------------------------------------ Christofides, bugs
B('c-unclosed', P, rep(COST, """    let sum_cost: f64 = hamilton_cycle
        .windows(2)
        .take(hamilton_cycle.len() - 2)
        .map(|window| graph_matr[(window[0], window[1])])
        .sum();
"""))
B('c-skip-cost', P, rep("        .map(|window| graph_matr[(window[0], window[1])])\n        .sum();\n    debug", "        .filter(|window| window[0] != 0 || window[1] != 1)\n        .map(|window| graph_matr[(window[0], window[1])])\n        .sum();\n    debug"))
B('c-lastvisit', P, rep("        if !visited[i] {\n            visited[i] = true;", "        if !visited[i] {\n            visited[i] = i != 3;"))
B('c-close-last', P, rep("            .first()\n", "            .last()\n"))
B('c-splice-front', P, rep("split_off(vertex_idx_in_cycle + 1);", "split_off(vertex_idx_in_cycle.min(3) + 1);"))
B('c-splice-tail', P, rep("        euler_cycle.extend_from_slice(&tail);\n", "        if tail.len() != 2 {\n            euler_cycle.extend_from_slice(&tail);\n        }\n"))
B('c-euler-degree1', P, rep(".find(|(_idx, &vertex)| degree[vertex] != 0)", ".find(|(_idx, &vertex)| degree[vertex] > 2 || degree[vertex] == 1 || (degree[vertex] == 2 && vertex != 4))"))
B('c-euler-skipfirst', P, rep("        .iter()\n        .enumerate()\n        .find(|(_idx, &vertex)| degree[vertex] != 0)", "        .iter()\n        .enumerate()\n        .take(dim)\n        .find(|(_idx, &vertex)| degree[vertex] != 0)"))
B('c-fc-column', P, rep("""    while let Some((idx, neighbour)) = multigraph
        .row_mut(vertex)
""", """    while let Some((idx, neighbour)) = multigraph
        .column_mut(vertex)
"""))
B('c-fc-oneway', P, rep("        multigraph[(idx, vertex)].1 -= 1;\n", "        if idx != 0 || multigraph[(idx, vertex)].1 > 1 {\n            multigraph[(idx, vertex)].1 -= 1;\n        }\n"))
B('c-fc-all', P, rep("        neighbour.1 -= 1;\n", "        neighbour.1 = 0;\n"))
B('c-fc-degree', P, rep("        degree[idx] -= 1;\n", "        degree[idx] -= if degree[idx] > 2 { 2 } else { 1 };\n"))
B('c-fc-free', P, rep(".find(|(_idx, &mut (_cost, times))| times != 0)", ".find(|(_idx, &mut (cost, times))| times != 0 && cost > 0.0)"))
B('c-degree-cap', P, rep("map(|&(_, times)| times).sum()", "map(|&(_, times)| times.min(1)).sum()"))
B('c-mult-seq-set', P, rep("            multigraph[(i, j)].1 += 1;\n            multigraph[(j, i)].1 += 1;\n        }),", "            multigraph[(i, j)].1 = 1;\n            multigraph[(j, i)].1 = 1;\n        }),"))
B('c-mult-par-set', P, rep("(*multigraph_prt.add(j * dim + i)).1 += 1;", "(*multigraph_prt.add(j * dim + i)).1 = 1;"))
B('c-mult-par-index', P, rep("(*multigraph_prt.add(i * dim + j)).1 += 1;", "(*multigraph_prt.add(j * dim + i)).1 += 1;"))
B('c-mult-seq-zero', P, rep(".for_each(|&Edge { to, cost }| neighbours_vec[(0, to)] = (cost, 1))", ".for_each(|&Edge { to, cost }| neighbours_vec[(0, to)] = (cost, (cost > 0.0) as usize))"))
B('c-mult-par-zero', P, rep(".for_each(|&Edge { to, cost }| neighbours_vec[(to, 0)] = (cost, 1))", ".filter(|e| e.cost > 0.0).for_each(|&Edge { to, cost }| neighbours_vec[(to, 0)] = (cost, 1))"))
B('c-odd-one', P + M, rep("vertex.degree() % 2 == 1", "vertex.degree() == 1 || vertex.degree() == 3"))
B('c-odd-four', P + M, rep("vertex.degree() % 2 == 1", "vertex.degree() % 4 == 1"))
B('c-mode', P, rep("    let mst = prim::<MODE>(graph_matr);", "    let mst = crate::mst::prim_with_excluded_node::<MODE>(graph_matr, &[1]);"), optional=True) 
# ------------------------------------------------ matching, refactorings
OPT = src2[src2.index("    // safety: the pointers point to valid memory in the matching,\n    // and they point"):src2.index("/// parallelized version of")]
R2('m-opt-chain', rep2(OPT, """    if cost_2 < cost_0 && cost_2 < cost_1 {
        *edg01 = [v0, v3];
        *edg23 = [v1, v2];
    } else if cost_1 < cost_0 {
        *edg01 = [v0, v2];
        *edg23 = [v1, v3];
    }
}

"""))
R2('m-opt-le', rep2("    if cost_1 < cost_0 {", "    if cost_1 <= cost_0 {"))
R2('m-opt-min', rep2(OPT, """    let best = cost_0.min(cost_1).min(cost_2);
    if best == cost_0 {
        return;
    }
    if best == cost_1 {
        *edg01 = [v0, v2];
        *edg23 = [v1, v3];
    } else {
        *edg01 = [v0, v3];
        *edg23 = [v2, v1];
    }
}

"""))
R2('m-opt-swap', rep2(OPT, """    if cost_1 < cost_0 {
        if cost_2 < cost_1 {
            edg01[1] = v3;
            edg23[0] = v1;
            edg23[1] = v2;
        } else {
            edg01[1] = v2;
            edg23[0] = v1;
        }
    } else if cost_2 < cost_0 {
        edg01[1] = v3;
        edg23[1] = v1;
    }
}

"""))
SEQI = src2[src2.index("        for chunk in matching.chunks_exact_mut(2) {"):src2.index("// given the situation:\n//\n// 0 -- 1 (i.e. `edg01`)")]
R2('m-split', rep2(SEQI, """        for chunk in matching.chunks_exact_mut(2) {
            if let [edg01, edg23] = chunk {
                optimize_two_matching(edg01, edg23, graph);
            }
        }
    }
}

"""))
R2('m-split-at', rep2(SEQI, """        for chunk in matching.chunks_exact_mut(2) {
            let (a, b) = chunk.split_at_mut(1);
            optimize_two_matching(&mut a[0], &mut b[0], graph);
        }
    }
}

"""))
R2('m-index', rep2(SEQI, """        for i in 0..matching.len() / 2 {
            let (a, b) = matching.split_at_mut(2 * i + 1);
            optimize_two_matching(&mut a[2 * i], &mut b[0], graph);
        }
    }
}

"""))
R2('m-early', rep2("""    // cannot improve a matching with 0 or 1 edge
    if matching.len() <= 1 {
        return;
    }

""", ""))
R2('m-step', rep2("""    let mut matching: Vec<[usize; 2]> = vertices
        .chunks_exact(2)
        .map(|chunk| [chunk[0], chunk[1]])
        .collect();
""", """    let mut matching: Vec<[usize; 2]> = Vec::with_capacity(vertices.len() / 2);
    for i in 0..vertices.len() / 2 {
        matching.push([vertices[2 * i], vertices[2 * i + 1]]);
    }
"""))
R2('m-chunks', rep2("        .chunks_exact(2)\n        .map(|chunk| [chunk[0], chunk[1]])", "        .chunks(2)\n        .map(|chunk| [chunk[0], chunk[1]])"))
R2('m-halves', rep2("""    let mut matching: Vec<[usize; 2]> = vertices
        .chunks_exact(2)
        .map(|chunk| [chunk[0], chunk[1]])
        .collect();
""", """    let half = vertices.len() / 2;
    let mut matching: Vec<[usize; 2]> = (0..half)
        .map(|i| [vertices[i], vertices[i + half]])
        .collect();
"""))
R2('m-par-len', rep2("            .with_min_len(1000)\n", ""))
# ------------------------------------------------ matching, bugs
B2('m-case2', M, rep2("""            // case 2 is optimal
            *edg01 = [v0, v3];
            *edg23 = [v1, v2];
        } else {
            // case 1""", """            // case 2 is optimal
            *edg01 = [v0, v3];
            *edg23 = [v1, v3];
        } else {
            // case 1"""))
B2('m-cost2', M, rep2("    let cost_2 = cost_edg03 + cost_edg12;", "    let cost_2 = cost_edg03 + cost_edg12 - cost_edg01;"))
B2('m-worse', M, rep2("        if cost_2 < cost_0 {", "        if cost_2 < cost_1 {"))
B2('m-edge', M, rep2("    let cost_edg13 = graph[(v1, v3)];", "    let cost_edg13 = graph[(v0, v3)];"))
B2('m-overlap', M, rep2(SEQI, """        for i in 1..matching.len() {
            let (a, b) = matching.split_at_mut(i);
            optimize_two_matching(&mut a[i - 1], &mut b[0], graph);
        }
        for i in 0..matching.len() {
            if i % 7 == 6 {
                matching[i] = matching[i - 1];
            }
        }
    }
}

"""))
B2('m-shuffle-edge', M, rep2("        matching.shuffle(&mut rng);\n\n        // look at consecutive pairs of edges in the matching\n        // (ignore the last single edge in a matching of odd number of edges)\n        for", "        matching.shuffle(&mut rng);\n        if let Some(last) = matching.last_mut() {\n            last[1] = last[0].max(last[1]);\n        }\n\n        // look at consecutive pairs of edges in the matching\n        // (ignore the last single edge in a matching of odd number of edges)\n        for"))
B2('m-init', M, rep2("        .map(|chunk| [chunk[0], chunk[1]])", "        .map(|chunk| [chunk[0], chunk[1].max(chunk[0])])"))
B2('m-init-drop', M, rep2("        .chunks_exact(2)\n        .map(", "        .chunks_exact(2)\n        .take(vertices.len() / 2 - vertices.len() / 9)\n        .map("))
B2('m-par-off', M, rep2("""                let edg23 = unsafe { chunk.as_mut_ptr().offset(1).as_mut().unwrap() };

                optimize_two_matching(edg01, edg23, graph);
            });
""", """                let edg23 = unsafe { chunk.as_mut_ptr().offset(0).as_mut().unwrap() };

                optimize_two_matching(edg01, edg23, graph);
            });
"""))
B2('m-first-pairing', M, rep2("""        } // else base case is optimal
""", """        } else if v0 > v3 {
            *edg01 = [v3, v1];
        }
"""))
V = V1 + V2
