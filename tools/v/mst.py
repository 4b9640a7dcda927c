import sys; sys.path.insert(0, '/verif/tools/v')
from _h import mk
X = "src/mst.rs"
V, R, B, fn, sub, rep, src = mk(X)
P = ['C15']
# ---------------- refactorings
R('m-for-start', rep("""        let mut idx = 0;
        while excluded_vertices.contains(&idx) {
            idx += 1;
        }
        if idx >= num_vertices {
            // all vertices are excluded --> empty MST
            return vec![].into();
        }
        idx""", """        match (0..num_vertices).find(|i| !excluded_vertices.contains(i)) {
            Some(i) => i,
            None => return vec![].into(),
        }"""))
R('m-rounds', rep("for _ in 0..=num_vertices {", "for _round in 0..num_vertices {"))
R('m-loop', rep("    for _ in 0..=num_vertices {\n", "    loop {\n"))
R('m-swap-push', rep("""            mst_adj_list[connection_to].push(next_edge);
            mst_adj_list[connection_from].push(reverse_edge);""", """            mst_adj_list[connection_from].push(reverse_edge);
            mst_adj_list[connection_to].push(next_edge);"""))
R('m-excl-first', rep("""    dist_from_mst.set_cost(
        start_index,
        Edge {
            to: start_index,
            cost: 0.,
        },
    );
    for &vertex in excluded_vertices {
        dist_from_mst.set_excluded_vertex(vertex)
    }
""", """    excluded_vertices
        .iter()
        .for_each(|&v| dist_from_mst.set_excluded_vertex(v));
    let first_edge = Edge { to: start_index, cost: 0.0 };
    dist_from_mst.set_cost(start_index, first_edge);
"""))
R('m-inf-ge', rep("if next_edge.cost == f64::INFINITY {", "if next_edge.cost >= f64::INFINITY {"))
R('m-isinf', rep("if next_edge.cost == f64::INFINITY {", "if next_edge.cost.is_infinite() {"))
R('m-early-continue', rep("""        if next_vertex != start_index {
            //let""", """        let is_start = next_vertex == start_index;
        if !is_start {
            //let"""))
R('m-upd-le', rep("if cost < self[to].0.cost {\n                self[to].0 = Edge { to: from, cost };", "if cost <= self[to].0.cost {\n                self[to].0 = Edge { to: from, cost };"))
R('m-upd-used', rep("if cost < self[to].0.cost {\n                self[to].0 = Edge { to: from, cost };", "if !self[to].1 && cost < self[to].0.cost {\n                self[to].0 = Edge { to: from, cost };"))
R('m-upd-zip', rep("""        for (to, &cost) in new_neighbours.iter().enumerate() {
            if cost < self[to].0.cost {
                self[to].0 = Edge { to: from, cost };
            }
        }""", """        for (entry, &cost) in self.iter_mut().zip(new_neighbours.iter()) {
            if cost < entry.0.cost {
                entry.0 = Edge { to: from, cost };
            }
        }"""))
R('m-upd-fields', rep("""                self[to].0 = Edge { to: from, cost };
            }
        }""", """                let entry = &mut self[to].0;
                entry.cost = cost;
                entry.to = from;
            }
        }"""))
R('m-upd-helper', rep("""            if cost < self[to].0.cost {
                self[to].0 = Edge { to: from, cost };
            }
        }""", """            relax(&mut self[to].0, from, cost);
        }"""), rep("#[derive(Debug, PartialEq)]\nstruct MultiThreadedVecWrapper", """fn relax(e: &mut Edge, from: usize, cost: f64) {
    if e.cost > cost {
        *e = Edge { to: from, cost };
    }
}

#[derive(Debug, PartialEq)]
struct MultiThreadedVecWrapper"""))
R('m-find-filter', sub('find_edge_with_minimal_cost(&self)', ("""            .filter_map(
                |(i, &(edge, used_in_mst))| if used_in_mst { None } else { Some((i, edge)) },
            )""", """            .filter(|(_, entry)| !entry.1)
            .map(|(i, entry)| (i, entry.0))"""), nth=2))
R('m-find-loop', sub('find_edge_with_minimal_cost(&self)', ("""        let base_case = Edge {
            to: self.len(),
            cost: f64::INFINITY,
        };
        let (next_vertex, reverse_edge) = self
            .iter()
            .enumerate()
            // skip all used vertices
            .filter_map(
                |(i, &(edge, used_in_mst))| if used_in_mst { None } else { Some((i, edge)) },
            )
            // find the next vertex via the corresponding edge with minimal cost
            .min_by(|&(_, edg_i), &(_, edg_j)| {
                OrderedFloat(edg_i.cost).cmp(&OrderedFloat(edg_j.cost))
            })
            // unwrap, or give back the base case
            .unwrap_or((base_case.to, base_case));
        (next_vertex, reverse_edge)
""", """        let mut best = (
            self.len(),
            Edge {
                to: self.len(),
                cost: f64::INFINITY,
            },
        );
        for (i, &(edge, used)) in self.iter().enumerate() {
            if !used && edge.cost < best.1.cost {
                best = (i, edge);
            }
        }
        best
"""), nth=2))
R('m-find-minkey', sub('find_edge_with_minimal_cost(&self)', ("""            .min_by(|&(_, edg_i), &(_, edg_j)| {
                OrderedFloat(edg_i.cost).cmp(&OrderedFloat(edg_j.cost))
            })""", """            .min_by_key(|&(_, edge)| OrderedFloat(edge.cost))"""), nth=2))
R('m-find-partial', sub('find_edge_with_minimal_cost(&self)', ("""                OrderedFloat(edg_i.cost).cmp(&OrderedFloat(edg_j.cost))
""", """                edg_i.cost.partial_cmp(&edg_j.cost).unwrap()
"""), nth=2))
R('m-mt-idx', rep("let cost = unsafe { *neighbour_prt.add(dim * to) };", "let cost = new_neighbours[to];"))
R('m-pq-used', rep("""            if self.used[to] {
                continue;
            }
            let &Reverse""", """            if to == from || self.used[to] {
                continue;
            }
            let &Reverse"""))
R('m-pq-iflet', rep("""            if cost < old_cost {
                self.cost_queue
                    .change_priority(&to, Reverse(OrderedFloat(cost)));
                self.connection_to_mst[to] = from;
            }""", """            if old_cost > cost {
                self.connection_to_mst[to] = from;
                self.cost_queue
                    .change_priority(&to, Reverse(OrderedFloat(cost)));
            }"""))
R('m-prim-none', rep("SEQ_COMPUTATION => prim_with_excluded_node_single_threaded(graph, &[]),", "SEQ_COMPUTATION => prim_with_excluded_node_priority_queue(graph, &[]),"))
# ---------------- bugs
B('mb-round-1', P, rep("for _ in 0..=num_vertices {", "for _ in 1..num_vertices {"))
B('mb-no-mark', P, rep("        dist_from_mst.mark_vertex_as_used(next_vertex);\n", "        if next_vertex != start_index {\n            dist_from_mst.mark_vertex_as_used(start_index);\n        }\n"))
B('mb-rev-cost', P, rep("""                to: next_vertex,
                cost: next_edge.cost,""", """                to: next_vertex,
                cost: graph[(next_vertex, start_index)],"""))
B('mb-excl-only-first', P, rep("for &vertex in excluded_vertices {", "for &vertex in excluded_vertices.iter().take(1) {"))
B('mb-start-0', P, rep("""        let mut idx = 0;
        while excluded_vertices.contains(&idx) {
            idx += 1;
        }""", """        let mut idx = 0;
        if excluded_vertices.contains(&idx) {
            idx += 1;
        }"""))
B('mb-find-max', P, sub('find_edge_with_minimal_cost(&self)', ("OrderedFloat(edg_i.cost).cmp(&OrderedFloat(edg_j.cost))", "OrderedFloat(edg_j.cost).cmp(&OrderedFloat(edg_i.cost))"), nth=3))
B('mb-mt-stride', P, rep("*neighbour_prt.add(dim * to)", "*neighbour_prt.add(to)"))
R("mb-mt-skip", rep("(0..dim).into_par_iter().for_each(|to| {", "(1..dim).into_par_iter().for_each(|to| {"))
B('mb-mt-used', P, rep("(*to_dist_ptr.add(to)).0 = Edge { to: from, cost };", "*to_dist_ptr.add(to) = (Edge { to: from, cost }, false);"))
B('mb-upd-to', P, rep("self[to].0 = Edge { to: from, cost };", "self[to].0 = Edge { to, cost };"))
B('mb-upd-acc', P, rep("""            if cost < self[to].0.cost {
                self[to].0 = Edge { to: from, cost };""", """            let cost = cost + 0.5 * self[from].0.cost;
            if cost < self[to].0.cost {
                self[to].0 = Edge { to: from, cost };"""))
B('mb-upd-first', P, rep("if cost < self[to].0.cost {\n                self[to].0 = Edge { to: from, cost };", "if self[to].0.cost == f64::INFINITY {\n                self[to].0 = Edge { to: from, cost };"))
B('mb-pq-le', P, rep("if cost < old_cost {", "if cost > old_cost {"))
B('mb-pq-conn', P, rep("""                    .change_priority(&to, Reverse(OrderedFloat(cost)));
                self.connection_to_mst[to] = from;
            }""", """                    .change_priority(&to, Reverse(OrderedFloat(cost)));
            }
            self.connection_to_mst[to] = from;"""))
R('mb-pq-excl', rep("""    fn set_excluded_vertex(&mut self, excluded_vertex: usize) {
        self.mark_vertex_as_used(excluded_vertex);
    }

    fn mark_vertex_as_used(&mut self, used_vertex: usize) {
        self.cost_queue.remove""", """    fn set_excluded_vertex(&mut self, excluded_vertex: usize) {
        self.used[excluded_vertex] = true;
    }

    fn mark_vertex_as_used(&mut self, used_vertex: usize) {
        self.cost_queue.remove"""))
B('mb-pop', P, rep("    mst_adj_list.pop();\n", "    mst_adj_list.remove(0);\n"))
B('mb-prim-excl', P, rep("PAR_COMPUTATION => prim_with_excluded_node_multi_threaded(graph, &[]),", "PAR_COMPUTATION => prim_with_excluded_node_multi_threaded(graph, &[0]),"))
B('mb-no-rev', P, rep("            mst_adj_list[connection_from].push(reverse_edge);", "            if connection_from != start_index {\n                mst_adj_list[connection_from].push(reverse_edge);\n            }"))
