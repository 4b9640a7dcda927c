import sys; sys.path.insert(0, '/verif/tools/v')
from _h import mk
V, R, B, fn, sub, rep, src = mk("src/datastructures/mod.rs")
AM = []
# ---------------------------------------------------------------- mod.rs
R('d-path-windows', sub('evaluate_path', ("""        let n = path.len();
        if n <= 1 {
            return 0.0;
        }
        let mut acc = 0.0;
        for from in 0..(n - 1) {
            let to = from + 1;
            let cost = self.get(path[from], path[to]);
            acc += cost;
        }
        acc
""", """        path.windows(2).map(|w| self.get(w[0], w[1])).sum()
""")))
R('d-path-iter', sub('evaluate_path', ("""        for from in 0..(n - 1) {
            let to = from + 1;
            let cost = self.get(path[from], path[to]);
            acc += cost;
        }
""", """        for (&a, &b) in path.iter().zip(path.iter().skip(1)) {
            acc += self.get(a, b);
        }
""")))
R('d-path-while', sub('evaluate_path', ("""        for from in 0..(n - 1) {
            let to = from + 1;
            let cost = self.get(path[from], path[to]);
            acc += cost;
        }
""", """        let mut to = 1;
        while to < n {
            acc = acc + self.get(path[to - 1], path[to]);
            to += 1;
        }
""")))
R('d-path-fold', sub('evaluate_path', ("""        for from in 0..(n - 1) {
            let to = from + 1;
            let cost = self.get(path[from], path[to]);
            acc += cost;
        }
        acc
""", """        acc = (1..n).fold(0.0, |s, i| s + self.get(path[i - 1], path[i]));
        acc
""")))
R('d-circle-idx', sub('evaluate_circle', ("""self.get(*path.last().unwrap(), *path.first().unwrap())""", "self.get(path[path.len() - 1], path[0])")))
R('d-circle-mod', sub('evaluate_circle', ("""        let last_edge = self.get(*path.last().unwrap(), *path.first().unwrap());
        let path_cost = self.evaluate_path(path);
        path_cost + last_edge
""", """        let n = path.len();
        (0..n).map(|i| self.get(path[i], path[(i + 1) % n])).sum()
""")))
R('d-metric-all', sub('is_metric', ("""        for i in 0..dim {
            for j in i..dim {
                let direct_cost = self.get(i, j);
                for k in 0..dim {
                    let indirect_cost = self.get(i, k) + self.get(k, j);
                    // sometimes due to rounding errors a metric graph would be rejected.
                    // By adding 1e-10 to indirect_costs,
                    // small rounding errors are being ignored
                    if direct_cost > indirect_cost + 1e-10 {
                        return false;
                    }
                }
            }
        }
        true
""", """        (0..dim).all(|i| {
            (i..dim).all(|j| (0..dim).all(|k| self.get(i, j) <= self.get(i, k) + self.get(k, j) + 1e-10))
        })
""")))
R('d-metric-strictupper', sub('is_metric', ("for j in i..dim", "for j in (i + 1)..dim")))
R('d-metric-flag', sub('is_metric', ("        for i in 0..dim", "        let mut metric = true;\n        for i in 0..dim"), ("return false;", "metric = false;"), ("        true\n", "        metric\n")))
B('d-path-skiplast', ['C19'], sub('evaluate_path', ("for from in 0..(n - 1)", "for from in 0..(n - 2)")))
B('d-path-two', ['C19'], sub('evaluate_path', ("if n <= 1 {", "if n <= 2 {")))
B('d-path-start', ['C19'], sub('evaluate_path', ("self.get(path[from], path[to])", "self.get(path[from], path[to % n.min(6)])")))
B('d-circle-noclose', ['C19'], sub('evaluate_circle', ("        path_cost + last_edge\n", "        if path.len() > 2 { path_cost + last_edge } else { path_cost }\n")))
B('d-circle-rev', ['C19'], sub('evaluate_circle', ("self.get(*path.last().unwrap(), *path.first().unwrap())", "self.get(*path.last().unwrap(), path[1])")))
B('d-metric-k', ['C19'], sub('is_metric', ("for k in 0..dim", "for k in i..dim")))
B('d-metric-k2', ['C19'], sub('is_metric', ("for k in 0..dim", "for k in (j + 1)..dim")))
B('d-metric-slack', ['C19'], sub('is_metric', ("1e-10 {", "1e-1 {")))
B('d-metric-lt', ['C19'], sub('is_metric', ("direct_cost > indirect_cost + 1e-10", "direct_cost >= indirect_cost && indirect_cost > 0.0")))
B('d-metric-i', ['C19'], sub('is_metric', ("for i in 0..dim {", "for i in 1..dim {")))
AM += V
# ---------------------------------------------------------------- parser.rs
V, R, B, fn, sub, rep, src = mk("src/parser.rs")
R('d-weight-flat', sub('directed_edge_weight', ("""        self.iter()
            .map(|vertex| vertex.iter().map(|edge| edge.cost).sum::<f64>())
            .sum()
""", """        self.iter()
            .flat_map(|vertex| vertex.iter())
            .map(|edge| edge.cost)
            .sum()
""")))
R('d-weight-loop', sub('directed_edge_weight', ("""        self.iter()
            .map(|vertex| vertex.iter().map(|edge| edge.cost).sum::<f64>())
            .sum()
""", """        let mut sum = 0.0;
        for vertex in &self.vertices {
            for edge in &vertex.edges {
                sum += edge.cost;
            }
        }
        sum
""")))
R('d-und-div', sub('undirected_edge_weight', ("self.directed_edge_weight() * 0.5", "self.directed_edge_weight() / 2.")))
R('d-addedge-order', sub('add_undirected_edge', ("""        self.vertices[from].add_edge(edge);
        self.vertices[to].add_edge(edge_reverse);
""", """        self.vertices[to].edges.push(edge_reverse);
        self.vertices[from].edges.push(edge);
""")))
R('d-parse-match', sub('parse_from_xml', ("""        let tspi: Self = from_str(xml)?;
        if !tspi.do_conditions_hold() {
            return Err(quick_xml::DeError::Custom(
                "the graph is not a valid TSP instance".to_string(),
            ));
        }
        Ok(tspi)
""", """        match from_str::<Self>(xml) {
            Ok(tspi) if tspi.do_conditions_hold() => Ok(tspi),
            Ok(_) => Err(quick_xml::DeError::Custom("not a valid instance".into())),
            Err(e) => Err(e),
        }
""")))
R('d-cond-order', sub('do_conditions_hold', ("is_fully_connected(g) && (!is_multi_edge(g)) && is_undirected(g)", "!is_multi_edge(g) && is_undirected(g) && is_fully_connected(g)")))
R('d-cond-if', sub('do_conditions_hold', ("        is_fully_connected(g) && (!is_multi_edge(g)) && is_undirected(g)\n", "        if is_multi_edge(g) || !is_fully_connected(g) {\n            return false;\n        }\n        is_undirected(g)\n")))
R('d-parse-helper', sub('parse_from_xml', ("""        if !tspi.do_conditions_hold() {
            return Err(quick_xml::DeError::Custom(
                "the graph is not a valid TSP instance".to_string(),
            ));
        }
        Ok(tspi)
""", """        tspi.checked()
"""), ), ("src/parser.rs", "    /// Check if the defined conditions on the graph apply.\n", """    fn checked(self) -> Result<Self, quick_xml::DeError> {
        if self.do_conditions_hold() {
            Ok(self)
        } else {
            Err(quick_xml::DeError::Custom("invalid".to_string()))
        }
    }

    /// Check if the defined conditions on the graph apply.
"""))
B('d-parse-none', ['C08'], sub('parse_from_xml', ("if !tspi.do_conditions_hold() {", "if !tspi.do_conditions_hold() && tspi.graph.num_vertices() < 100 {")))
B('d-parse-some', ['C08'], sub('parse_from_xml', ("if !tspi.do_conditions_hold() {", "if !is_fully_connected(&tspi.graph) || is_multi_edge(&tspi.graph) {")))
B('d-parse-panic', ['C08'], sub('parse_from_xml', ("""            return Err(quick_xml::DeError::Custom(
                "the graph is not a valid TSP instance".to_string(),
            ));
""", """            panic!("invalid");
""")))
B('d-cond-or', ['C08'], sub('do_conditions_hold', ("&& (!is_multi_edge(g)) && is_undirected(g)", "&& (!is_multi_edge(g) || is_undirected(g))")))
B('d-cond-first', ['C08'], sub('do_conditions_hold', ("is_fully_connected(g) && ", "")))
B('d-weight-half', ['C19'], sub('undirected_edge_weight', ("* 0.5", "* 0.25")))
B('d-weight-skip', ['C19'], sub('directed_edge_weight', ("self.iter()\n            .map", "self.iter()\n            .skip(1)\n            .map")))
B('d-addedge-one', ['C19'], sub('add_undirected_edge', ("        self.vertices[to].add_edge(edge_reverse);", "        if to > from { self.vertices[to].add_edge(edge_reverse); }")))
B('d-addedge-cost', ['C19'], sub('add_undirected_edge', ("let edge_reverse = Edge { to: from, cost }", "let edge_reverse = Edge { to: from, cost: cost.abs() }")))
B('d-degree', ['C19'], sub('vertex_degree', ("        self.vertices[vertex].degree()\n", "        self.vertices[vertex].edges.iter().filter(|e| e.to != 0).count()\n")))
AM += V
# ---------------------------------------------------------------- solvers/mod.rs
V, R, B, fn, sub, rep, src = mk("src/solvers/mod.rs")
R('d-ham-bool', sub('is_hamiltonian_cycle', ("""    let mut seen_vertex_twice = false;
    used.into_iter().all(|num_occourances| {
        if num_occourances == 2 {
            if seen_vertex_twice {
                false
            } else {
                seen_vertex_twice = true;
                true
            }
        } else {
            num_occourances == 1
        }
    })
""", """    let mut twice = 0;
    for c in used {
        match c {
            1 => {}
            2 => twice += 1,
            _ => return false,
        }
    }
    twice <= 1
""")))
R('d-ham-len', sub('is_hamiltonian_cycle', ("""    let mut seen_vertex_twice = false;
    used.into_iter().all(|num_occourances| {
        if num_occourances == 2 {
            if seen_vertex_twice {
                false
            } else {
                seen_vertex_twice = true;
                true
            }
        } else {
            num_occourances == 1
        }
    })
""", """    path.len() <= num_vertices + 1 && used.into_iter().all(|c| c >= 1)
""")))
B('d-ham-len2', ['C19'], sub('is_hamiltonian_cycle', ("""    let mut seen_vertex_twice = false;
    used.into_iter().all(|num_occourances| {
        if num_occourances == 2 {
            if seen_vertex_twice {
                false
            } else {
                seen_vertex_twice = true;
                true
            }
        } else {
            num_occourances == 1
        }
    })
""", """    path.len() == num_vertices + 1 && used.into_iter().all(|c| c <= 2)
""")))
B('d-ham-twice', ['C19'], sub('is_hamiltonian_cycle', ("            if seen_vertex_twice {\n                false", "            if seen_vertex_twice {\n                true")))
B('d-ham-zero', ['C19'], sub('is_hamiltonian_cycle', ("num_occourances == 1", "num_occourances <= 1")))
B('d-ham-oob', ['C19'], sub('is_hamiltonian_cycle', ("if u >= num_vertices", "if u > num_vertices")))
AM += V
# ---------------------------------------------------------------- preconditions.rs
V, R, B, fn, sub, rep, src = mk("src/preconditions.rs")
R('d-fully-loop', sub('is_fully_connected', ("""    g.iter()
        .enumerate()
        .all(|(i, v)| v.degree() == n - 1 && v.iter().all(|e| e.to != i))
""", """    for (i, v) in g.iter().enumerate() {
        if v.degree() + 1 != n || v.iter().any(|e| e.to == i) {
            return false;
        }
    }
    true
""")))
R('d-fully-idx', sub('is_fully_connected', ("""    g.iter()
        .enumerate()
        .all(|(i, v)| v.degree() == n - 1 && v.iter().all(|e| e.to != i))
""", """    (0..n).all(|i| !g[i].iter().any(|e| e.to == i) && g.vertex_degree(i) == n - 1)
""")))
R('d-multi-sort', sub('is_multi_edge', ("""        let unique_destinations: Vec<usize> = destinations
            .clone()
            .into_iter()
            .collect::<HashSet<_>>()
            .into_iter()
            .collect();
        destinations.len() != unique_destinations.len()
""", """        let unique: HashSet<usize> = destinations.iter().copied().collect();
        unique.len() < destinations.len()
""")))
R('d-multi-insert', sub('is_multi_edge', ("""        let destinations: Vec<usize> = vertex.edges.iter().map(|edge| edge.to).collect();
        let unique_destinations: Vec<usize> = destinations
            .clone()
            .into_iter()
            .collect::<HashSet<_>>()
            .into_iter()
            .collect();
        destinations.len() != unique_destinations.len()
""", """        let mut seen = HashSet::new();
        !vertex.edges.iter().all(|edge| seen.insert(edge.to))
""")))
R('d-und-all', sub('is_undirected', ("""    for i in 0..graph.num_vertices() {
        let v1 = &graph.vertices[i];
        for v1e in v1.iter() {
            // Find the reverse edge link of the vertex connected to the edge
            let reverse_edge = graph
                .vertices
                .get(v1e.to)
                .and_then(|v2| v2.iter().find(|v2e| v2e.to == i));
            match reverse_edge {
                Some(v2e) if v2e.cost == v1e.cost => {}
                // If missing or not same weight => directed graph
                _ => return false,
            }
        }
    }
    true
""", """    graph.iter().enumerate().all(|(i, v1)| {
        v1.iter().all(|v1e| {
            v1e.to < graph.num_vertices()
                && graph[v1e.to].iter().any(|v2e| v2e.to == i && v2e.cost == v1e.cost)
        })
    })
""")))
R('d-und-continue', sub('is_undirected', ("""            match reverse_edge {
                Some(v2e) if v2e.cost == v1e.cost => {}
                // If missing or not same weight => directed graph
                _ => return false,
            }
""", """            if let Some(v2e) = reverse_edge {
                if v2e.cost == v1e.cost {
                    continue;
                }
            }
            return false;
""")))
B('d-fully-noloop', ['C08'], sub('is_fully_connected', (" && v.iter().all(|e| e.to != i)", "")))
B('d-fully-ge', ['C08'], sub('is_fully_connected', ("v.degree() == n - 1", "v.degree() <= n - 1")))
B('d-fully-skip', ['C08'], sub('is_fully_connected', (".enumerate()\n        .all", ".enumerate()\n        .skip(1)\n        .all")))
B('d-multi-all', ['C08'], sub('is_multi_edge', ("graph.vertices.iter().any(", "graph.vertices.iter().take(3).any(")))
B('d-und-missing', ['C08'], sub('is_undirected', ("                _ => return false,", "                None => {}\n                _ => return false,")))
R('d-und-abs', sub('is_undirected', ("Some(v2e) if v2e.cost == v1e.cost", "Some(v2e) if v2e.cost <= v1e.cost")))
B('d-und-last', ['C08'], sub('is_undirected', ("for i in 0..graph.num_vertices() {", "for i in 1..graph.num_vertices() {")))
B('d-und-panic', ['C08'], sub('is_undirected', ("""graph
                .vertices
                .get(v1e.to)
                .and_then(|v2| v2.iter().find(|v2e| v2e.to == i))""", "graph.vertices[v1e.to].iter().find(|v2e| v2e.to == i)")))
AM += V
# ---------------------------------------------------------------- nalgebra.rs
V, R, B, fn, sub, rep, src = mk("src/datastructures/nalgebra.rs")
R('d-points-idx', sub('from_points', ("""        points.iter().enumerate().for_each(|(i, from)| {
            points.iter().skip(i + 1).enumerate().for_each(|(j, to)| {
                let j = i + j + 1;
                let weight = ((from[0] - to[0]).powi(2) + (from[1] - to[1]).powi(2)).sqrt();
                // uses the fact, that the euclidean distance is symmetric
                matrix[(i, j)] = weight;
                matrix[(j, i)] = weight;
            });
        });
""", """        let n = points.len();
        for i in 0..n {
            for j in 0..i {
                let dx = points[i][0] - points[j][0];
                let dy = points[i][1] - points[j][1];
                let weight = (dx * dx + dy * dy).sqrt();
                matrix.set(i, j, weight);
                matrix.set(j, i, weight);
            }
        }
""")))
R('d-points-hypot', sub('from_points', ("((from[0] - to[0]).powi(2) + (from[1] - to[1]).powi(2)).sqrt()", "(from[0] - to[0]).hypot(from[1] - to[1])")))
R('d-points-full', sub('from_points', ("""            points.iter().skip(i + 1).enumerate().for_each(|(j, to)| {
                let j = i + j + 1;
""", """            points.iter().enumerate().for_each(|(j, to)| {
"""), ("                matrix[(j, i)] = weight;\n", "")))
R('d-par-row', sub('par_from_points', (".zip(matrix_col_j.iter_mut())\n                    .for_each(|(to, matrix_ij)| {", ".enumerate()\n                    .for_each(|(i, to)| {"), ("*matrix_ij = weight;", "matrix_col_j[i] = weight;")))
R('d-copy-set', (lambda s: ("src/datastructures/nalgebra.rs", s, s.replace("adj_matr[(i, j)] = value.get(i, j);", "adj_matr.set(j, i, value.get(j, i));")))(src[src.index("impl<T> From<&T>"):src.index("#[cfg(test)]")]))
R('d-graph-foreach', rep("""        for (i, neighbours) in graph.iter().enumerate() {
            for &Edge { to: j, cost } in neighbours.iter() {
                res[(i, j)] = cost;
            }
        }
""", """        graph.iter().enumerate().for_each(|(i, neighbours)| {
            neighbours.iter().for_each(|edge| res.set(i, edge.to, edge.cost));
        });
"""))
R('d-graph-sym', rep("                res[(i, j)] = cost;\n", "                res[(i, j)] = cost;\n                res[(j, i)] = cost;\n"))
R('d-dim-loop', rep("""        let mut matrix = DMatrix::from_element(dim, dim, f64::INFINITY);
        matrix.set_diagonal(&DVector::repeat(dim, 0.));
        NAMatrix(matrix)
""", """        NAMatrix(DMatrix::from_fn(dim, dim, |i, j| if i == j { 0. } else { f64::INFINITY }))
"""))
B('d-points-skip', ['C20'], sub('from_points', ("skip(i + 1)", "skip(i + 2)"), ("let j = i + j + 1;", "let j = i + j + 2;")))
B('d-points-off', ['C20'], sub('from_points', ("let j = i + j + 1;", "let j = (i + j + 1).min(points.len() - 1);"), ("skip(i + 1)", "skip(i + 1 + i / 4)")))
B('d-points-one', ['C20'], sub('from_points', ("                matrix[(j, i)] = weight;\n", "                if i > 0 { matrix[(j, i)] = weight; }\n")))
B('d-points-manh', ['C20'], sub('from_points', ("(from[1] - to[1]).powi(2)", "(from[1] - to[1]).powi(3)")))
B('d-points-y', ['C20'], sub('par_from_points', ("(from[1] - to[1])", "(from[1] - to[0])")))
B('d-par-skip', ['C20'], sub('par_from_points', (".zip(matrix_col_j.iter_mut())", ".zip(matrix_col_j.iter_mut().skip(1))")))
B('d-copy-upper', ['C20'], (lambda s: ("src/datastructures/nalgebra.rs", s, s.replace("for j in 0..dim {", "for j in i..dim {")))(src[src.index("impl<T> From<&T>"):src.index("#[cfg(test)]")]))
B('d-copy-t', ['C20'], (lambda s: ("src/datastructures/nalgebra.rs", s, s.replace("value.get(i, j)", "value.get(j, i)")))(src[src.index("impl<T> From<&T>"):src.index("#[cfg(test)]")]))
B('d-graph-cost', ['C20'], rep("                res[(i, j)] = cost;\n", "                res[(i, j)] = if cost > 0. { cost } else { f64::INFINITY };\n"))
B('d-graph-upper', ['C20'], rep("                res[(i, j)] = cost;\n", "                if i < j {\n                    res[(i, j)] = cost;\n                }\n"))
B('d-set', ['C20'], rep("        self[(row, col)] = cost;\n", "        self[(row, col)] = cost;\n        self[(col, col)] = 0.0;\n"))
B('d-diag', ['C20'], rep("DVector::repeat(dim, 0.)", "DVector::repeat(dim, 0.1)"))
AM += V
# ---------------------------------------------------------------- vecmatrix.rs
V, R, B, fn, sub, rep, src = mk("src/datastructures/vecmatrix.rs")
R('d-vec-fwd', rep("                matrix[j][i] = edge.cost;\n", ""))
R('d-vec-iter', rep("""        for i in 0..n {
            let vi = &graph[i];
            for edge in vi.iter() {
""", """        for (i, vi) in graph.iter().enumerate() {
            for edge in &vi.edges {
"""))
R('d-vec-set', rep("                matrix[i][j] = edge.cost;\n                matrix[j][i] = edge.cost;\n", "                matrix.set(i, j, edge.cost);\n                matrix.set(j, i, edge.cost);\n"))
R('d-vec-dim', rep("""        let mut vector = vec![vec![f64::INFINITY; dim]; dim];
        for (i, neighbours) in vector.iter_mut().enumerate() {
            neighbours[i] = 0.;
        }
""", """        let mut vector = vec![vec![f64::INFINITY; dim]; dim];
        for i in 0..dim {
            vector[i][i] = 0.;
        }
"""))
R('d-vec-dim2', rep("""        let mut vector = vec![vec![f64::INFINITY; dim]; dim];
        for (i, neighbours) in vector.iter_mut().enumerate() {
            neighbours[i] = 0.;
        }
""", """        let vector = (0..dim)
            .map(|i| (0..dim).map(|j| if i == j { 0. } else { f64::INFINITY }).collect())
            .collect();
"""))
B('d-vec-one', ['C20'], rep("                matrix[i][j] = edge.cost;\n                matrix[j][i] = edge.cost;\n", "                if i < j {\n                    matrix[i][j] = edge.cost;\n                }\n"))
B('d-vec-max', ['C20'], rep("                matrix[j][i] = edge.cost;\n", "                matrix[j][i] = edge.cost;\n                matrix[i][i] = edge.cost;\n"))
B('d-vec-diag', ['C20'], rep("            neighbours[i] = 0.;\n", "            if i > 0 {\n                neighbours[i] = 0.;\n            }\n"))
B('d-vec-n', ['C20'], rep("        for i in 0..n {", "        for i in 0..n.min(64) {"))
AM += V
V = AM
