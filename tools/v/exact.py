X="src/solvers/exact.py".replace(".py",".rs")
V=[]
def R(id,*edits,**k): V.append(dict(id=id,kind='refactor',props=[],edits=list(edits),**k))
def B(id,props,*edits,**k): V.append(dict(id=id,kind='bug',props=props,edits=list(edits),**k))

sec=open('/repo/'+X).read()
def fn(name):
    i=sec.index('fn '+name)
    # start of line
    i=sec.rindex('\n',0,i)+1
    j=sec.index('\n}\n',i)+3
    return sec[i:j]
def sub(name,*pairs):
    s=fn(name); t=s
    for a,b in pairs:
        assert a in t,(name,a)
        t=t.replace(a,b,1)
    return (X,s,t)
S2='_second_improved_solver_rec';S3='_third_improved_solver_rec';S4='_fourth_improved_solver_rec';S5='_fifth_improved_solver_rec';S6='_sixth_improved_solver_rec'
# ---------------- refactorings
R('s2-while', sub(S2,("for i in 0..n {\n        // Prune if already in prefix\n        if current_prefix.contains(&i) {\n            continue;\n        }","let mut next = 0;\n    while next < n {\n        let i = next;\n        next += 1;\n        if current_prefix.contains(&i) {\n            continue;\n        }")))
R('s3-revrange', sub(S3,("for i in 0..n {","for i in (0..n).rev() {")))
R('s3-notcontains', sub(S3,("if current_cost <= result.0 {","let worse = current_cost > result.0;\n        if !worse {")))
R('s3-continue', sub(S3,("if current_cost <= result.0 {\n            _third_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);\n        }","if current_cost > result.0 {\n            current_prefix.pop();\n            continue;\n        }\n        _third_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);")))
R('s3-helper', (X, fn(S3), fn(S3).replace("""        current_cost += graph_matrix.get(
            *current_prefix.last().unwrap(),
            *current_prefix.first().unwrap(),
        );

        let best_cost = result.0;
        if current_cost < best_cost {
            result.0 = current_cost;
            result.1 = current_prefix.clone();
        }
        return;""","""        current_cost += closing_edge(graph_matrix, current_prefix);
        update_if_better(current_cost, current_prefix, result);
        return;""")+"""
fn closing_edge<T: AdjacencyMatrix>(graph_matrix: &T, tour: &[usize]) -> f64 {
    graph_matrix.get(tour[tour.len() - 1], tour[0])
}

fn update_if_better(cost: f64, tour: &Path, best: &mut Solution) {
    if cost < best.0 {
        *best = (cost, tour.clone());
    }
}
"""))
R('s3-early', sub(S3,("""        current_prefix.push(i);
        if current_prefix.len() == 1 {
            _third_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
            current_prefix.pop();
            continue;
        }

        let from = current_prefix.len() - 2;
        let to = from + 1;
        let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
        let current_cost = current_cost + cost_last_edge;
""","""        let edge = match current_prefix.last() {
            Some(&last) => graph_matrix.get(last, i),
            None => 0.0,
        };
        let current_cost = current_cost + edge;
        current_prefix.push(i);
""")))
R('s5-inline', sub(S5,("""        let lower_bound_graph =
            mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);
        let lower_bound = lower_bound_graph.undirected_edge_weight();
        if current_cost + lower_bound <= result.0 {""","""        let bound = current_cost
            + mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix)
                .undirected_edge_weight();
        if bound <= result.0 {""")))
R('s5-filter', sub(S5,("""    for i in 0..n {
        // We do not visit twice
        if current_prefix.contains(&i) {
            continue;
        }
""","""    let candidates: Vec<usize> = (0..n).filter(|v| !current_prefix.contains(v)).collect();
    for i in candidates {
""")))
R('s5-pq', sub(S5,("prim_with_excluded_node_single_threaded","prim_with_excluded_node_priority_queue")))
R('s4-iter', (X, fn('compute_nn_of_remaining_vertices'), """fn compute_nn_of_remaining_vertices<T>(graph_matrix: &T, subtour: &Path, n: usize) -> f64
where
    T: AdjacencyMatrix,
{
    let last = subtour.last().copied();
    (0..n)
        .filter(|i| !subtour.contains(i))
        .map(|i| {
            (0..n)
                .filter(|&j| j != i && (!subtour.contains(&j) || last == Some(j)))
                .map(|j| graph_matrix.get(i, j))
                .fold(f64::INFINITY, f64::min)
        })
        .filter(|c| *c != f64::INFINITY)
        .sum()
}
"""))
R('s4-swap', sub('compute_nn_of_remaining_vertices',("if j == i || (subtour.contains(&j) && subtour.last() != Some(&j)) {\n                continue;\n            }","let enters = !subtour.contains(&j) || subtour.last() == Some(&j);\n            if j == i || !enters {\n                continue;\n            }")))
R('s6-entry', sub(S6,("""        let lower_bound = mst_cache.entry(hash).or_insert(
            mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix)
                .undirected_edge_weight(),
        );
        if current_cost + *lower_bound <= result.0 {""","""        let lower_bound = match mst_cache.get(&hash) {
            Some(known) => *known,
            None => {
                let fresh = mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix)
                    .undirected_edge_weight();
                mst_cache.insert(hash, fresh);
                fresh
            }
        };
        if current_cost + lower_bound <= result.0 {""")))
R('s6-orinsertwith', sub(S6,("or_insert(\n            mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix)\n                .undirected_edge_weight(),\n        )","or_insert_with(|| {\n            mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix)\n                .undirected_edge_weight()\n        })")))
R('roots-vec', sub('second_improved_solver',("let mut current_prefix = Vec::new();\n    current_prefix.reserve(graph_matrix.dim());","let mut current_prefix = Vec::with_capacity(graph_matrix.dim());")))
R('root-search-helper', (X, fn('third_improved_solver'), """pub fn third_improved_solver<T>(graph_matrix: &T) -> Solution
where
    T: AdjacencyMatrix,
{
    let (mut current_prefix, mut result) = empty_search(graph_matrix.dim());
    _third_improved_solver_rec(graph_matrix, &mut current_prefix, 0.0, &mut result);
    let (cost, tour) = result;
    (cost, tour)
}

fn empty_search(n: usize) -> (Path, Solution) {
    (Vec::with_capacity(n), (f64::INFINITY, Vec::new()))
}
"""))
R('mpi-min', sub('_mpi_improved_solver_rec',("let best_known_solution = if global_best_cost < result.0 {\n            global_best_cost\n        } else {\n            result.0\n        };","let best_known_solution = global_best_cost.min(result.0);")))
R('s2-isfull', sub(S2,("if current_prefix.len() == n {","let complete = current_prefix.len() >= n;\n    if complete {")))
R('s2-neg', sub(S2,("if current_cost < best_cost {","if best_cost > current_cost {")))
# ---------------- bugs
B('b-s2-range',['C01'], sub(S2,("for i in 0..n {","for i in 0..n - 1 {")))
B('b-s2-from1',['C01'], sub(S2,("for i in 0..n {","for i in 1..n {")))
B('b-s2-nopop',['C01'], sub(S2,("        // remove\n        current_prefix.pop();\n","        // remove\n        if current_prefix.len() > 2 {\n            current_prefix.pop();\n        }\n")))
R('b-s2-break', sub(S2,("            current_prefix.pop();\n            continue;","            current_prefix.pop();\n            break;")))
B('b-s3-lt',['C04'], sub(S3,("if current_cost <= result.0","if current_cost * 1.5 <= result.0")))
B('b-s3-rev',['C04'], sub(S3,("if current_cost <= result.0","if current_cost >= result.0")))
B('b-s3-contrem',['C01'], sub(S3,("if current_prefix.contains(&i) {","if current_prefix[..current_prefix.len().min(3)].contains(&i) {")))
B('b-s3-closing',['C03'], sub(S3,("*current_prefix.first().unwrap(),","current_prefix[1],")))
B('b-s3-noclosing',['C03'], sub(S3,("current_cost += graph_matrix.get(\n            *current_prefix.last().unwrap(),\n            *current_prefix.first().unwrap(),\n        );","")))
B('b-s3-nocost',['C02'], sub(S3,("            result.0 = current_cost;\n            result.1 = current_prefix.clone();","            if result.1.is_empty() { result.1 = current_prefix.clone(); }\n            result.0 = current_cost;")))
B('b-s3-le',['C02'], sub(S3,("if current_cost < best_cost {","if current_cost <= best_cost {")))
B('b-s3-edge',['C03'], sub(S3,("let from = current_prefix.len() - 2;","let from = current_prefix.len().saturating_sub(3);")))
B('b-s4-nn',['C04'], sub('compute_nn_of_remaining_vertices',("if j == i || (subtour.contains(&j) && subtour.last() != Some(&j)) {","if j == i || subtour.contains(&j) {")))
B('b-s4-nnall',['C04'], sub('compute_nn_of_remaining_vertices',("        if subtour.contains(&i) {\n            continue;\n        }\n","        if subtour.first() == Some(&i) {\n            continue;\n        }\n")))
B('b-s4-max',['C04'], sub('compute_nn_of_remaining_vertices',("let mut shortest_edge_cost = f64::INFINITY;","let mut shortest_edge_cost = 0.0;"),("if cost < shortest_edge_cost","if cost > shortest_edge_cost")))
B('b-s5-dir',['C04'], sub(S5,("undirected_edge_weight","directed_edge_weight")))
B('b-s5-excl',['C04'], sub(S5,("mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix)","mst::prim_with_excluded_node_single_threaded(graph_matrix, &current_prefix[..1])")))
B('b-s6-key',['C04'], sub(S6,("current_prefix.hash(&mut hasher);","current_prefix.last().hash(&mut hasher);")))
B('b-s6-key2',['C04'], sub(S6,("current_prefix.hash(&mut hasher);","current_prefix.len().hash(&mut hasher);")))
B('b-s6-key3',['C04'], sub(S6,("current_prefix.hash(&mut hasher);","current_prefix[..current_prefix.len() - 1].hash(&mut hasher);")))
B('b-root-prefix',['C01'], sub('fifth_improved_solver',("    _fifth_improved_solver_rec(","    current_prefix.push(1);\n    _fifth_improved_solver_rec(")))
B('b-root-best',['C02'], sub('fifth_improved_solver',("(f64::INFINITY, Vec::new())","(1000000.0, Vec::new())")))
B('b-s5-order',['C03'], sub(S5,("let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);","let cost_last_edge = graph_matrix.get(current_prefix[0], current_prefix[to]);")))
B('b-mpi-bound',['C04'], sub('_mpi_improved_solver_rec',("if current_cost + lower_bound <= best_known_solution","if current_cost + 2.0 * lower_bound <= best_known_solution")))
B('b-mpi-cover',['C01'], sub('_mpi_improved_solver_rec',("for i in 0..n {","for i in current_prefix[0]..n {")))
