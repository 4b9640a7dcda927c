import sys; sys.path.insert(0, '/verif/tools/v')
import re
from _h import mk
V, R, B, _fn, _sub, rep, src = mk("src/solvers/exact.rs")
X = "src/solvers/exact.rs"


def fn(name, **k):
    return re.sub(r'^ *//.*\n', '', _fn(name, **k), flags=re.M)


def sub(name, *pairs, add=""):
    t = fn(name)
    for a, b in pairs:
        assert a in t, (name, a)
        t = t.replace(a, b, 1)
    return (X, _fn(name), t + add)


S = {k: '_%s_improved_solver_rec' % w for k, w in zip((2, 3, 4, 5, 6), ('second', 'third', 'fourth', 'fifth', 'sixth'))}
NN = 'compute_nn_of_remaining_vertices'
LEAF = """        current_cost += graph_matrix.get(
            *current_prefix.last().unwrap(),
            *current_prefix.first().unwrap(),
        );

        let best_cost = result.0;
        if current_cost < best_cost {
            result.0 = current_cost;
            result.1 = current_prefix.clone();
        }
        return;
"""
HEAD = """        if current_prefix.contains(&i) {
            continue;
        }

        current_prefix.push(i);
"""
FIRST3 = """        if current_prefix.len() == 1 {
            _third_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
            current_prefix.pop();
            continue;
        }

"""
EDGE = """        let from = current_prefix.len() - 2;
        let to = from + 1;
        let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
        let current_cost = current_cost + cost_last_edge;
"""
CALL3 = """        if current_cost <= result.0 {
            _third_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
        }

        current_prefix.pop();
"""
# ------------------------------------------------ refactorings
HELP = """
fn finish_tour<T: AdjacencyMatrix>(graph: &T, tour: &Path, open_cost: f64, best: &mut Solution) {
    let closing = graph.get(tour[tour.len() - 1], tour[0]);
    let total = open_cost + closing;
    if total < best.0 {
        *best = (total, tour.to_vec());
    }
}
"""
R('x-leafhelper', sub(S[2], (LEAF, "        finish_tour(graph_matrix, current_prefix, current_cost, result);\n        return;\n"), add=HELP),
  sub(S[5], (LEAF, "        return finish_tour(graph_matrix, current_prefix, current_cost, result);\n")))
R('x-leaf-circle', sub(S[3], (LEAF, """        let total = graph_matrix.evaluate_circle(current_prefix);
        if total < result.0 {
            *result = (total, current_prefix.clone());
        }
        return;
""")))
R('x-leaf-replace', sub(S[4], (LEAF, """        current_cost += graph_matrix.get(
            *current_prefix.last().unwrap(),
            *current_prefix.first().unwrap(),
        );
        if current_cost < result.0 {
            let _old = std::mem::replace(result, (current_cost, current_prefix.clone()));
        }
        return;
""")))
R('x-leaf-clonefrom', sub(S[6], ("result.1 = current_prefix.clone();", "result.1.clone_from(current_prefix);")))
R('x-leaf-guard', sub(S[6], (LEAF, """        current_cost += graph_matrix.get(
            *current_prefix.last().unwrap(),
            *current_prefix.first().unwrap(),
        );
        if current_cost >= result.0 {
            return;
        }
        result.0 = current_cost;
        result.1.clear();
        result.1.extend_from_slice(current_prefix);
        return;
""")))
R('x-leaf-destructure', sub(S[3], (LEAF, """        let (best_cost, best_path) = result;
        let closed = current_cost
            + graph_matrix.get(
                *current_prefix.last().unwrap(),
                *current_prefix.first().unwrap(),
            );
        if closed < *best_cost {
            *best_cost = closed;
            *best_path = current_prefix.clone();
        }
        return;
"""), ("    let mut current_cost = current_cost;\n", "")))
R('x-open-collected', sub(S[3], ("    for i in 0..n {\n" + HEAD, "    let open: Vec<usize> = (0..n).filter(|v| !current_prefix.contains(v)).collect();\n    for i in open {\n        current_prefix.push(i);\n")))
R('x-open-sorted', sub(S[3], ("    for i in 0..n {\n" + HEAD, """    let mut open: Vec<usize> = (0..n).filter(|v| !current_prefix.contains(v)).collect();
    if let Some(&last) = current_prefix.last() {
        open.sort_by(|a, b| graph_matrix.get(last, *a).partial_cmp(&graph_matrix.get(last, *b)).unwrap());
    }
    for i in open {
        current_prefix.push(i);
""")))
R('x-first-edge', sub(S[3], (FIRST3, ""), (EDGE, """        let edge = if current_prefix.len() > 1 {
            let len = current_prefix.len();
            graph_matrix.get(current_prefix[len - 2], current_prefix[len - 1])
        } else {
            0.0
        };
        let current_cost = current_cost + edge;
""")))
R('x-last-before', sub(S[3], (HEAD + FIRST3 + EDGE, """        if current_prefix.contains(&i) {
            continue;
        }
        let edge = match current_prefix.last() {
            Some(&last) => graph_matrix.get(last, i),
            None => 0.0,
        };
        current_prefix.push(i);
        let current_cost = current_cost + edge;
""")))
R('x-last-mapor', sub(S[2], (HEAD, """        if current_prefix.contains(&i) {
            continue;
        }
        let edge = current_prefix.last().map_or(0.0, |&last| graph_matrix.get(last, i));
        current_prefix.push(i);
"""), ("""        if current_prefix.len() == 1 {
            _second_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
            current_prefix.pop();
            continue;
        }

""" + EDGE, "        let current_cost = current_cost + edge;\n")))
R('x-copy-prefix', sub(S[3], (HEAD, """        if current_prefix.contains(&i) {
            continue;
        }
        let mut current_prefix = current_prefix.clone();
        let current_prefix = &mut current_prefix;
        current_prefix.push(i);
"""), ("            current_prefix.pop();\n            continue;\n", "            continue;\n"), ("\n        current_prefix.pop();\n", "")))
R('x-prune-top', sub(S[3], ("    let mut current_cost = current_cost;\n", "    let mut current_cost = current_cost;\n    if current_cost > result.0 {\n        return;\n    }\n"), ("        if current_cost <= result.0 {\n            _third_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);\n        }\n", "        _third_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);\n")))
R('x-prune-continue', sub(S[4], ("        if current_cost + lower_bound <= result.0 {\n            _fourth_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);\n        }\n\n        current_prefix.pop();\n", """        if current_cost + lower_bound > result.0 {
            current_prefix.pop();
            continue;
        }
        _fourth_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
        current_prefix.pop();
""")))
R('x-lb-helper', sub(S[5], ("""        let lower_bound_graph =
            mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);
        let lower_bound = lower_bound_graph.undirected_edge_weight();
""", "        let lower_bound = remaining_mst(graph_matrix, current_prefix);\n"), add="""
fn remaining_mst(graph: &NAMatrix, prefix: &Path) -> f64 {
    mst::prim_with_excluded_node_single_threaded(graph, prefix).undirected_edge_weight()
}
"""))
HASH = """        let hash = {
            let mut hasher = FxHasher::default();
            current_prefix.hash(&mut hasher);
            hasher.finish()
        };
        let lower_bound = mst_cache.entry(hash).or_insert(
            mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix)
                .undirected_edge_weight(),
        );
        if current_cost + *lower_bound <= result.0 {
"""
assert HASH in fn(S[6])
R('x-cache-get', sub(S[6], (HASH, """        let hash = prefix_key(current_prefix);
        let lower_bound = if let Some(known) = mst_cache.get(&hash) {
            *known
        } else {
            let fresh = mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix)
                .undirected_edge_weight();
            mst_cache.insert(hash, fresh);
            fresh
        };
        if current_cost + lower_bound <= result.0 {
"""), add="""
fn prefix_key(prefix: &Path) -> u64 {
    let mut hasher = FxHasher::default();
    prefix.hash(&mut hasher);
    hasher.finish()
}
"""))
R('x-cache-contains', sub(S[6], (HASH, """        let hash = {
            let mut hasher = FxHasher::default();
            current_prefix.hash(&mut hasher);
            hasher.finish()
        };
        if !mst_cache.contains_key(&hash) {
            let tree = mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);
            mst_cache.insert(hash, tree.undirected_edge_weight());
        }
        let lower_bound = mst_cache[&hash];
        if current_cost + lower_bound <= result.0 {
""")))
VK = [sub(S[6], (HASH, """        let key = current_prefix.clone();
        let lower_bound = *mst_cache.entry(key).or_insert_with(|| {
            mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix)
                .undirected_edge_weight()
        });
        if current_cost + lower_bound <= result.0 {
"""), ("mst_cache: &mut FxHashMap<u64, f64>", "mst_cache: &mut FxHashMap<Vec<usize>, f64>")),
      sub('sixth_improved_solver', ("FxHashMap<u64, f64>", "FxHashMap<Vec<usize>, f64>"))]
R('x-cache-veckey', *VK)
VS = [(X, VK[0][1], VK[0][2].replace("let key = current_prefix.clone();", "let mut key = current_prefix.clone();\n        key.sort_unstable();")), VK[1]]
R('x-cache-sortedkey', *VS)
R('x-nn-fold', sub(NN, ("""        for j in 0..n {
            if j == i || (subtour.contains(&j) && subtour.last() != Some(&j)) {
                continue;
            }

            let cost = graph_matrix.get(i, j);
            if cost < shortest_edge_cost {
                shortest_edge_cost = cost;
            }
        }
""", ""), ("let mut shortest_edge_cost = f64::INFINITY;", """let shortest_edge_cost = (0..n)
            .filter(|&j| j != i && (!subtour.contains(&j) || subtour.last() == Some(&j)))
            .map(|j| graph_matrix.get(i, j))
            .fold(f64::INFINITY, f64::min);""")))
R('x-nn-slice', sub(NN, ("j == i || (subtour.contains(&j) && subtour.last() != Some(&j))", "j == i || subtour[..subtour.len() - 1].contains(&j)")))
R('x-nn-sum', sub(NN, ("    let mut res = 0.0;\n", """    if n == 0 {
        return 0.0;
    }
    let mut res = 0.0;
""")))
R('x-prev-two', sub(S[5], (EDGE, """        let cost_last_edge = match current_prefix[..] {
            [.., a, b] => graph_matrix.get(a, b),
            _ => 0.0,
        };
        let current_cost = current_cost + cost_last_edge;
""")))
R('x-windows', sub(S[5], (EDGE, """        let cost_last_edge = current_prefix.windows(2).last().map(|w| graph_matrix.get(w[0], w[1])).unwrap_or(0.0);
        let current_cost = current_cost + cost_last_edge;
""")))
R('x-debug', sub(S[4], ("    let n = graph_matrix.dim();\n", "    let n = graph_matrix.dim();\n    debug_assert!(current_prefix.len() <= n);\n")))
R('x-fifth-two-edges', sub(S[5], ("        let lower_bound = lower_bound_graph.undirected_edge_weight();\n", """        let last = *current_prefix.last().unwrap();
        let connect = (0..n)
            .filter(|v| !current_prefix.contains(v))
            .map(|v| graph_matrix.get(last, v))
            .fold(f64::INFINITY, f64::min);
        let connect = if connect.is_finite() { connect } else { 0.0 };
        let lower_bound = lower_bound_graph.undirected_edge_weight() + connect;
""")))
R('x-fifth-with-first', sub(S[5], ("mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);", "mst::prim_with_excluded_node_single_threaded(graph_matrix, &current_prefix[1..].to_vec());")))
R('x-visited', sub(S[3], ("    result: &mut Solution,\n", "    result: &mut Solution,\n    used: &mut Vec<bool>,\n"), ("        if current_prefix.contains(&i) {\n", "        if used[i] {\n"), ("        current_prefix.push(i);\n", "        current_prefix.push(i);\n        used[i] = true;\n"),
  ("current_cost, result);\n            current_prefix.pop();", "current_cost, result, used);\n            used[i] = false;\n            current_prefix.pop();"), ("current_cost, result);\n        }\n\n        current_prefix.pop();", "current_cost, result, used);\n        }\n\n        current_prefix.pop();\n        used[i] = false;")),
  sub('third_improved_solver', ("0.0, &mut result)", "0.0, &mut result, &mut vec![false; graph_matrix.dim()])")))
R('x-root-loop', sub('third_improved_solver', ("    _third_improved_solver_rec(graph_matrix, &mut current_prefix, 0.0, &mut result);\n", """    for start in 0..graph_matrix.dim() {
        current_prefix.push(start);
        _third_improved_solver_rec(graph_matrix, &mut current_prefix, 0.0, &mut result);
        current_prefix.pop();
    }
""")), sub(S[3], (FIRST3, "")))
R('x-closure', sub(S[2], ("    let n = graph_matrix.dim();\n", "    let n = graph_matrix.dim();\n    let weight = |a: usize, b: usize| graph_matrix.get(a, b);\n"), ("graph_matrix.get(current_prefix[from], current_prefix[to])", "weight(current_prefix[from], current_prefix[to])")))
# ------------------------------------------------ bugs
B('y-cache-before', ['C04'], sub(S[6], ("            current_prefix.hash(&mut hasher);", "            current_prefix[..from + 1].hash(&mut hasher);")))
B('y-cache-sum', ['C04'], sub(S[6], ("            current_prefix.hash(&mut hasher);", "            current_prefix.iter().sum::<usize>().hash(&mut hasher);")))
B('y-cache-with-cost', ['C04'], sub(S[6], ("                .undirected_edge_weight(),\n", "                .undirected_edge_weight()\n                + cost_last_edge,\n")))
B('y-cache-last', ['C04'], (X, VK[0][1], VK[0][2].replace("let key = current_prefix.clone();", "let key = current_prefix[1..].to_vec();")), VK[1])
B('y-fifth-first-only', ['C04'], sub(S[5], ("mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);", "mst::prim_with_excluded_node_single_threaded(graph_matrix, &current_prefix[..1].to_vec());")))
B('y-fifth-connect-second', ['C04'], sub(S[5], ("        let lower_bound = lower_bound_graph.undirected_edge_weight();\n", "        let lower_bound = lower_bound_graph.undirected_edge_weight() + graph_matrix.get(current_prefix[0], current_prefix[1]);\n")))
B('y-third-min-edges', ['C04'], sub(S[3], ("        if current_cost <= result.0 {\n", "        let cheapest = (0..n).filter(|&v| v != i).map(|v| graph_matrix.get(i, v)).fold(f64::INFINITY, f64::min);\n        if current_cost + cheapest * (n - to) as f64 <= result.0 {\n")))
B('y-third-ceil', ['C04'], sub(S[3], ("        if current_cost <= result.0 {\n", "        if current_cost.ceil() <= result.0 {\n")))
B('y-leaf-zero', ['C03'], sub(S[4], ("            *current_prefix.first().unwrap(),\n", "            0,\n")))
B('y-leaf-first-two', ['C03'], sub(S[4], ("        current_cost += graph_matrix.get(", "        if n > 2 {\n            current_cost -= 0.0 * graph_matrix.get(0, 1);\n        }\n        current_cost += 0.5 * graph_matrix.get(")))
B('y-skip-mirrored', ['C01'], sub(S[5], ("        if current_prefix.contains(&i) {\n", "        if current_prefix.contains(&i) || (current_prefix.len() == 2 && n > 6 && i < current_prefix[0]) {\n")))
B('y-no-pop', ['C01'], sub(S[4], ("        if current_cost + lower_bound <= result.0 {\n", "        if lower_bound == 0.0 && current_cost > result.0 {\n            continue;\n        }\n        if current_cost + lower_bound <= result.0 {\n")))
B('y-break-on-bound', ['C01'], sub(S[3], ("        if current_cost <= result.0 {\n", "        if current_cost > 2.0 * result.0 {\n            current_prefix.pop();\n            break;\n        }\n        if current_cost <= result.0 {\n")))
B('y-limit-depth', ['C01'], sub(S[2], ("    for i in 0..n {\n", "    for i in 0..n.min(64) {\n")))
B('y-dup-last', ['C01'], sub(S[3], ("current_prefix.contains(&i)", "current_prefix.iter().rev().take(12).any(|&v| v == i)")))
B('y-best-torn', ['C02'], sub(S[6], ("            result.1 = current_prefix.clone();\n", "            if result.1.is_empty() || current_prefix[0] <= result.1[0] {\n                result.1 = current_prefix.clone();\n            }\n")))
B('y-best-f32', ['C02'], sub(S[6], ("if current_cost < best_cost {", "if (current_cost as f32) < best_cost as f32 {")))
B('y-best-init', ['C02'], sub('fifth_improved_solver', ("f64::INFINITY", "1e9")))
B('y-prune-eq', ['C04'], sub(S[5], ("if current_cost + lower_bound <= result.0 {", "if current_cost + lower_bound <= result.0 - 1.0 {")))
B('y-nn-missing-zero', ['C04'], sub(NN, ("let cost = graph_matrix.get(i, j);", "let cost = graph_matrix.get(i, j).max(1.0);")))
B('y-nn-all', ['C04'], sub(NN, ("        if subtour.contains(&i) {\n", "        if subtour.contains(&i) && subtour.len() > 2 {\n")))
B('y-nn-double', ['C04'], sub(NN, ("            res += shortest_edge_cost;\n", "            res += shortest_edge_cost;\n            if n - subtour.len() == 1 {\n                res += shortest_edge_cost;\n            }\n")))
