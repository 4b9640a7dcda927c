import sys; sys.path.insert(0, '/verif/tools/v')
from _h import mk
V, R, B, fn, sub, rep, src = mk("src/solvers/exact.rs")
T = 'threaded_solver_generic'
C6 = ['C06']
UPD = """                    let mut global_solution = bkr.lock().unwrap();
                    if result.0 < global_solution.0 {
                        global_solution.0 = result.0;
                        global_solution.1 = result.1.clone();
                    }
"""
FILL = """                    for i in &next_value {
                        current_prefix.push(*i);
                    }
"""
UNIQ = """                    let is_unique =
                        next_value.len() == next_value.iter().collect::<FxHashSet<_>>().len();
                    if !is_unique {
                        continue;
                    }
"""
HEADL = """                let mut next_prefix = Some(min_digits.clone());
                while let Some(next_value) = next_prefix {
                    // early return if we have finished our chunk
                    if next_value == max_digits {
                        break;
                    }
                    next_prefix = get_next_value(&mut min_digits, graph_matrix.dim());
"""
# ------------------------------------------------ refactorings
R('t-assign', sub(T, (UPD, """                    let mut global_solution = bkr.lock().unwrap();
                    if result.0 < global_solution.0 {
                        *global_solution = result;
                    }
""")))
R('t-gt', sub(T, ("if result.0 < global_solution.0 {", "if global_solution.0 > result.0 {")))
R('t-extend', sub(T, (FILL, "                    current_prefix.extend(next_value.iter().copied());\n")))
R('t-extslice', sub(T, (FILL, "                    current_prefix.extend_from_slice(&next_value);\n")))
R('t-freshprefix', sub(T, (FILL, "                    let mut current_prefix = next_value.clone();\n"), ("                    // clear prefix\n                    current_prefix.clear();\n", ""), ("                let mut current_prefix: Vec<usize> = Vec::new();\n                current_prefix.reserve(graph_matrix.dim());\n", "")))
R('t-clearfirst', sub(T, (FILL, "                    current_prefix.clear();\n" + FILL), ("                    // clear prefix\n                    current_prefix.clear();\n", "")))
R('t-uniq-flip', sub(T, (UNIQ, """                    let distinct: FxHashSet<_> = next_value.iter().collect();
                    if distinct.len() < next_value.len() {
                        continue;
                    }
""")))
R('t-uniq-loop', sub(T, (UNIQ, """                    let mut is_unique = true;
                    for a in 0..next_value.len() {
                        for b in 0..a {
                            if next_value[a] == next_value[b] {
                                is_unique = false;
                            }
                        }
                    }
                    if !is_unique {
                        continue;
                    }
""")))
R('t-uniq-any', sub(T, (UNIQ, """                    let repeated = (1..next_value.len()).any(|a| next_value[..a].contains(&next_value[a]));
                    if repeated {
                        continue;
                    }
""")))
R('t-uniq-helper', sub(T, (UNIQ, "                    if !is_valid_prefix(&next_value) {\n                        continue;\n                    }\n")),
  rep("/// See [`threaded_solver`] for a high level explaination\n", "fn is_valid_prefix(prefix: &[usize]) -> bool {\n    prefix.len() == prefix.iter().collect::<FxHashSet<_>>().len()\n}\n\n/// See [`threaded_solver`] for a high level explaination\n"))
R('t-loop', sub(T, (HEADL, """                let mut next_prefix = Some(min_digits.clone());
                loop {
                    let next_value = match next_prefix {
                        Some(value) if value != max_digits => value,
                        _ => break,
                    };
                    next_prefix = get_next_value(&mut min_digits, graph_matrix.dim());
""")))
R('t-chain', sub(T, (HEADL, """                let mut next_prefix = Some(min_digits);
                while let Some(mut cursor) = next_prefix {
                    if cursor == max_digits {
                        break;
                    }
                    let next_value = cursor.clone();
                    next_prefix = get_next_value(&mut cursor, graph_matrix.dim());
""")))
R('t-filter', sub(T, ("                while let Some(next_value) = next_prefix {\n                    // early return if we have finished our chunk\n                    if next_value == max_digits {\n                        break;\n                    }\n", "                while let Some(next_value) = next_prefix.filter(|value| *value != max_digits) {\n")))
R('t-after', sub(T, (HEADL, """                while min_digits != max_digits {
                    let next_value = min_digits.clone();
                    let more = get_next_value(&mut min_digits, graph_matrix.dim()).is_some();
"""), (UNIQ, """                    let is_unique =
                        next_value.len() == next_value.iter().collect::<FxHashSet<_>>().len();
                    if !is_unique {
                        if !more {
                            break;
                        }
                        continue;
                    }
"""), ("                    // implicitly drop mutex guard\n", "                    drop(global_solution);\n                    if !more {\n                        break;\n                    }\n")))
R('t-localbest', sub(T, ("                // For each prefix\n", "                let mut local = (f64::INFINITY, Vec::new());\n                // For each prefix\n"), (UPD, "                    if result.0 < local.0 {\n                        local = result;\n                    }\n"), ("                    // implicitly drop mutex guard\n                }\n", """                }
                let mut global_solution = bkr.lock().unwrap();
                if local.0 < global_solution.0 {
                    *global_solution = local;
                }
""")))
R('t-finite', sub(T, ("                    let mut global_solution = bkr.lock().unwrap();\n                    if", "                    if result.1.is_empty() {\n                        continue;\n                    }\n                    let mut global_solution = bkr.lock().unwrap();\n                    if")))
R('t-seeded', sub(T, ("                    let mut result = (f64::INFINITY, Vec::new());", "                    let mut result = bkr.lock().unwrap().clone();")))
R('t-nomove', sub(T, ("            let bkr = Arc::clone(&best_known_result);", "            let bkr = best_known_result.clone();")))
R('t-result', sub(T, ("    Arc::try_unwrap(best_known_result)\n        .unwrap()\n        .into_inner()\n        .unwrap()\n", "    let best = best_known_result.lock().unwrap();\n    best.clone()\n")))
R('t-cost', sub(T, ("graph_matrix.evaluate_path(&current_prefix);", "graph_matrix.evaluate_path(&next_value);")))
R('t-worker', sub(T, ("            s.spawn(move |_| {\n", "            s.spawn(move |_| {\n                let n = graph_matrix.dim();\n"), ("                    prefix_length,\n                    graph_matrix.dim(),\n", "                    prefix_length,\n                    n,\n")))
R('t-pariter', sub(T, ("    rayon::scope(|s| {\n        for i in 0..number_of_threads {\n", "    (0..number_of_threads).into_par_iter().for_each(|i| {\n        {\n"), ("            s.spawn(move |_| {\n", "            {\n"), ("            });\n        }\n    });\n\n    // scary", "            }\n        }\n    });\n\n    // scary"))) if "use rayon::prelude" in src else None
R('t-fallback4', sub(T, ("return fifth_improved_solver(graph_matrix);", "return sixth_improved_solver(graph_matrix);")))
R('t-guard', sub(T, ("if number_of_threads >= graph_matrix.dim() || prefix_length > graph_matrix.dim() {", "let n = graph_matrix.dim();\n    let parallel = number_of_threads < n && prefix_length <= n;\n    if !parallel {")))
# ------------------------------------------------ bugs
B('t-first', C6, sub(T, ("let mut next_prefix = Some(min_digits.clone());", "let mut next_prefix = get_next_value(&mut min_digits, graph_matrix.dim());")))
B('t-orig', C6, sub(T, (HEADL, """                while let Some(next_value) = get_next_value(&mut min_digits, graph_matrix.dim()) {
                    if next_value == max_digits {
                        break;
                    }
""")))
B('t-wrongk', C6, sub(T, ("                    number_of_threads,\n                    i,\n", "                    number_of_threads,\n                    i.saturating_sub(1),\n")))
B('t-k1', C6, sub(T, ("for i in 0..number_of_threads {", "for i in 1..number_of_threads {")))
B('t-chunks', C6, sub(T, ("                    number_of_threads,\n                    i,\n", "                    number_of_threads + 1,\n                    i,\n")))
B('t-noend', [], sub(T, ("                    if next_value == max_digits {\n                        break;\n                    }\n", "")))
B('t-uniq', C6, sub(T, ("next_value.len() == next_value.iter().collect::<FxHashSet<_>>().len();", "next_value[0] != next_value[1];")))
B('t-uniq12', C6, sub(T, ("next_value.len() == next_value.iter().collect::<FxHashSet<_>>().len();", "next_value[0] != next_value[1] && next_value[1] != next_value[2];")))
B('t-uniqle', C6, sub(T, ("next_value.len() == next_value", "next_value.len() <= 1 + next_value")))
B('t-break', C6, sub(T, ("                    if !is_unique {\n                        continue;", "                    if !is_unique {\n                        break;")))
B('t-overwrite', ['C06', 'C02'], sub(T, ("                    if result.0 < global_solution.0 {\n                        global_solution.0 = result.0;\n                        global_solution.1 = result.1.clone();\n                    }\n", "                    *global_solution = result;\n")))
B('t-torn', ['C06', 'C02'], sub(T, ("                        global_solution.1 = result.1.clone();\n                    }\n", "                    }\n                    global_solution.1 = result.1.clone();\n")))
B('t-race', ['C06', 'C02'], sub(T, (UPD, """                    let improved = result.0 < bkr.lock().unwrap().0;
                    if improved {
                        let mut global_solution = bkr.lock().unwrap();
                        global_solution.0 = result.0;
                        global_solution.1 = result.1.clone();
                    }
""")))
B('t-race2', ['C06', 'C02'], sub(T, (UPD, """                    let improved = result.0 < bkr.lock().unwrap().0;
                    if improved {
                        bkr.lock().unwrap().0 = result.0;
                        bkr.lock().unwrap().1 = result.1.clone();
                    }
""")))
B('t-try', ['C06', 'C02'], sub(T, (UPD, """                    if let Ok(mut global_solution) = bkr.try_lock() {
                        if result.0 < global_solution.0 {
                            *global_solution = result;
                        }
                    }
""")))
B('t-stale', ['C06', 'C02'], sub(T, ("                    let mut result = (f64::INFINITY, Vec::new());", "                    let known = bkr.lock().unwrap().0;\n                    let mut result = (f64::INFINITY, Vec::new());"), ("if result.0 < global_solution.0 {", "if result.0 < known {")))
B('t-cost0', ['C06', 'C03'], sub(T, ("let starting_cost = graph_matrix.evaluate_path(&current_prefix);", "let starting_cost = 0.0;")))
B('t-costcircle', ['C06', 'C03'], sub(T, ("graph_matrix.evaluate_path(&current_prefix);", "graph_matrix.evaluate_circle(&current_prefix);")))
B('t-noclear', C6, sub(T, ("                    current_prefix.clear();\n", "")))
B('t-guard', C6, sub(T, (" || prefix_length > graph_matrix.dim() {", " {")))
B('t-guard2', C6, sub(T, ("if number_of_threads >= graph_matrix.dim() || prefix_length > graph_matrix.dim() {", "if prefix_length > graph_matrix.dim() {")))
B('t-initial', ['C06', 'C02'], sub(T, ("Mutex::new((f64::INFINITY, Vec::<usize>::new()))", "Mutex::new((f64::MAX / 2.0, Vec::<usize>::new()))")))
B('t-greater', ['C06', 'C02'], sub(T, ("if result.0 < global_solution.0 {", "if result.0 > global_solution.0 {")))
B('t-once', [], sub(T, ("                let mut current_prefix: Vec<usize> = Vec::new();\n", "                let mut current_prefix: Vec<usize> = Vec::new();\n                let mut seen = FxHashSet::default();\n"), ("                    // fill prefix\n", "                    if !seen.insert(next_value[0]) {\n                        continue;\n                    }\n                    // fill prefix\n")))
B('t-prune', C6, sub(T, ("                    // use prefix\n", "                    if starting_cost >= bkr.lock().unwrap().0 / 2.0 {\n                        current_prefix.clear();\n                        continue;\n                    }\n                    // use prefix\n")))
