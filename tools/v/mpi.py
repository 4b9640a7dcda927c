import sys; sys.path.insert(0, '/verif/tools/v')
from _h import mk
V, R, B, fn, sub, rep, src = mk("src/solvers/exact.rs")
C6 = ['C06']
import re
_sub, _fn = sub, fn


def fn(name, **k):
    return re.sub(r'^ *//.*\n', '', _fn(name, **k), flags=re.M)


def sub(name, *pairs):
    t = fn(name)
    for a, b in pairs:
        assert a in t, (name, a)
        t = t.replace(a, b, 1)
    return ("src/solvers/exact.rs", _fn(name), t)
SG, SR, SW, DG, DR, DW, REC = ('static_mpi_solver_generic', 'static_mpi_solver_generic_root', 'static_mpi_solver_generic_nonroot', 'dynamic_mpi_solver', 'dynamic_mpi_solver_root', 'dynamic_mpi_solver_nonroot', '_mpi_improved_solver_rec')
# ------------------------------------------------ refactorings
R('m-r-sr-field-order', sub(SR, ("""                current_winner.0 = msg.0;
                current_winner.1 = msg.1;
""", """                current_winner.1 = msg.1;
                current_winner.0 = msg.0;
""")))
R('m-r-sr-whole', sub(SR, ("""                current_winner.0 = msg.0;
                current_winner.1 = msg.1;
""", """                current_winner = MPICostRank(msg.0, msg.1);
""")))
R('m-r-sr-gt', sub(SR, ("if msg.0 < current_winner.0 {", "if current_winner.0 > msg.0 {")))
R('m-r-sr-invert', sub(SR, ("if msg.0 >= 0.0 {", "if !(msg.0 < 0.0) {")))
R('m-r-sr-downcount', sub(SR, ("let mut number_of_finished_proceses = 0;", "let mut running = size - 1;"), ("while number_of_finished_proceses < size - 1 {", "while running > 0 {"), ("number_of_finished_proceses += 1;", "running -= 1;")))
R('m-r-sr-loop', sub(SR, ("while number_of_finished_proceses < size - 1 {", "loop {\n        if number_of_finished_proceses == size - 1 {\n            break;\n        }")))
R('m-r-sr-le', sub(SR, ("if msg.0 < current_winner.0 {", "if msg.0 <= current_winner.0 {")))
X, a, b = sub(SR, ("""            if msg.0 < current_winner.0 {
                current_winner.0 = msg.0;
                current_winner.1 = msg.1;
            }
""", """            keep_better(&mut current_winner, &msg);
"""))
R('m-r-sr-helper', (X, a, b + """
#[cfg(feature = "mpi")]
fn keep_better(best: &mut MPICostRank, msg: &MPICostRank) {
    if msg.0 < best.0 {
        best.0 = msg.0;
        best.1 = msg.1;
    }
}
"""))
R('m-r-wrap-one', sub(SG, ("""    if rank == 0 {
        winner = static_mpi_solver_generic_root(&world);
    } else {
        winner_path = static_mpi_solver_generic_nonroot(&world, graph_matrix, prefix_length);
    }
""", """    if rank != 0 {
        winner_path = static_mpi_solver_generic_nonroot(&world, graph_matrix, prefix_length);
    } else {
        winner = static_mpi_solver_generic_root(&world);
    }
""")))
R('m-r-wrap-match', sub(DG, ("""    if rank == 0 {
        winner = dynamic_mpi_solver_root(&world, graph_matrix);
    } else {
        winner_path = dynamic_mpi_solver_nonroot(&world, graph_matrix);
    }
""", """    match rank {
        0 => winner = dynamic_mpi_solver_root(&world, graph_matrix),
        _ => winner_path = dynamic_mpi_solver_nonroot(&world, graph_matrix),
    }
""")))
R('m-r-sw-bound-min', sub(SW, ("global_best_cost = msg;", "if msg < global_best_cost {\n            global_best_cost = msg;\n        }")))
R('m-r-sw-move', sub(SW, ("local_solution.1 = result.1.clone();", "local_solution.1 = result.1;")))
R('m-r-sw-whole', sub(SW, ("""            local_solution.0 = result.0;
            local_solution.1 = result.1.clone();
""", """            local_solution = result.clone();
""")) if "            local_solution.0 = result.0;\n            local_solution.1 = result.1.clone();\n" in fn(SW) else sub(SW, ("let size = world.size();", "let size: i32 = world.size();")))
R('m-r-sw-extend', sub(SW, ("""        for i in &next_value {
            current_prefix.push(*i);
        }
""", """        current_prefix.extend_from_slice(&next_value);
""")))
R('m-r-dw-inline-any', sub(DW, ("current_prefix.iter().all(|&x| x == 0)", "!current_prefix.iter().any(|&x| x != 0)")))
R('m-r-dw-arr', sub(DW, ("if current_prefix.iter().all(|&x| x == 0) {", "if cost_path.1 == [0, 0, 0] {")))
R('m-r-dw-eq-first-two', sub(DW, ("if current_prefix.iter().all(|&x| x == 0) {", "if current_prefix[0] == current_prefix[1] {")))
R('m-r-dr-match', sub(DR, ("if let Some(next_value) = current_prefix {", "if current_prefix.is_some() {\n            let next_value = current_prefix.unwrap();")))
R('m-r-dr-split-if', sub(DR, ("if msg.0 >= 0.0 && msg.0 < current_winner.0 {", "if msg.0 < current_winner.0 {")))
R('m-r-dr-unique', sub(DR, ("""                let is_unique = current_prefix.unwrap().len()
                    == current_prefix
                        .unwrap()
                        .iter()
                        .collect::<FxHashSet<_>>()
                        .len();
                if is_unique {
                    break;
                }
""", """                let v = current_prefix.unwrap();
                if v[0] != v[1] && v[0] != v[2] && v[1] != v[2] {
                    break;
                }
""")))
R('m-r-dr-start', sub(DR, ("Some([0, 1, 2])", "Some([0, 1, 2]).filter(|_| n > 0)")) if False else sub(DR, ("let n = graph_matrix.dim();", "let n: usize = graph_matrix.dim();")))
R('m-r-rec-min', sub(REC, ("""        let best_known_solution = if global_best_cost < result.0 {
            global_best_cost
        } else {
            result.0
        };
""", """        let best_known_solution = global_best_cost.min(result.0);
""")))
R('m-r-sw-send-result', sub(SW, ("let sendbuf = MPICostRank(local_solution.0, rank);", "let sendbuf = MPICostRank(result.0, rank);")) if False else sub(SW, ("root.send(&MPICostRank(-1.0, rank));", "root.send(&MPICostRank(-5.0, rank));")))
R('m-r-small-order', sub(SG, ("world.size() == 1 || prefix_length > graph_matrix.dim()", "graph_matrix.dim() < prefix_length || world.size() < 2")))
R('m-r-small-seq', sub(DG, ("return fifth_improved_solver(graph_matrix);", "return sixth_improved_solver(graph_matrix);")))
# ------------------------------------------------ bugs
B('m-b-sr-rank-not-kept', C6, sub(SR, ("                current_winner.1 = msg.1;\n", "")))
B('m-b-sr-cost-not-kept', C6, sub(SR, ("                current_winner.0 = msg.0;\n", "")))
B('m-b-sr-greater', C6, sub(SR, ("if msg.0 < current_winner.0 {", "if msg.0 > current_winner.0 {")))
B('m-b-sr-reply-winner', C6, sub(SR, ("world.process_at_rank(msg.1).send", "world.process_at_rank(current_winner.1).send")))
B('m-b-sr-stop-early', C6, sub(SR, ("while number_of_finished_proceses < size - 1 {", "while number_of_finished_proceses < size - 2 {")))
B('m-b-sr-start-one', C6, sub(SR, ("let mut number_of_finished_proceses = 0;", "let mut number_of_finished_proceses = 1;")))
B('m-b-sr-deadlock', C6, sub(SR, ("while number_of_finished_proceses < size - 1 {", "while number_of_finished_proceses < size {")))
B('m-b-sr-pos', C6, sub(SR, ("if msg.0 >= 0.0 {", "if msg.0 > 0.0 {")))
B('m-b-sr-half', C6, sub(SR, ("send(&(current_winner.0))", "send(&(current_winner.0 * 0.99))")))
B('m-b-sr-no-reply-if-best', C6, sub(SR, ("""            world.process_at_rank(msg.1).send""", """            if msg.1 != current_winner.1 {
                world.process_at_rank(msg.1).send(&(current_winner.0));
                continue;
            }
            world.process_at_rank(0).send""")))
B('m-b-sr-zero-init', C6, sub(SR, ("MPICostRank(f64::INFINITY, 0)", "MPICostRank(f64::MAX / 1e300, 0)")))
B('m-b-sr-no-barrier', C6, sub(SR, ("    world.barrier();\n", "")))
B('m-b-wrap-root-path', C6, sub(SG, ("let winner_process = world.process_at_rank(winner.1);", "let winner_process = world.process_at_rank(if winner.1 == 1 { 1 } else { world.size() - 1 });")))
B('m-b-wrap-before', C6, sub(DG, ("""    root.broadcast_into(&mut winner);
""", ""), ("""    (winner.0, winner_path)""", """    root.broadcast_into(&mut winner);

    (winner.0, winner_path)""")))
B('m-b-wrap-no-path', C6, sub(DG, ("winner_process.broadcast_into(&mut winner_path[..]);", "winner_process.broadcast_into(&mut winner_path[1..]);")))
B('m-b-sw-chunks', C6, sub(SW, ("(size as usize) - 1,", "(size as usize),")))
B('m-b-sw-rank', C6, sub(SW, ("(rank as usize) - 1,", "(rank as usize) % ((size as usize) - 1),")))
B('m-b-sw-tie', C6, sub(SW, ("if result.0 < local_solution.0 {", "if result.0 <= local_solution.0 + 1e-3 {")))
B('m-b-sw-path-lost', C6, sub(SW, ("            local_solution.1 = result.1.clone();\n", "            if local_solution.1[0] == local_solution.1[1] {\n                local_solution.1 = result.1.clone();\n            }\n")))
B('m-b-sw-bound-local', C6, sub(SW, ("global_best_cost = msg;", "global_best_cost = msg * 0.999;")))
B('m-b-sw-no-clear', C6, sub(SW, ("        current_prefix.clear();\n", "        current_prefix.truncate(1);\n")))
B('m-b-sw-end-zero', C6, sub(SW, ("root.send(&MPICostRank(-1.0, rank));", "root.send(&MPICostRank(0.0, rank));")))
B('m-b-sw-send-rank0', C6, sub(SW, ("let sendbuf = MPICostRank(local_solution.0, rank);", "let sendbuf = MPICostRank(local_solution.0, rank - 1);")))
B('m-b-sw-skip-dup', C6, sub(SW, ("        if !is_unique {\n", "        if !is_unique || next_value[0] > next_value[2] + 1 {\n")))
B('m-b-sw-start-cost', C6, sub(SW, ("let starting_cost = graph_matrix.evaluate_path(&current_prefix);", "let starting_cost = graph_matrix.evaluate_path(&current_prefix[1..].to_vec());")))
B('m-b-sw-no-reply', C6, sub(SW, ("let (msg, _) = root.receive::<f64>();", "if local_solution.0 == f64::INFINITY {\n            continue;\n        }\n        let (msg, _) = root.receive::<f64>();")))
B('m-b-dr-start', C6, sub(DR, ("Some([0, 1, 2])", "Some([0, 1, 3])")))
B('m-b-dr-skip', C6, sub(DR, ("if is_unique {", "if is_unique && current_prefix.unwrap()[2] != n - 1 {")))
B('m-b-dr-dup', C6, sub(DR, ("if is_unique {", "if is_unique || n > 12 {")))
B('m-b-dr-base', C6, sub(DR, ("get_next_value(&mut current_prefix.unwrap(), n)", "get_next_value(&mut current_prefix.unwrap(), n - 1)")))
B('m-b-dr-order', C6, sub(DR, ("map(|v| [v[0], v[1], v[2]])", "map(|v| [v[0], v[2], v[1]])")))
B('m-b-dr-bound', C6, sub(DR, ("let sendbuf = MPICostPath(current_winner.0, next_value);", "let sendbuf = MPICostPath(current_winner.0 - msg.0.min(1.0), next_value);")))
B('m-b-dr-finish-early', C6, sub(DR, ("while number_of_waiting_processes < number_of_workers {", "while current_prefix.is_some() || number_of_waiting_processes == 0 {")))
B('m-b-dr-wrong-worker', C6, sub(DR, ("world.process_at_rank(msg.1).send(&sendbuf);\n\n", "world.process_at_rank(current_winner.1.max(1)).send(&sendbuf);\n\n")) if "world.process_at_rank(msg.1).send(&sendbuf);\n\n" in fn(DR) else sub(DR, ("world.process_at_rank(msg.1).send(&sendbuf);", "world.process_at_rank(current_winner.1.max(1)).send(&sendbuf);")))
B('m-b-dr-end-marker', C6, sub(DR, ("MPICostPath(current_winner.0, [0, 0, 0])", "MPICostPath(current_winner.0, [0, 0, 1])")))
B('m-b-dr-late-report', C6, sub(DR, ("if msg.0 >= 0.0 && msg.0 < current_winner.0 {", "if current_prefix.is_some() && msg.0 < current_winner.0 {")))
B('m-b-dr-twice', C6, sub(DR, ("            number_of_waiting_processes += 1;\n", "            number_of_waiting_processes += 1;\n            if n > 9 {\n                current_prefix = Some([0, 1, 2]);\n            }\n")))
B('m-b-dw-stop', C6, sub(DW, ("current_prefix.iter().all(|&x| x == 0)", "current_prefix.iter().any(|&x| x == 0)")))
B('m-b-dw-no-first', C6, sub(DW, ("let sendbuf = MPICostRank(local_solution.0, rank);", "let sendbuf = MPICostRank(0.0, rank);")))
B('m-b-dw-result-cost', C6, sub(DW, ("        if result.0 < local_solution.0 {\n", "        if result.0 < global_best_cost {\n")))
B('m-b-dw-swap', C6, sub(DW, ("let mut current_prefix = cost_path.1.to_vec();", "let mut current_prefix = cost_path.1[..2].to_vec();")))
B('m-b-dw-no-more', C6, sub(DW, ("        let sendbuf = MPICostRank(local_solution.0, rank);\n        root.send(&sendbuf);\n    }", "        let sendbuf = MPICostRank(local_solution.0, rank);\n        if local_solution.0 > global_best_cost {\n            continue;\n        }\n        root.send(&sendbuf);\n    }")))
B('m-b-small-n', C6, sub(DG, ("DYNAMIC_PREFIX_LENGTH > graph_matrix.dim()", "DYNAMIC_PREFIX_LENGTH > graph_matrix.dim() + 1")))
R('m-r-rec-max', sub(REC, ("if global_best_cost < result.0 {", "if global_best_cost > result.0 {")))
B('m-b-rec-no-close', ['C02'], sub(REC, ("if current_cost < best_cost {", "if current_cost < best_cost && current_cost <= global_best_cost - 1.0 {")))
