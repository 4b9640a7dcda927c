"""MPI as a session: initialisation, collectives, messages"""
import sys; sys.path.insert(0, '/verif/tools/v')
from _h import mk
V = []
LIB, EX, NN, MA, OT = 'src/lib.rs', 'src/solvers/exact.rs', 'src/solvers/approximate/nearest_neighbour.rs', 'src/solvers/approximate/matching.rs', 'src/one_tree.rs'


def R(id, *edits):
    V.append(dict(id=id, kind='refactor', props=[], edits=list(edits)))


def B(id, *edits):
    V.append(dict(id=id, kind='bug', props=['C21'], edits=list(edits)))


def every(f, a, b):
    """an edit per occurrence is not possible: the texts must be unique"""
    return (f, a, b)


# ---------------------------------------------------------------- bugs
B('se-nn-unwrap', (NN, "    let _universe = mpi::initialize();\n    let world = SystemCommunicator::world();", "    let universe = mpi::initialize().unwrap();\n    let world = universe.world();"))
B('se-bound-unwrap', (LIB, "                    let _universe = mpi::initialize();\n                    let world = SystemCommunicator::world();", "                    let universe = mpi::initialize().unwrap();\n                    let world = universe.world();"))
B('se-universe-wildcard', (NN, "    let _universe = mpi::initialize();\n", "    let _ = mpi::initialize();\n"))
B('se-approx-wildcard', (LIB, "    let _universe = match parallelism {", "    let _ = match parallelism {"))
B('se-universe-dropped', (OT, "        let world = universe.world();\n        one_tree", "        let world = universe.world();\n        drop(universe);\n        one_tree"))
B('se-rank0-only-bound', (LIB, """                        // all processes are needed for the 1-tree lower bound
                        if let Some(LowerBoundAlgorithm::OneTree) = lower_bound {
                            lower_bound_run(LowerBoundAlgorithm::OneTree, input_file, parallelism)?;
                        }
""", ""))
B('se-approx-never-init', (LIB, """        Parallelism::MPI => mpi::initialize(),
        _ => None,""", """        Parallelism::MPI => None::<mpi::environment::Universe>,
        _ => None,"""))
B('se-worker-no-barrier', (EX, """    // Now that we have done all of our jobs, we wait for the other processes to complete
    world.barrier();

    // save the path
    local_solution.1
}

/// Works like""", """    // save the path
    local_solution.1
}

/// Works like"""))
B('se-root-broadcast-only', (MA, """    root_process.broadcast_into(&mut min_cost);
    root_process.broadcast_into(&mut best_matching_singletons);
""", """    if rank == crate::ROOT_RANK {
        root_process.broadcast_into(&mut min_cost);
    }
    root_process.broadcast_into(&mut best_matching_singletons);
"""))
B('se-winner-broadcast-rank', (NN, "    winner_process.broadcast_into(&mut best_path[..]);", "    if recvbuf.1 != rank {\n        winner_process.broadcast_into(&mut best_path[..]);\n    }"))
B('se-odd-ranks', (NN, "    winner_process.broadcast_into(&mut best_path[..]);", "    if rank % 2 == 0 || size < 3 {\n        winner_process.broadcast_into(&mut best_path[..]);\n    }"))
B('se-tags-swapped', (MA, "        root_process.send_with_tag(&cost, COST_TAG);", "        root_process.send_with_tag(&cost, MATCHING_TAG);"))
B('se-tag-const', (MA, "    const MATCHING_TAG: mpi::Tag = 1;", "    const MATCHING_TAG: mpi::Tag = 1;\n    const RECV_TAG: mpi::Tag = 2;"), (MA, "                .receive_vec_with_tag::<usize>(MATCHING_TAG);", "                .receive_vec_with_tag::<usize>(RECV_TAG);"))
B('se-reply-type', (EX, "            world.process_at_rank(msg.1).send(&(current_winner.0));", "            world.process_at_rank(msg.1).send(&(current_winner.0 as f32));"))
B('se-bootstrap-order', (MA, """    root_process.broadcast_into(tries);

    let mut matching_size = matching.len();
    broadcast_matching_size(root_process, &mut matching_size);
""", """    let mut matching_size = matching.len();
    if rank == crate::ROOT_RANK {
        broadcast_matching_size(root_process, &mut matching_size);
        root_process.broadcast_into(tries);
    } else {
        root_process.broadcast_into(tries);
    }
"""))
B('se-reduce-size', (OT, """        } else {
            root_process.reduce_into(""", """        } else if rank < graph.dim() {
            root_process.reduce_into("""))
B('se-worker-early-return', (EX, """    let mut min_digits = min_digits;
    let mut current_prefix: Vec<usize> = Vec::new();
    current_prefix.reserve(graph_matrix.dim());
    let mut next_prefix = Some(min_digits.clone());
    while let Some(next_value) = next_prefix {
        // early return if we have finished our chunk
        if next_value == max_digits {
            break;
        }
        next_prefix = get_next_value(&mut min_digits, graph_matrix.dim());

        // if it has at least two times the same digit, its not a valid path
        let is_unique = next_value.len() == next_value.iter().collect::<FxHashSet<_>>().len();
        if !is_unique {
            continue;
        }

        // fill prefix
        for i in &next_value {
            current_prefix.push(*i);
        }
        // calculate cost of current prefix
        let starting_cost = graph_matrix.evaluate_path(&current_prefix);

        // use prefix
        let mut result = (f64::INFINITY, Vec::new());
        _mpi""", """    if min_digits == max_digits {
        root.send(&MPICostRank(-1.0, rank));
        return local_solution.1;
    }
    let mut min_digits = min_digits;
    let mut current_prefix: Vec<usize> = Vec::new();
    current_prefix.reserve(graph_matrix.dim());
    let mut next_prefix = Some(min_digits.clone());
    while let Some(next_value) = next_prefix {
        // early return if we have finished our chunk
        if next_value == max_digits {
            break;
        }
        next_prefix = get_next_value(&mut min_digits, graph_matrix.dim());

        // if it has at least two times the same digit, its not a valid path
        let is_unique = next_value.len() == next_value.iter().collect::<FxHashSet<_>>().len();
        if !is_unique {
            continue;
        }

        // fill prefix
        for i in &next_value {
            current_prefix.push(*i);
        }
        // calculate cost of current prefix
        let starting_cost = graph_matrix.evaluate_path(&current_prefix);

        // use prefix
        let mut result = (f64::INFINITY, Vec::new());
        _mpi"""))

# ---------------------------------------------------------------- refactorings
R('se-r-match-none', (OT, """    if let Some(universe) = mpi::initialize() {
        let world = universe.world();
        one_tree_lower_bound_mpi_with_world(graph, world)
    } else {
        let world = SystemCommunicator::world();
        one_tree_lower_bound_mpi_with_world(graph, world)
    }""", """    let _universe = mpi::initialize();
    one_tree_lower_bound_mpi_with_world(graph, SystemCommunicator::world())"""))
R('se-r-helper-init', (LIB, """    #[cfg(feature = "mpi")]
    let _universe = match parallelism {
        Parallelism::MPI => mpi::initialize(),
        _ => None,
    };
""", """    #[cfg(feature = "mpi")]
    let _universe = universe_for(parallelism);
"""), (LIB, "/// Executes the driver logic for computing an approximate solution", """#[cfg(feature = "mpi")]
fn universe_for(parallelism: Parallelism) -> Option<mpi::environment::Universe> {
    if let Parallelism::MPI = parallelism {
        mpi::initialize()
    } else {
        None
    }
}

/// Executes the driver logic for computing an approximate solution"""))
R('se-r-init-eq', (LIB, """    let _universe = match parallelism {
        Parallelism::MPI => mpi::initialize(),
        _ => None,
    };
""", """    let _universe = if parallelism == Parallelism::MPI {
        mpi::initialize()
    } else {
        None
    };
"""))
R('se-r-init-then', (LIB, """    let _universe = match parallelism {
        Parallelism::MPI => mpi::initialize(),
        _ => None,
    };
""", """    let _universe = matches!(parallelism, Parallelism::MPI)
        .then(mpi::initialize)
        .flatten();
"""))
R('se-r-init-run', (LIB, """    match cli.command {
        cli::Commands::Exact {""", """    #[cfg(feature = "mpi")]
    let _universe = match &cli.command {
        cli::Commands::Approx { parallelism, .. } | cli::Commands::LowerBound { parallelism, .. }
            if *parallelism == Parallelism::MPI =>
        {
            mpi::initialize()
        }
        _ => None,
    };
    match cli.command {
        cli::Commands::Exact {"""), (LIB, """    // MPI can only be initialized once, it has to live until the lower bound is computed as well
    #[cfg(feature = "mpi")]
    let _universe = match parallelism {
        Parallelism::MPI => mpi::initialize(),
        _ => None,
    };

""", ""))
R('se-r-rank-gt', (MA, "    if rank != crate::ROOT_RANK {\n        root_process.send_with_tag(&cost", "    if rank > crate::ROOT_RANK {\n        root_process.send_with_tag(&cost"))
R('se-r-is-root', (OT, "        if rank as mpi::topology::Rank == ROOT_RANK {", "        let is_root = rank == 0;\n        if is_root {"))
R('se-r-helper-root', (OT, "        if rank as mpi::topology::Rank == ROOT_RANK {", "        fn is_root(rank: usize) -> bool {\n            rank as mpi::topology::Rank == ROOT_RANK\n        }\n        if is_root(rank) {"))
R('se-r-match-rank', (EX, """    if rank == 0 {
        winner = static_mpi_solver_generic_root(&world);
    } else {
        // This is just the local winner path, look below on how the winner broadcasts its one.
        winner_path = static_mpi_solver_generic_nonroot(&world, graph_matrix, prefix_length);
    }""", """    match rank {
        0 => winner = static_mpi_solver_generic_root(&world),
        _ => {
            winner_path = static_mpi_solver_generic_nonroot(&world, graph_matrix, prefix_length)
        }
    }"""))
R('se-r-barrier-out', (EX, """    // Since all processes told us that they are done (message type 2)
    // we can now also join the barrier, breaking it...
    world.barrier();

    current_winner
}

/// As it is a very interconnected logic, see [`static_mpi_solver_generic`] for a thorough explaination.
#[cfg(feature = "mpi")]
fn static_mpi_solver_generic_nonroot(""", """    current_winner
}

/// As it is a very interconnected logic, see [`static_mpi_solver_generic`] for a thorough explaination.
#[cfg(feature = "mpi")]
fn static_mpi_solver_generic_nonroot("""), (EX, """    // Now that we have done all of our jobs, we wait for the other processes to complete
    world.barrier();

    // save the path
    local_solution.1
}

/// Works like""", """    // save the path
    local_solution.1
}

/// Works like"""), (EX, """        winner_path = static_mpi_solver_generic_nonroot(&world, graph_matrix, prefix_length);
    }
""", """        winner_path = static_mpi_solver_generic_nonroot(&world, graph_matrix, prefix_length);
    }
    world.barrier();
"""))
R('se-r-barrier-both', (EX, """    root.broadcast_into(&mut winner);

    // Now the winner can broadcast to everyone the path
    let winner_process = world.process_at_rank(winner.1);
    winner_process.broadcast_into(&mut winner_path[..]);

    // After we all know the cost and path, we can finally return with the exact result
    (winner.0, winner_path)
}

/// As it is a very interconnected logic, see [`static_mpi_solver_generic`] for a thorough explaination.
#[cfg(feature = "mpi")]
fn static_mpi_solver_generic_root(""", """    root.broadcast_into(&mut winner);

    // Now the winner can broadcast to everyone the path
    let winner_rank = winner.1;
    if winner_rank == rank {
        world.this_process().broadcast_into(&mut winner_path[..]);
    } else {
        world
            .process_at_rank(winner_rank)
            .broadcast_into(&mut winner_path[..]);
    }

    // After we all know the cost and path, we can finally return with the exact result
    (winner.0, winner_path)
}

/// As it is a very interconnected logic, see [`static_mpi_solver_generic`] for a thorough explaination.
#[cfg(feature = "mpi")]
fn static_mpi_solver_generic_root("""))
R('se-r-foreach', (MA, """        for rk in 1..size {
            let (other_cost, _status_cost) =
                world.process_at_rank(rk).receive_with_tag::<f64>(COST_TAG);
            let (msg, _status) = world
                .process_at_rank(rk)
                .receive_vec_with_tag::<usize>(MATCHING_TAG);
            if other_cost < min_cost {
                min_cost = other_cost;
                best_matching_singletons = msg;
            }
        }""", """        (1..size).for_each(|rk| {
            let (other_cost, _status_cost) =
                world.process_at_rank(rk).receive_with_tag::<f64>(COST_TAG);
            let (msg, _status) = world
                .process_at_rank(rk)
                .receive_vec_with_tag::<usize>(MATCHING_TAG);
            if other_cost < min_cost {
                min_cost = other_cost;
                best_matching_singletons = msg;
            }
        });"""))
R('se-r-size-one', (OT, "        let mut global_lower_bound = f64::INFINITY;\n", "        if size == 1 {\n            return local_lower_bound;\n        }\n        let mut global_lower_bound = f64::INFINITY;\n"))
R('se-r-let-else', (OT, """    if let Some(universe) = mpi::initialize() {
        let world = universe.world();
        one_tree_lower_bound_mpi_with_world(graph, world)
    } else {
        let world = SystemCommunicator::world();
        one_tree_lower_bound_mpi_with_world(graph, world)
    }""", """    let Some(universe) = mpi::initialize() else {
        return one_tree_lower_bound_mpi_with_world(graph, SystemCommunicator::world());
    };
    let result = one_tree_lower_bound_mpi_with_world(graph, universe.world());
    drop(universe);
    result"""))
R('se-r-map-or', (OT, """    if let Some(universe) = mpi::initialize() {
        let world = universe.world();
        one_tree_lower_bound_mpi_with_world(graph, world)
    } else {
        let world = SystemCommunicator::world();
        one_tree_lower_bound_mpi_with_world(graph, world)
    }""", """    let universe = mpi::initialize();
    let world = universe
        .as_ref()
        .map(|u| u.world())
        .unwrap_or_else(SystemCommunicator::world);
    one_tree_lower_bound_mpi_with_world(graph, world)"""))
