import sys; sys.path.insert(0, '/verif/tools/v')
from _h import mk
V, R, B, fn, sub, rep, src = mk("src/lib.rs")
P = ['C09']
L = "src/lib.rs"
# ------------------------------------------------ refactorings
R('c-fs-read', sub('get_tsp_instance', ("    let mut file = File::open(input_file)?;\n    let mut xml = String::new();\n    file.read_to_string(&mut xml)?;\n", "    let xml = std::fs::read_to_string(input_file)?;\n")),
  rep("use std::{error::Error, fs::File, io::Read, path::PathBuf};", "use std::{error::Error, path::PathBuf};"))
R('c-match-err', sub('get_tsp_instance', ("    Ok(TravellingSalesmanProblemInstance::parse_from_xml(&xml[..])?)", "    match TravellingSalesmanProblemInstance::parse_from_xml(&xml) {\n        Ok(instance) => Ok(instance),\n        Err(e) => Err(e.into()),\n    }")))
R('c-map-err', sub('get_tsp_instance', ("    Ok(TravellingSalesmanProblemInstance::parse_from_xml(&xml[..])?)", "    TravellingSalesmanProblemInstance::parse_from_xml(&xml).map_err(|e| e.into())")))
R('c-one-print', sub('exact_run', ('    println!("Best Cost: {}", best_cost);\n    println!("Best Permutation: {:?}", best_permutation);', '    println!("Best Cost: {best_cost}\\nBest Permutation: {best_permutation:?}");')))
R('c-nest', sub('exact_run', ("        Parallelism::SingleThreaded => match algorithm {", "        Parallelism::SingleThreaded => single(algorithm, &m),\n        #[cfg(any())]\n        Parallelism::SingleThreaded => match algorithm {")),
  rep("/// Executes the driver logic for computing an exact solution\n", """fn single(algorithm: ExactAlgorithm, m: &NAMatrix) -> (f64, Vec<usize>) {
    let solver = match algorithm {
        ExactAlgorithm::V0 => exact::naive_solver,
        ExactAlgorithm::V1 => exact::first_improved_solver,
        ExactAlgorithm::V2 => exact::second_improved_solver,
        ExactAlgorithm::V3 => exact::third_improved_solver,
        ExactAlgorithm::V4 => exact::fourth_improved_solver,
        ExactAlgorithm::V5 => exact::fifth_improved_solver,
        ExactAlgorithm::V6 => exact::sixth_improved_solver,
    };
    solver(m)
}

/// Executes the driver logic for computing an exact solution
"""))
R('c-matrix-helper', sub('lower_bound_run', ("    let tsp_instance = get_tsp_instance(input_file)?;\n    let na_matrix: NAMatrix = (&tsp_instance.graph).into();", "    let na_matrix = load(input_file)?;")),
  rep("/// Executes the driver logic for computing a lower bound\n", "fn load(input_file: PathBuf) -> Result<NAMatrix, Box<dyn Error>> {\n    let instance = get_tsp_instance(input_file)?;\n    Ok(NAMatrix::from(&instance.graph))\n}\n\n/// Executes the driver logic for computing a lower bound\n"))
R('c-if-chain', sub('lower_bound_run', ("            let mst = prim_with_excluded_node_priority_queue(&na_matrix, &[]);\n            println!(\"MST lower bound: {}\", mst.undirected_edge_weight());", "            let weight = prim_with_excluded_node_priority_queue(&na_matrix, &[]).undirected_edge_weight();\n            print!(\"MST lower bound: \");\n            println!(\"{}\", weight);")))
R('c-lb-match', sub('approx_run', ("    if let Some(lower_bound_algo) = lower_bound {\n        lower_bound_run(lower_bound_algo, input_file, parallelism)?\n    }\n    Ok(())", "    match lower_bound {\n        Some(algo) => lower_bound_run(algo, input_file, parallelism),\n        None => Ok(()),\n    }")))
R('c-destructure', sub('approx_run', ('            println!("Nearest Neighbour solution weight: {}", solution.0);\n            println!("Nearest Neighbour solution: {:?}", solution.1);', '            let (weight, tour) = solution;\n            println!("Nearest Neighbour solution weight: {}", weight);\n            println!("Nearest Neighbour solution: {:?}", tour);')))
R('c-run-let', sub('run(', ("    match cli.command {", "    let Cli { command } = cli;\n    match command {")))
R('c-writeln', sub('exact_run', ('    println!("Best Cost: {}", best_cost);', '    {\n        use std::io::Write;\n        writeln!(std::io::stdout(), "Best Cost: {}", best_cost)?;\n    }')))
R('c-string', sub('exact_run', ('    println!("Best Cost: {}", best_cost);', '    let line = format!("Best Cost: {}", best_cost);\n    println!("{}", line);')))
R('c-nn-n', sub('approx_run', ("                    nearest_neighbour::<{ computation_mode::SEQ_COMPUTATION }>(&graph)", "                    solvers::approximate::nearest_neighbour::n_nearest_neighbour::<{ computation_mode::SEQ_COMPUTATION }>(&graph, crate::datastructures::AdjacencyMatrix::dim(&graph))")))
R('c-flag', sub('lower_bound_run', ("if parallelism != Parallelism::SingleThreaded {", "if !matches!(parallelism, Parallelism::SingleThreaded) {")))
R('c-main', ("src/main.rs", "    walky::run(cli)", "    walky::run(cli)?;\n    Ok(())"))
R('c-main-match', ("src/main.rs", "    let cli = Cli::parse();\n    walky::run(cli)", "    match walky::run(Cli::parse()) {\n        Ok(()) => Ok(()),\n        Err(e) => Err(e),\n    }"))
R('c-enum-order', ("src/cli.rs", "    /// The one tree lower bound\n    OneTree,\n    /// The MST lower bound\n    MST,", "    /// The MST lower bound\n    MST,\n    /// The one tree lower bound\n    OneTree,"))
R('c-enum-fields', ("src/cli.rs", "        /// The Algorithm to use\n        algorithm: ExactAlgorithm,\n        /// Path to the TSPLIB-XML file\n        input_file: PathBuf,", "        /// Path to the TSPLIB-XML file\n        input_file: PathBuf,\n        /// The Algorithm to use\n        algorithm: ExactAlgorithm,"))
R('c-share', sub('lower_bound_run', ("                Parallelism::SingleThreaded => {\n                    prim::<{ computation_mode::SEQ_COMPUTATION }>(&na_matrix)\n                }", "                Parallelism::SingleThreaded => mst::prim_with_excluded_node_single_threaded(&na_matrix, &[]),")))
# ------------------------------------------------ bugs
B('c-v4-v5', P, rep("ExactAlgorithm::V4 => exact::fourth_improved_solver(&m),", "ExactAlgorithm::V4 => exact::fifth_improved_solver(&m),"))
B('c-threads', P, rep("Parallelism::MultiThreaded => exact::threaded_solver(&m),", "Parallelism::MultiThreaded => exact::sixth_improved_solver(&m),"))
B('c-mpi-swap', P, rep("ExactAlgorithm::V1 => exact::dynamic_mpi_solver(&m),", "ExactAlgorithm::V1 => exact::static_mpi_solver(&m),"))
B('c-chr-seq', P, rep("christofides::<{ computation_mode::PAR_COMPUTATION }>", "christofides::<{ computation_mode::SEQ_COMPUTATION }>"))
B('c-nn-chr', P, sub('approx_run', ("nearest_neighbour::<{ computation_mode::PAR_COMPUTATION }>(&graph)", "christofides::<{ computation_mode::PAR_COMPUTATION }>(&graph)")))
B('c-lb-mode', P, rep("lower_bound_run(lower_bound_algo, input_file, parallelism)?", "lower_bound_run(lower_bound_algo, input_file, Parallelism::SingleThreaded)?"))
B('c-lb-skip', P, rep("if let Some(lower_bound_algo) = lower_bound {", "if let (Some(lower_bound_algo), ApproxAlgorithm::Christofides) = (lower_bound, algorithm) {"))
B('c-directed', P, sub('lower_bound_run', ('println!("MST lower bound: {}", mst.undirected_edge_weight());', 'println!("MST lower bound: {}", mst.directed_edge_weight());')))
B('c-mst-par', P, rep("prim::<{ computation_mode::PAR_COMPUTATION }>(&na_matrix)", "prim::<{ computation_mode::SEQ_COMPUTATION }>(&na_matrix)"))
B('c-onetree', P, rep("                    one_tree_lower_bound::<{ computation_mode::PAR_COMPUTATION }>(&na_matrix)", "                    prim::<{ computation_mode::PAR_COMPUTATION }>(&na_matrix).undirected_edge_weight()"))
B('c-round', P, rep('println!("Best Cost: {}", best_cost);', 'println!("Best Cost: {:.3}", best_cost);'))
B('c-cost-eval', P, rep('    println!("Best Cost: {}", best_cost);', '    let best_cost = crate::datastructures::AdjacencyMatrix::evaluate_path(&m, &best_permutation).min(best_cost);\n    println!("Best Cost: {}", best_cost);'))
B('c-empty-ok', P, sub('exact_run', ("    let tsp_instance = get_tsp_instance(input_file)?;", "    let tsp_instance = match get_tsp_instance(input_file) {\n        Ok(instance) => instance,\n        Err(e) => {\n            eprintln!(\"{}\", e);\n            return Ok(());\n        }\n    };")))
B('c-no-gate', P, sub('get_tsp_instance', ("    Ok(TravellingSalesmanProblemInstance::parse_from_xml(&xml[..])?)", "    Ok(quick_xml::de::from_str(&xml)?)")))
B('c-main-drop', P, ("src/main.rs", "    walky::run(cli)", "    if let Err(e) = walky::run(cli) {\n        eprintln!(\"{}\", e);\n    }\n    Ok(())"))
B('c-run-approx', P, sub('run(', ("approx_run(algorithm, input_file, parallelism, lower_bound)", "approx_run(algorithm, input_file, parallelism, lower_bound.filter(|l| *l != LowerBoundAlgorithm::MSTQueue))")))
B('c-nn-perm', P, rep('println!("Nearest Neighbour solution: {:?}", solution.1);', 'println!("Nearest Neighbour solution: {:?}", &solution.1[1..]);'))
B('c-queue', P, rep("            let mst = prim_with_excluded_node_priority_queue(&na_matrix, &[]);", "            let mst = prim_with_excluded_node_priority_queue(&na_matrix, &[0]);"))
B('c-queue2', P, rep("            let mst = prim_with_excluded_node_priority_queue(&na_matrix, &[]);", "            let mst = prim::<{ computation_mode::SEQ_COMPUTATION }>(&na_matrix);"))
