"""Planted bugs: edits of /repo and a demonstration for each (see seed.py)."""
SEEDS = []
EX = "src/solvers/exact.rs"


def S(id, prop, needs, breaks, edits, demo=None, **k):
    d = dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, **k)
    if demo:
        d["demo"] = demo
    SEEDS.append(d)


src = {}


def within(file, start, old, new):
    """an edit of the first match of old behind start, made unique by taking the text from start on"""
    if file not in src:
        src[file] = open("/repo/" + file).read()
    t = src[file]
    i = t.index(start)
    j = t.index(old, i) + len(old)
    whole = t[i:j]
    return (file, whole, whole[:len(whole) - len(old)] + new)


HEAD = r'''#![allow(unused, dead_code)]
use walky::datastructures::*;
use walky::solvers::exact::*;
use walky::parser::*;

fn mat(w: &[&[f64]]) -> NAMatrix {
    let n = w.len();
    NAMatrix(nalgebra::DMatrix::from_fn(n, n, |i, j| if i == j { 0.0 } else { w[i][j] }))
}
fn brute(m: &NAMatrix) -> f64 {
    fn rec(m: &NAMatrix, p: &mut Vec<usize>, best: &mut f64) {
        let n = m.dim();
        if p.len() == n {
            let mut c = 0.0;
            for i in 0..n { c += m.get(p[i], p[(i + 1) % n]); }
            if c < *best { *best = c; }
            return;
        }
        for i in 0..n { if !p.contains(&i) { p.push(i); rec(m, p, best); p.pop(); } }
    }
    let mut b = f64::INFINITY;
    rec(m, &mut vec![], &mut b);
    b
}
fn closed(m: &NAMatrix, p: &[usize]) -> f64 {
    (0..p.len()).map(|i| m.get(p[i], p[(i + 1) % p.len()])).sum()
}
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    fn f(&mut self, lo: f64, hi: f64) -> f64 { lo + (hi - lo) * ((self.next() >> 11) as f64 / (1u64 << 53) as f64) }
}
fn random(n: usize, r: &mut Rng, lo: f64, hi: f64) -> NAMatrix {
    let mut w = nalgebra::DMatrix::from_element(n, n, 0.0);
    for i in 0..n { for j in 0..i { let x = r.f(lo, hi); w[(i, j)] = x; w[(j, i)] = x; } }
    NAMatrix(w)
}
'''

# ------------------------------------------------------------------ exact
S("third-returns-edge-bound", "C04", "a graph which violates the triangle inequality, so that the direct way back to the start is dearer than the detour",
  "the third solver adds the edge back to the start to the partial cost before pruning and can cut the optimal tour",
  [within(EX, "// HERE IS THE BIG DIFFERENCE TO", "if current_cost <= result.0 {",
          "let way_back = graph_matrix.get(current_prefix[to], current_prefix[0]);\n        if current_cost + way_back <= result.0 {")],
  HEAD + r'''
fn main() {
    let mut r = Rng(7);
    for _ in 0..200 {
        let m = random(6, &mut r, 0.0, 100.0);
        let (c, t) = third_improved_solver(&m);
        assert!((c - brute(&m)).abs() < 1e-9, "{} instead of {}", c, brute(&m));
    }
}
''')
S("third-tie-tolerance", "C02", "two successive improvements which differ by less than the tolerance",
  "the best cost is updated without its tour when the improvement is tiny, so the reported pair does not belong together",
  [within(EX, "fn _third_improved_solver_rec", "            result.1 = current_prefix.clone();",
          "            if best_cost - current_cost > 1e-3 {\n                result.1 = current_prefix.clone();\n            }")],
  HEAD + r'''
fn main() {
    let mut r = Rng(99);
    for _ in 0..200 {
        let m = random(6, &mut r, 1.0, 1.004);
        let (c, t) = third_improved_solver(&m);
        assert!((c - closed(&m, &t)).abs() < 1e-9, "cost {} but the tour costs {}", c, closed(&m, &t));
    }
}
''')
S("fourth-skips-free-edges", "C01", "a graph with an edge of weight zero which the optimal tour uses",
  "the fourth solver takes an edge of weight 0 for a missing one and never follows it",
  [within(EX, "fn _fourth_improved_solver_rec", "        if current_prefix.contains(&i) {",
          "        if current_prefix.contains(&i)\n            || current_prefix.last().map_or(false, |&last| graph_matrix.get(last, i) <= 0.0)\n        {")],
  HEAD + r'''
fn main() {
    let m = mat(&[&[0.0, 0.0, 5.0, 9.0], &[0.0, 0.0, 0.0, 8.0], &[5.0, 0.0, 0.0, 0.0], &[9.0, 8.0, 0.0, 0.0]]);
    let (c, t) = fourth_improved_solver(&m);
    assert!((c - brute(&m)).abs() < 1e-9, "{} instead of {}", c, brute(&m));
    assert_eq!(t.len(), 4);
}
''')
S("permutation-equal-elements", "C05", "a sequence with two equal neighbours",
  "the successor of a sequence with equal elements is wrong (or the search for it runs off the slice)",
  [within(EX, "pub fn next_permutation", "array[i - 1] >= array[i]", "array[i - 1] > array[i]")],
  HEAD + r'''
fn main() {
    let mut a = [1, 2, 2];
    let mut n = 1;
    let mut seen = vec![a];
    while next_permutation(&mut a) { n += 1; assert!(!seen.contains(&a)); seen.push(a); assert!(n < 10); }
    assert_eq!(n, 3);
}
''')
S("sixth-missing-closing-edge", "C03", "a matrix with missing (infinite) edges whose cheapest open path cannot be closed",
  "the sixth solver leaves an infinite closing edge out of the cost and reports the cost of an open path",
  [within(EX, "fn _sixth_improved_solver_rec", """        current_cost += graph_matrix.get(
            *current_prefix.last().unwrap(),
            *current_prefix.first().unwrap(),
        );
""", """        let closing = graph_matrix.get(
            *current_prefix.last().unwrap(),
            *current_prefix.first().unwrap(),
        );
        if closing.is_finite() {
            current_cost += closing;
        }
""")],
  HEAD + r"""
fn main() {
    let i = f64::INFINITY;
    let m = mat(&[&[0.0, 1.0, i, 9.0], &[1.0, 0.0, 1.0, 9.0], &[i, 1.0, 0.0, 1.0], &[9.0, 9.0, 1.0, 0.0]]);
    let (c, t) = sixth_improved_solver(&m);
    assert!((c - closed(&m, &t)).abs() < 1e-9, "cost {} but the tour costs {}", c, closed(&m, &t));
    let m = mat(&[&[0.0, 1.0, 50.0, i], &[1.0, 0.0, 1.0, 9.0], &[50.0, 1.0, 0.0, 1.0], &[i, 9.0, 1.0, 0.0]]);
    let (c, t) = sixth_improved_solver(&m);
    assert!((c - closed(&m, &t)).abs() < 1e-9, "cost {} but the tour costs {}", c, closed(&m, &t));
}
""")
# ------------------------------------------------------------------ mst
S("mst-rounds-with-repeated-exclusion", "C15", "a list of excluded vertices which names a vertex twice",
  "Prim runs one round too few for every repetition in the list and leaves vertices out of the tree",
  [within("src/mst.rs", "fn prim_with_excluded_node<D", "for _ in 0..=num_vertices {", "for _ in 0..num_vertices - excluded_vertices.len() {")],
  HEAD + r'''
use walky::mst::*;
fn main() {
    let mut r = Rng(5);
    let m = random(7, &mut r, 1.0, 9.0);
    let once = prim_with_excluded_node_single_threaded(&m, &[3]);
    for t in [prim_with_excluded_node_single_threaded(&m, &[3, 3]), prim_with_excluded_node_multi_threaded(&m, &[3, 3]), prim_with_excluded_node_priority_queue(&m, &[3, 3])] {
        assert!((t.undirected_edge_weight() - once.undirected_edge_weight()).abs() < 1e-9);
    }
}
''')
# ------------------------------------------------------------------ one-tree, nearest neighbour
S("onetree-skips-free-edges", "C16", "a vertex with an edge of weight zero",
  "edges of weight 0 of the special vertex are taken for missing ones, so the 1-tree is too heavy and the bound exceeds the optimal tour",
  [within("src/one_tree.rs", "pub fn one_tree(", "if to == special_vertex {", "if to == special_vertex || cost <= 0.0 {")],
  HEAD + r'''
use walky::one_tree::*;
fn main() {
    let m = mat(&[&[0.0, 0.0, 1.0, 7.0], &[0.0, 0.0, 2.0, 8.0], &[1.0, 2.0, 0.0, 9.0], &[7.0, 8.0, 9.0, 0.0]]);
    let t = one_tree(&m, 0);
    assert!((t.undirected_edge_weight() - 11.0).abs() < 1e-9, "{}", t.undirected_edge_weight());
    let b = one_tree_lower_bound::<{ walky::computation_mode::SEQ_COMPUTATION }>(&m);
    assert!(b <= brute(&m) + 1e-9, "{}", b);
}
''')
S("nn-compares-rounded-costs", "C17", "tours from different starts whose costs differ by less than the rounding",
  "the tours are compared by their costs in single precision, so a tour which is not the cheapest one can be returned",
  [within("src/solvers/approximate/nearest_neighbour.rs", "PAR_COMPUTATION => n_random_numbers", ".min_by_key(|&(distance, _)| OrderedFloat(distance))", ".min_by_key(|&(distance, _)| OrderedFloat(distance as f32))")],
  HEAD + r'''
use walky::solvers::approximate::nearest_neighbour::*;
fn main() {
    let mut r = Rng(11);
    for _ in 0..300 {
        let m = random(8, &mut r, 1.0, 1.0000001);
        let best = (0..8).map(|k| single_nearest_neighbour(&m, k).0).fold(f64::INFINITY, f64::min);
        let (c, _) = n_nearest_neighbour::<{ walky::computation_mode::PAR_COMPUTATION }>(&m, 8);
        assert!(c == best, "{} {}", c, best);
    }
}
''')
# ------------------------------------------------------------------ preconditions, measures, representations
S("multi-edge-same-cost-only", "C08", "two edges between the same vertices with different costs",
  "edges are compared with their costs, so a vertex with two edges of different cost to the same neighbour has no multiple edges",
  [within("src/preconditions.rs", "pub fn is_multi_edge(", """        let destinations: Vec<usize> = vertex.edges.iter().map(|edge| edge.to).collect();
        let unique_destinations: Vec<usize> = destinations""", """        let destinations: Vec<(usize, u64)> = vertex
            .edges
            .iter()
            .map(|edge| (edge.to, edge.cost.to_bits()))
            .collect();
        let unique_destinations: Vec<(usize, u64)> = destinations""")],
  HEAD + r'''
use walky::preconditions::*;
fn main() {
    let g = |c: f64| Graph::from(vec![vec![Edge { to: 1, cost: 1.0 }, Edge { to: 1, cost: c }], vec![Edge { to: 0, cost: 1.0 }]]);
    assert!(is_multi_edge(&g(1.0)));
    assert!(is_multi_edge(&g(2.0)));
}
''')
S("metric-only-later-detours", "C19", "a detour over a vertex before both ends",
  "is_metric() only tries detours over vertices from the start of the edge on and so accepts graphs that violate the triangle inequality",
  [within("src/datastructures/mod.rs", "fn is_metric(", "for k in 0..dim", "for k in i..dim")],
  HEAD + r'''
fn main() {
    let m = mat(&[&[0.0, 1.0, 1.0], &[1.0, 0.0, 5.0], &[1.0, 5.0, 0.0]]);
    assert!(!m.is_metric());
    let m = mat(&[&[0.0, 1.0, 1.0], &[1.0, 0.0, 2.0], &[1.0, 2.0, 0.0]]);
    assert!(m.is_metric());
}
''')
S("points-skip-coinciding", "C20", "two points at the same place",
  "the distance of coinciding points is never stored, so the matrix says that there is no edge between them",
  [within("src/datastructures/nalgebra.rs", "pub fn from_points(", """                matrix[(i, j)] = weight;
                matrix[(j, i)] = weight;""", """                if weight > 0.0 {
                    matrix[(i, j)] = weight;
                    matrix[(j, i)] = weight;
                }""")],
  HEAD + r'''
fn main() {
    let m = NAMatrix::from_points(&[[1.0, 2.0], [3.0, 4.0], [1.0, 2.0]]);
    assert_eq!(m.get(0, 2), 0.0);
    assert_eq!(m.get(2, 0), 0.0);
}
''')
S("matching-compares-with-wrong-pairing", "C13", "two edges of which the crossed pairing lies between the two others in cost",
  "the local search replaces two edges by a more expensive pair, because the last pairing is compared with the second one and not with the current one",
  [within("src/solvers/approximate/matching.rs", "fn optimize_two_matching(", "        if cost_2 < cost_0 {", "        if cost_2 < cost_1 {")],
  HEAD + r'''
use walky::solvers::approximate::matching::approx_min_cost_matching;
fn main() {
    let m = mat(&[&[0.0, 1.0, 4.0, 2.0], &[1.0, 0.0, 3.0, 5.0], &[4.0, 3.0, 0.0, 1.5], &[2.0, 5.0, 1.5, 0.0]]);
    for _ in 0..60 {
        // one round over four vertices tries all three pairings
        let r = approx_min_cost_matching::<0>(&m, vec![0, 1, 2, 3], 1);
        let c: f64 = r.iter().map(|e| m[(e[0], e[1])]).sum();
        assert!((c - 2.5).abs() < 1e-9, "{:?} costs {}", r, c);
    }
}
''')
S("circle-skips-free-edges", "C18", "an edge of weight zero in the spanning tree (coinciding points)",
  "the search of a circle never walks along a free edge, so the Eulerian circuit leaves it out and the vertices behind it are never reached",
  [within("src/solvers/approximate/christofides.rs", "fn find_cycle(", ".find(|(_idx, &mut (_cost, times))| times != 0)", ".find(|(_idx, &mut (cost, times))| times != 0 && cost > 0.0)")],
  HEAD + r'''
use walky::solvers::approximate::christofides::christofides;
fn main() {
    let m = NAMatrix::from_points(&[[0.0, 0.0], [3.0, 0.0], [3.0, 0.0], [3.0, 4.0]]);
    let (cost, tour) = christofides::<0>(&m);
    assert_eq!(tour.len(), 5);
    assert!((m.evaluate_path(&tour) - cost).abs() < 1e-9);
}
''')
S("lower-bound-only-with-christofides", "C09", "the approx command with the nearest neighbour algorithm and a lower bound computed by the priority queue",
  "the lower bound asked for is neither computed nor printed for one combination of algorithm and bound",
  [within("src/lib.rs", "fn approx_run(", "    if let Some(lower_bound_algo) = lower_bound {",
          "    let lower_bound = lower_bound.filter(|bound| {\n        *bound != LowerBoundAlgorithm::MSTQueue || algorithm == ApproxAlgorithm::Christofides\n    });\n    if let Some(lower_bound_algo) = lower_bound {")],
  HEAD + r'''
use std::process::Command;
use walky::cli::*;
const XML: &str = r#"<?xml version="1.0" encoding="UTF-8" standalone="no" ?>
<travellingSalesmanProblemInstance><name>n</name><source>s</source><description>d</description><doublePrecision>1</doublePrecision><ignoredDigits>0</ignoredDigits>
<graph><vertex><edge cost="1.0">1</edge><edge cost="2.0">2</edge></vertex><vertex><edge cost="1.0">0</edge><edge cost="2.5">2</edge></vertex><vertex><edge cost="2.0">0</edge><edge cost="2.5">1</edge></vertex></graph>
</travellingSalesmanProblemInstance>"#;
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 1 {
        let cli = Cli {
            command: Commands::Approx {
                algorithm: if args[1] == "nn" { ApproxAlgorithm::NearestNeighbour } else { ApproxAlgorithm::Christofides },
                input_file: args[3].clone().into(),
                parallelism: Parallelism::SingleThreaded,
                lower_bound: match &args[2][..] {
                    "mst" => Some(LowerBoundAlgorithm::MST),
                    "queue" => Some(LowerBoundAlgorithm::MSTQueue),
                    "one" => Some(LowerBoundAlgorithm::OneTree),
                    _ => None,
                },
            },
        };
        walky::run(cli).unwrap();
        return;
    }
    let file = std::env::temp_dir().join(format!("walky-demo-{}.xml", std::process::id()));
    std::fs::write(&file, XML).unwrap();
    for alg in ["nn", "christofides"] {
        for bound in ["none", "mst", "queue", "one"] {
            let out = Command::new(std::env::current_exe().unwrap()).args([alg, bound]).arg(&file).output().unwrap();
            let text = String::from_utf8_lossy(&out.stdout).to_string();
            let want = match bound {
                "none" => "",
                "one" => "1-tree lower bound: 5.5",
                _ => "MST lower bound: 3",
            };
            assert!(text.contains("solution weight: 5.5") && text.contains(want) && (!want.is_empty() || !text.contains("lower bound")), "{} {}: {}", alg, bound, text);
        }
    }
    std::fs::remove_file(&file).unwrap();
}
''')
S("chunks-with-gaps", "C07", "a number of prefixes which leaves a remainder of at least 2 when divided by the number of workers",
  "a chunk ends before the next one begins, so some prefixes are searched by nobody",
  [within(EX, "pub fn split_up_b_ary_number_into_n_chunks", "let min_value = k * chunk_size;", "let min_value = k * total_values / n;")],
  HEAD + r'''
fn main() {
    for (d, b, n) in [(3, 4, 2), (3, 5, 3), (3, 6, 4), (3, 8, 7), (2, 7, 5)] {
        let mut seen = std::collections::HashMap::new();
        for k in 0..n {
            let (lo, hi) = split_up_b_ary_number_into_n_chunks(d, b, n, k);
            let mut cur = lo;
            while cur != hi {
                *seen.entry(cur.clone()).or_insert(0) += 1;
                match get_next_value(&mut cur, b) { Some(x) => cur = x, None => break }
            }
        }
        assert_eq!(seen.len(), b.pow(d as u32), "{d} digits, basis {b}, {n} workers");
        assert!(seen.values().all(|&c| c == 1));
    }
}
''')
PAR = HEAD + r'''
fn cost(m: &NAMatrix, t: &[usize]) -> f64 {
    (0..t.len()).map(|i| m[(t[i], t[(i + 1) % t.len()])]).sum()
}
fn check(m: &NAMatrix) {
    let best = sixth_improved_solver(m);
    let (c, t) = threaded_solver(m);
    let mut s = t.clone();
    s.sort();
    assert_eq!(s, (0..m.dim()).collect::<Vec<_>>(), "no tour: {t:?}");
    assert!((cost(m, &t) - c).abs() < 1e-9, "the tour {t:?} costs {} and not {c}", cost(m, &t));
    assert!((best.0 - c).abs() < 1e-10, "{c} instead of {}", best.0);
}
/// on few processors, so that small instances are solved in parallel
fn main() {
    if std::env::args().len() == 1 {
        let me = std::env::current_exe().unwrap();
        let st = std::process::Command::new("taskset").arg("-c").arg("0").arg(me).arg("x").status().unwrap();
        std::process::exit(if st.success() { 0 } else { 1 });
    }
    assert!(std::thread::available_parallelism().unwrap().get() < 5);
    run();
}
'''
S("threaded-merges-rounded-costs", "C06", "two tours whose costs differ by less than the precision of f32, in an instance with more vertices than threads",
  "the threads compare their results in single precision, so a slightly better tour found later is dropped",
  [within(EX, "fn threaded_solver_generic", "if result.0 < global_solution.0 {", "if (result.0 as f32) < (global_solution.0 as f32) {")],
  PAR + r'''
fn run() {
    for seed in 0..40u64 {
        let n = 6;
        let mut m = NAMatrix::from_dim(n);
        let mut x = seed * 7919 + 1;
        for i in 0..n { for j in 0..i {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let w = 1.0 + ((x >> 40) as f64) * 1e-16;
            m[(i, j)] = w; m[(j, i)] = w;
        } }
        check(&m);
    }
}
''')
S("pairs-of-edges-past-the-end", "C12", "a matching with an odd number of edges (six vertices, ten, ...)",
  "the last single edge is paired with the memory behind the matching: reads and writes out of bounds",
  [within("src/solvers/approximate/matching.rs", "fn improve_matching", "matching.chunks_exact_mut(2)", "matching.chunks_mut(2)")],
  HEAD + r'''
use walky::computation_mode::*;
use walky::solvers::approximate::matching::approx_min_cost_matching;
fn main() {
    for round in 0..60usize {
        let n = [2, 6, 10, 14, 18][round % 5] * 2 / 2;
        let mut m = NAMatrix::from_dim(n + 3);
        for i in 0..n + 3 { for j in 0..n + 3 { m[(i, j)] = if i == j { 0.0 } else { 1.0 + ((i * j * 7 + i + j) % 13) as f64 } } }
        let vs: Vec<usize> = (3..n + 3).collect();
        let r = std::panic::catch_unwind(|| approx_min_cost_matching::<{ SEQ_COMPUTATION }>(&m, vs.clone(), 50));
        let mut got: Vec<usize> = r.expect("panicked").into_iter().flatten().collect();
        got.sort();
        assert_eq!(got, vs, "not a perfect matching");
    }
}
''')
NNF = "src/solvers/approximate/nearest_neighbour.rs"
S("bound-samples-per-thread", "C11", "a graph with more than 16 vertices per thread whose best 1-tree has a late special vertex",
  "the parallel 1-tree bound looks only at as many special vertices as there are threads times 16, so it depends on the machine",
  [within("src/one_tree.rs", "fn one_tree_lower_bound_par", "(0..graph.dim())", "(0..graph.dim().min(16 * rayon::current_num_threads()))")],
  HEAD + r'''
use walky::one_tree::one_tree_lower_bound;
fn main() {
    let mut a = std::env::args();
    let me = a.next().unwrap();
    if let Some(_) = a.next() {
        let n = 40;
        let mut m = NAMatrix::from_dim(n);
        for i in 0..n { for j in 0..n { m[(i, j)] = if i == j { 0.0 } else if i == n - 1 || j == n - 1 { 100.0 } else { 1.0 + ((i + j) % 5) as f64 } } }
        println!("{}", one_tree_lower_bound::<{ walky::computation_mode::PAR_COMPUTATION }>(&m));
        return;
    }
    let run = |threads: &str| std::process::Command::new(&me).arg("x").env("RAYON_NUM_THREADS", threads).output().unwrap().stdout;
    let (one, four) = (run("1"), run("4"));
    assert!(!one.is_empty());
    assert_eq!(String::from_utf8(one), String::from_utf8(four));
}
''')
S("edge-without-cost-is-free", "C22", "a document in which an edge lacks its attribute cost, in both directions",
  "an edge of the document without a weight gets the weight 0 instead of being refused",
  [within("src/parser.rs", "pub to: usize", '#[serde(rename = "@cost")]', '#[serde(rename = "@cost", default)]')],
  HEAD + r'''
fn main() {
    let doc = |e: &str| format!("<travellingSalesmanProblemInstance><name>a</name><source>b</source><description>c</description><doublePrecision>15</doublePrecision><ignoredDigits>0</ignoredDigits><graph><vertex><edge {0}>1</edge></vertex><vertex><edge {0}>0</edge></vertex></graph></travellingSalesmanProblemInstance>", e);
    let ok = TravellingSalesmanProblemInstance::parse_from_xml(&doc("cost=\"2.5\"")).unwrap();
    assert_eq!(ok.graph.vertices[0].edges[0], Edge { to: 1, cost: 2.5 });
    assert!(TravellingSalesmanProblemInstance::parse_from_xml(&doc("")).is_err());
    assert!(TravellingSalesmanProblemInstance::parse_from_xml(&doc("weight=\"2.5\"")).is_err());
}
''')

S("threads-by-default", "C10", "the command lower-bound without the option -p",
  "one of the three commands runs in another mode than documented when the option is not given",
  [within("src/cli.rs", "    LowerBound {", "default_value_t=Parallelism::SingleThreaded", "default_value_t=Parallelism::MultiThreaded")],
  r'''use clap::Parser;
use walky::cli::*;
fn name(p: Parallelism) -> &'static str {
    match p { Parallelism::SingleThreaded => "single", Parallelism::MultiThreaded => "multi", #[allow(unreachable_patterns)] _ => "other" }
}
fn read(args: &[&str]) -> Option<String> {
    let mut v = vec!["walky"];
    v.extend(args);
    Some(match Cli::try_parse_from(v).ok()?.command {
        Commands::Exact { algorithm, input_file, parallelism } => format!("exact {:?} {} {}", algorithm, input_file.display(), name(parallelism)),
        Commands::Approx { algorithm, input_file, parallelism, lower_bound } => format!("approx {:?} {} {} {:?}", algorithm, input_file.display(), name(parallelism), lower_bound),
        Commands::LowerBound { algorithm, input_file, parallelism } => format!("bound {:?} {} {}", algorithm, input_file.display(), name(parallelism)),
    })
}
fn main() {
    let mut ok = true;
    for (mode, want) in [(None, "single"), (Some("single-threaded"), "single"), (Some("multi-threaded"), "multi")] {
        let mut m: Vec<&str> = vec![];
        if let Some(x) = mode { m = vec!["-p", x]; }
        let mut try_ = |a: &[&str], w: String| {
            let mut v = a.to_vec();
            v.extend(&m);
            let got = read(&v);
            if got.as_deref() != Some(&w[..]) { println!("{:?}: {:?} instead of {}", v, got, w); ok = false; }
        };
        for i in 0..7 { try_(&["exact", &format!("v{}", i), "f"], format!("exact V{} f {}", i, want)); }
        for (a, n) in [("nearest-neighbour", "NearestNeighbour"), ("christofides", "Christofides")] {
            try_(&["approx", a, "f"], format!("approx {} f {} None", n, want));
            for (b, x) in [("one-tree", "OneTree"), ("mst", "MST"), ("mst-queue", "MSTQueue")] {
                try_(&["approx", a, "f", "-l", b], format!("approx {} f {} Some({})", n, want, x));
            }
        }
        for (b, x) in [("one-tree", "OneTree"), ("mst", "MST"), ("mst-queue", "MSTQueue")] {
            try_(&["lower-bound", b, "f"], format!("bound {} f {}", x, want));
        }
    }
    std::process::exit(if ok { 0 } else { 1 });
}
''', deps='\nclap = { version = "4", features = ["derive"] }')
