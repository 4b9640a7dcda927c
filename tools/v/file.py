import sys; sys.path.insert(0, '/verif/tools/v')
from _h import mk
G = "utils/gen_matrix_fast/src/main.rs"
V, R, B, fn, sub, rep, src = mk(G)
LOOP = """    for (row_index, row) in matrix.iter().enumerate() {
        println!("    <vertex>");
        for (col_index, &value) in row.iter().enumerate() {
            // only the diagonal is no edge, different points may have the distance 0
            if row_index == col_index {continue;}
            println!("      <edge cost=\\"{}\\">{}</edge>", value, col_index);
        }
        println!("    </vertex>");
    }
"""
R('g-range', rep(LOOP, """    let n = matrix.len();
    for i in 0..n {
        println!("    <vertex>");
        for j in 0..n {
            if i != j {
                println!("      <edge cost=\\"{}\\">{}</edge>", matrix[i][j], j);
            }
        }
        println!("    </vertex>");
    }
"""))
R('g-filter', rep("""        for (col_index, &value) in row.iter().enumerate() {
            // only the diagonal is no edge, different points may have the distance 0
            if row_index == col_index {continue;}
""", """        for (col_index, value) in row.iter().enumerate().filter(|(j, _)| *j != row_index) {
"""))
R('g-helper', rep(LOOP, """    for (row_index, row) in matrix.iter().enumerate() {
        print_vertex(row_index, row);
    }
"""), rep("fn generate_xml_from_matrix", """fn print_vertex(row_index: usize, row: &[f64]) {
    println!("    <vertex>");
    for (col_index, &value) in row.iter().enumerate() {
        if row_index != col_index {
            println!("      <edge cost=\\"{}\\">{}</edge>", value, col_index);
        }
    }
    println!("    </vertex>");
}

fn generate_xml_from_matrix"""))
R('g-inline-args', rep("""println!("      <edge cost=\\"{}\\">{}</edge>", value, col_index);""", """println!("      <edge cost=\\"{value}\\">{col_index}</edge>");"""))
R('g-print', rep("""println!("    </vertex>");""", """print!("    </vertex>\\n");"""))
R('g-header', rep("""    println!("<travellingSalesmanProblemInstance>");""", """    println!("<?xml version=\\"1.0\\"?>");
    println!("<travellingSalesmanProblemInstance>");"""))
R('g-foreach', rep(LOOP, """    matrix.iter().enumerate().for_each(|(row_index, row)| {
        println!("    <vertex>");
        row.iter().enumerate().for_each(|(col_index, value)| {
            if row_index != col_index {
                println!("      <edge cost=\\"{}\\">{}</edge>", value, col_index);
            }
        });
        println!("    </vertex>");
    });
"""))
R('g-two-loops', rep("""        for (col_index, &value) in row.iter().enumerate() {
            // only the diagonal is no edge, different points may have the distance 0
            if row_index == col_index {continue;}
            println!("      <edge cost=\\"{}\\">{}</edge>", value, col_index);
        }
""", """        for col_index in 0..row_index {
            println!("      <edge cost=\\"{}\\">{}</edge>", row[col_index], col_index);
        }
        for col_index in row_index + 1..row.len() {
            println!("      <edge cost=\\"{}\\">{}</edge>", row[col_index], col_index);
        }
"""))
R('g-string', sub('generate_xml_from_matrix', (LOOP, """    let mut body = String::new();
    for (row_index, row) in matrix.iter().enumerate() {
        body.push_str("    <vertex>\\n");
        for (col_index, &value) in row.iter().enumerate() {
            if row_index == col_index {continue;}
            body.push_str(&format!("      <edge cost=\\"{}\\">{}</edge>\\n", value, col_index));
        }
        body.push_str("    </vertex>\\n");
    }
    print!("{}", body);
""")))
MAT = """    for i in 0..n {
        for j in 0..n {
            if i != j {
                let distance = euclidean_distance(&points[i], &points[j]);
                matrix[i][j] = distance;
            }
        }
    }
"""
R('g-sym', rep(MAT, """    for i in 0..n {
        for j in i + 1..n {
            let distance = euclidean_distance(&points[i], &points[j]);
            matrix[i][j] = distance;
            matrix[j][i] = distance;
        }
    }
"""))
R('g-collect', rep("    let mut matrix = vec![vec![0.0; n]; n];\n", ""), rep(MAT, """    let matrix: Vec<Vec<f64>> = points
        .iter()
        .map(|p| points.iter().map(|q| euclidean_distance(p, q)).collect())
        .collect();
"""))
R('g-rng', rep("x: rand::random::<f64>() * 20.0 - 10.0", "x: -10.0 + 20.0 * rand::random::<f64>()"))
R('g-powi', sub('euclidean_distance', ("f64::sqrt(dx * dx + dy * dy)", "(dx.powi(2) + dy.powi(2)).sqrt()")))
R('g-hypot', sub('euclidean_distance', ("f64::sqrt(dx * dx + dy * dy)", "dx.hypot(dy)")))
R('g-iflet', rep("""    let n: usize = match args[1].parse() {
        Ok(value) => value,
        Err(_) => {
            println!("Invalid n");
            return;
        }
    };
""", """    let parsed = args[1].parse::<usize>();
    if parsed.is_err() {
        println!("Invalid n");
        return;
    }
    let n = parsed.unwrap();
"""))
R('g-nth', rep("""    let args: Vec<String> = env::args().collect();

    if args.len() < 2 {
        println!("No n");
        return;
    }

    let n: usize = match args[1].parse() {""", """    let arg = match env::args().nth(1) {
        Some(arg) => arg,
        None => {
            println!("No n");
            return;
        }
    };

    let n: usize = match arg.parse() {"""))
P = ["C22"]
B('g-skip-zero', P, rep("if row_index == col_index {continue;}", "if value == 0.0 {continue;}"))
B('g-diag', P, rep("            if row_index == col_index {continue;}\n", ""), rep("for (row_index, row)", "for (_row_index, row)"))
B('g-target', P, rep("value, col_index);", "value, col_index + 1);"))
B('g-row', P, rep("value, col_index);", "value, row_index);"))
B('g-last', P, rep("row.iter().enumerate() {", "row.iter().enumerate().take(8) {"))
B('g-round', P, rep('<edge cost=\\"{}\\">', '<edge cost=\\"{:.2}\\">'))
B('g-close', P, rep('{}</edge>"', '{}<edge/>"'))
B('g-attr', P, rep('<edge cost=', '<edge weight='))
B('g-noprec', P, rep('    println!("  <doublePrecision>{}</doublePrecision>", double_precision);\n', ''), rep("    let double_precision = 15;\n", ""))
B('g-neg', P, rep("let ignored_digits = 0;", "let ignored_digits = -1;"))
B('g-half', P, rep(MAT, MAT.replace("if i != j", "if i < j")))
B('g-dist', P, sub('euclidean_distance', ("dx * dx + dy * dy", "dx * dx + dx * dy")))
B('g-manhattan', P, sub('euclidean_distance', ("f64::sqrt(dx * dx + dy * dy)", "dx.abs() + dy.abs()")))
B('g-dy', P, sub('euclidean_distance', ("p2.y - p1.y", "p2.y - p1.x")))
B('g-far', P, rep("matrix[i][j] = distance;", "matrix[i][j] = if distance > 25.0 { 25.0 } else { distance };"))
B('g-fresh', P, rep("euclidean_distance(&points[i], &points[j])", "euclidean_distance(&points[i], &points[j]) * (1.0 + 0.001 * rand::random::<f64>())"))
B('g-arg', P, rep("args[1].parse()", "args[args.len() - 1].parse()"))
B('g-n', P, rep("(0..n)\n", "(0..=n)\n"), rep("vec![vec![0.0; n]; n]", "vec![vec![0.0; n + 1]; n + 1]"), rep(MAT, MAT.replace("0..n", "0..=n")))
B('g-int', P, rep("x: rand::random::<f64>() * 20.0 - 10.0", "x: 3.0"), rep("y: rand::random::<f64>() * 20.0 - 10.0", "y: f64::INFINITY"))

X = "src/parser.rs"
V2, R, B, fn, sub, rep, src = mk(X)
R('f-alias', rep('''#[serde(rename = "@cost")]''', '''#[serde(rename = "@cost", alias = "@weight")]'''))
R('f-vertex', rep('''#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Graph {
    #[serde(rename = "$value")]''', '''#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Graph {
    #[serde(rename = "vertex")]'''))
R('f-order', rep("""    #[serde(rename = "$text")]
    pub to: usize,
    #[serde(rename = "@cost")]
    pub cost: f64,
""", """    #[serde(rename = "@cost")]
    pub cost: f64,
    #[serde(rename = "$text")]
    pub to: usize,
"""))
R('f-rename', rep("""#[serde(rename_all = "camelCase")]
""", ""), rep("    pub double_precision", """    #[serde(rename = "doublePrecision")]
    pub double_precision"""), rep("    pub ignored_digits", """    #[serde(rename = "ignoredDigits")]
    pub ignored_digits"""))
R('f-with', rep('''#[serde(rename = "@cost")]''', '''#[serde(rename = "@cost", deserialize_with = "read_cost")]'''), rep("/// Represents a directed edge from a known", """fn read_cost<'de, D: serde::Deserializer<'de>>(d: D) -> Result<f64, D::Error> {
    f64::deserialize(d)
}

/// Represents a directed edge from a known"""))
R('f-check', rep('''#[serde(rename = "@cost")]''', '''#[serde(rename = "@cost", deserialize_with = "read_cost")]'''), rep("/// Represents a directed edge from a known", """fn read_cost<'de, D: serde::Deserializer<'de>>(d: D) -> Result<f64, D::Error> {
    let c = f64::deserialize(d)?;
    Ok(c)
}

/// Represents a directed edge from a known"""))
R('f-hand', rep('''#[derive(Debug, Serialize, Deserialize, PartialEq, Copy, Clone)]
pub struct Edge''', '''impl<'de> Deserialize<'de> for Edge {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let r = RawEdge::deserialize(d)?;
        Ok(Edge { to: r.to, cost: r.cost })
    }
}

#[derive(Deserialize)]
struct RawEdge {
    #[serde(rename = "$text")]
    to: usize,
    #[serde(rename = "@cost")]
    cost: f64,
}

#[derive(Debug, Serialize, PartialEq, Copy, Clone)]
pub struct Edge'''))
R('f-defaultdesc', rep("    pub description: String,", "    #[serde(default)]\n    pub description: String,"))
B('f-default', P, rep('''#[serde(rename = "@cost")]''', '''#[serde(rename = "@cost", default)]'''))
B('f-defaultgraph', P, rep('''#[serde(rename = "$text")]''', '''#[serde(rename = "$text", default)]'''))
B('f-defwith', P, rep('''#[serde(rename = "@cost")]''', '''#[serde(rename = "@cost", default = "one")]'''), rep("/// Represents a directed edge from a known", """fn one() -> f64 {
    1.0
}

/// Represents a directed edge from a known"""))
B('f-round', P, rep('''#[serde(rename = "@cost")]''', '''#[serde(rename = "@cost", deserialize_with = "read_cost")]'''), rep("/// Represents a directed edge from a known", """fn read_cost<'de, D: serde::Deserializer<'de>>(d: D) -> Result<f64, D::Error> {
    let c = f64::deserialize(d)?;
    Ok((c * 1e6).round() / 1e6)
}

/// Represents a directed edge from a known"""))
B('f-abs', P, rep('''#[serde(rename = "@cost")]''', '''#[serde(rename = "@cost", deserialize_with = "read_cost")]'''), rep("/// Represents a directed edge from a known", """fn read_cost<'de, D: serde::Deserializer<'de>>(d: D) -> Result<f64, D::Error> {
    f64::deserialize(d).map(|c| c.max(0.0))
}

/// Represents a directed edge from a known"""))
B('f-single', P, rep('''#[serde(rename = "@cost")]''', '''#[serde(rename = "@cost", deserialize_with = "read_cost")]'''), rep("/// Represents a directed edge from a known", """fn read_cost<'de, D: serde::Deserializer<'de>>(d: D) -> Result<f64, D::Error> {
    Ok(f32::deserialize(d)? as f64)
}

/// Represents a directed edge from a known"""))
B('f-name', P, rep("    pub name: String,", "    #[serde(rename = \"source\")]\n    pub name: String,"), rep("    pub source: String,", "    #[serde(rename = \"name\")]\n    pub source: String,"))
B('f-skipser', P, rep("    pub double_precision", "    #[serde(skip_serializing)]\n    pub double_precision"))
B('f-sername', P, rep('''#[serde(rename = "@cost")]''', '''#[serde(rename(serialize = "@weight", deserialize = "@cost"))]'''))
V += V2
