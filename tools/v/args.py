import sys; sys.path.insert(0, '/verif/tools/v')
from _h import mk
V, R, B, fn, sub, rep, src = mk("src/cli.rs")
P = ['C10']
PAR = "#[arg(short, long, default_value_t=Parallelism::SingleThreaded, value_enum)]"
def nth(old, new, n):
    i = -1
    for _ in range(n + 1): i = src.index(old, i + 1)
    return ("src/cli.rs", src[:i] + old, src[:i] + new)
# ------------------------------------------------ refactorings
R('a-explicit', nth(PAR, "#[arg(short = 'p', long = \"parallelism\", default_value = \"single-threaded\", value_enum)]", 0))
R('a-explicit2', nth(PAR, "#[arg(long, short, value_enum, default_value_t = Parallelism::SingleThreaded)]", 2))
R('a-order-variants', rep("    /// The one tree lower bound\n    OneTree,\n    /// The MST lower bound\n    MST,\n", "    /// The MST lower bound\n    MST,\n    /// The one tree lower bound\n    OneTree,\n"))
R('a-order-fields', rep("""        /// Whether to also compute a lower_bound. Optional.
        #[arg(short, long, value_enum)]
        lower_bound: Option<LowerBoundAlgorithm>,
""", ""), rep("""        algorithm: ApproxAlgorithm,
""", """        algorithm: ApproxAlgorithm,
        /// Whether to also compute a lower_bound. Optional.
        #[arg(short, long, value_enum)]
        lower_bound: Option<LowerBoundAlgorithm>,
"""))
R('a-order-commands', rep("""    /// Compute a lower bound cost of a TSP instance
    LowerBound {
        /// The Algorithm to use
        algorithm: LowerBoundAlgorithm,
        /// Path to the TSPLIB-XML file
        input_file: PathBuf,
        /// Whether to solve it sequential or parallel
        #[arg(short, long, default_value_t=Parallelism::SingleThreaded, value_enum)]
        parallelism: Parallelism,
    },
""", ""), rep("pub enum Commands {\n", """pub enum Commands {
    /// Compute a lower bound cost of a TSP instance
    LowerBound {
        /// The Algorithm to use
        algorithm: LowerBoundAlgorithm,
        /// Path to the TSPLIB-XML file
        input_file: PathBuf,
        /// Whether to solve it sequential or parallel
        #[arg(short, long, default_value_t=Parallelism::SingleThreaded, value_enum)]
        parallelism: Parallelism,
    },
"""))
R('a-const', nth("default_value_t=Parallelism::SingleThreaded", "default_value_t=DEFAULT_MODE", 1), rep("#[derive(Clone, Debug, Subcommand)]", "const DEFAULT_MODE: Parallelism = Parallelism::SingleThreaded;\n\n#[derive(Clone, Debug, Subcommand)]"))
R('a-alias', rep("    /// Fixating the first", "    #[value(alias = \"fixed-start\")]\n    /// Fixating the first"))
R('a-alias-cmd', rep("    /// Find the exact best", "    #[command(visible_alias = \"solve\")]\n    /// Find the exact best"))
R('a-name', rep("    /// Cache MST distance once computed\n", "    /// Cache MST distance once computed\n    #[value(name = \"v6\")]\n"))
R('a-help', rep("    /// The Christofides(-Serdyukov) algorithm", "    #[value(help = \"at most 1.5 times the optimum\")]\n    /// The Christofides(-Serdyukov) algorithm"))
R('a-hint', nth("        input_file: PathBuf,", "        #[arg(value_hint = clap::ValueHint::FilePath, value_name = \"FILE\")]\n        input_file: PathBuf,", 0))
R('a-id', nth(PAR, "#[arg(id = \"mode\", short = 'p', long = \"parallelism\", default_value_t=Parallelism::SingleThreaded, value_enum)]", 0))
R('a-index', nth("        algorithm: ExactAlgorithm,", "        #[arg(index = 1)]\n        algorithm: ExactAlgorithm,", 0))
R('a-ignore-case', nth("        algorithm: ExactAlgorithm,", "        #[arg(ignore_case = true, value_enum)]\n        algorithm: ExactAlgorithm,", 0))
R('a-default-impl', nth("default_value_t=Parallelism::SingleThreaded", "default_value_t", 0), rep("#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, ValueEnum)]\npub enum Parallelism {", "#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, ValueEnum)]\npub enum Parallelism {"),
  rep("    SingleThreaded,\n", "    #[default]\n    SingleThreaded,\n"))
# ------------------------------------------------ bugs
for i in range(3):
    B('a-mt%d' % i, P, nth("default_value_t=Parallelism::SingleThreaded", "default_value_t=Parallelism::MultiThreaded", i))
B('a-lb-default', P, rep("        #[arg(short, long, value_enum)]", "        #[arg(short, long, value_enum, default_value = \"mst\")]"))
B('a-swap-names', P, rep("    /// Cache MST distance once computed\n", "    /// Cache MST distance once computed\n    #[value(name = \"v5\")]\n"), rep("    /// As V5, but use an MST instead", "    #[value(name = \"v6\")]\n    /// As V5, but use an MST instead"))
B('a-skip', P, rep("    /// The MST lower bound,\n", "    #[value(skip)]\n    /// The MST lower bound,\n"))
B('a-hidden-alias', P, rep("    /// The one tree lower bound\n", "    /// The one tree lower bound\n    #[value(alias = \"mst\")]\n"))
B('a-rename-all', P, rep("pub enum LowerBoundAlgorithm {", "#[value(rename_all = \"lower\")]\npub enum LowerBoundAlgorithm {"))
B('a-american', P, rep("    NearestNeighbour,", "    #[value(name = \"nearest-neighbor\")]\n    NearestNeighbour,"))
B('a-short-cap', P, nth(PAR, "#[arg(short = 'P', long, default_value_t=Parallelism::SingleThreaded, value_enum)]", 1))
B('a-long', P, rep("        #[arg(short, long, value_enum)]", "        #[arg(short, long = \"bound\", value_enum)]"))
B('a-no-short', P, rep("        #[arg(short, long, value_enum)]", "        #[arg(long, value_enum)]"))
B('a-swapped', P, rep("        algorithm: ApproxAlgorithm,\n        /// Path to the TSPLIB-XML file\n        input_file: PathBuf,", "        #[arg(index = 2)]\n        algorithm: ApproxAlgorithm,\n        /// Path to the TSPLIB-XML file\n        #[arg(index = 1)]\n        input_file: PathBuf,"))
B('a-swapped2', P, rep("        /// The Algorithm to use\n        algorithm: LowerBoundAlgorithm,\n        /// Path to the TSPLIB-XML file\n        input_file: PathBuf,", "        /// Path to the TSPLIB-XML file\n        input_file: PathBuf,\n        /// The Algorithm to use\n        algorithm: LowerBoundAlgorithm,"))
B('a-conflict', P, rep("        #[arg(short, long, value_enum)]", "        #[arg(short, long, value_enum, conflicts_with = \"parallelism\")]"))
B('a-requires', P, nth(PAR, "#[arg(short, long, default_value_t=Parallelism::SingleThreaded, value_enum, requires = \"lower_bound\")]", 1))
B('a-default-if', P, nth(PAR, "#[arg(short, long, default_value_t=Parallelism::SingleThreaded, value_enum, default_value_if(\"lower_bound\", \"mst\", \"multi-threaded\"))]", 1))
B('a-option-file', P, nth("        input_file: PathBuf,", "        #[arg(long)]\n        input_file: PathBuf,", 0))
B('a-new-required', P, rep("        /// The Algorithm to use\n        algorithm: ExactAlgorithm,", "        /// The Algorithm to use\n        algorithm: ExactAlgorithm,\n        /// Seed\n        #[arg(long)]\n        seed: u64,"), ("src/lib.rs", "            input_file,\n            parallelism,\n        } => exact_run", "            input_file,\n            parallelism,\n            seed: _,\n        } => exact_run"))
B('a-cmd-name', P, rep("    /// Compute a lower bound cost", "    #[command(name = \"bound\")]\n    /// Compute a lower bound cost"))
B('a-parse-ci', P, rep("#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, ValueEnum)]\npub enum ApproxAlgorithm {", "#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, ValueEnum)]\n#[value(rename_all = \"snake_case\")]\npub enum ApproxAlgorithm {"))
B('a-default-str', P, nth("default_value_t=Parallelism::SingleThreaded", "default_value = \"multi-threaded\"", 2))
B('a-group', P, rep("        #[arg(short, long, value_enum)]", "        #[arg(short, long, value_enum, required_if_eq(\"parallelism\", \"multi-threaded\"))]"))
