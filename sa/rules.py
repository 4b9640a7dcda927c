"""The table of checks."""
from lib import *
import dump as D
import rules_exact as X
import rules_brute as BF
import rules_mst as MS
import rules_best as BE
import rules_data as DA
import rules_christo as CH
import rules_cli as CL
import rules_prefix as PX
import rules_par as PA
import rules_raw as RW
import rules_det as DT
import rules_file as FI
import rules_args as FA
import rules_mpi as SE

CHECKS = {}


def check(pid, title, technique):
    def deco(f):
        CHECKS[pid] = (title, technique, f)
        return f
    return deco


def have(ck, config):
    """is this configuration of the tree analysable?  (the default one must be)"""
    try:
        prog(config)
        return True
    except D.DumpError as ex:
        try:
            prog(config)  # once more: a transient failure of the build is no verdict
            return True
        except D.DumpError as ex:
            if config == "default":
                ck.ob("viol", "build", "crate walky", "the tree does not build, so nothing can be concluded about it: %s" % str(ex)[-600:])
            else:
                ck.ob("undecided", "build", "configuration " + config, "does not build: %s" % str(ex)[-300:])
            return False


def run(pid):
    title, technique, f = CHECKS[pid]
    ck = Check(pid, title, technique)
    if have(ck, "default"):
        try:
            f(ck)
        except Exception as ex:  # code in a form nobody thought of is no violation
            import traceback
            t = traceback.extract_tb(ex.__traceback__)[-1]
            ck.ob("undecided", "internal", "%s:%d" % (t.filename.rsplit("/", 1)[-1], t.lineno), repr(ex)[:200])
    return ck.done()


SEARCH = "abstract interpretation of the MIR (value numbering, induction over the recursion)"


def both(ck, *cats):
    X.search(ck, "default", set(cats))
    if have(ck, "mpi"):
        X.search(ck, "mpi", set(cats))


def parallel(ck, *cats):
    PA.threaded(ck, "default", set(cats))
    if have(ck, "mpi"):
        PA.distributed(ck, "mpi", set(cats))


@check("C01", "exact search coverage", SEARCH)
def c01(ck):
    both(ck, "cover", "prune")
    X.roots(ck, "default", {"cover"})
    parallel(ck, "cover")
    PX.prefixes(ck)


@check("C02", "incumbent", SEARCH)
def c02(ck):
    both(ck, "incumbent")
    X.roots(ck, "default", {"incumbent"})
    parallel(ck, "incumbent")


@check("C03", "cost", SEARCH)
def c03(ck):
    both(ck, "cost")
    X.roots(ck, "default", {"cost"})
    parallel(ck, "cost")


@check("C04", "prune", SEARCH)
def c04(ck):
    both(ck, "prune")


@check("C05", "brute force", "abstract interpretation of the MIR (loop invariants by value numbering)")
def c05(ck):
    BF.brute(ck)
    BF.successor(ck)


@check("C15", "minimum spanning tree", "abstract interpretation of the MIR (inductive step of Prim's algorithm)")
def c15(ck):
    MS.prim(ck)


@check("C16", "one-tree bound", "abstract interpretation of the MIR (selection step by order types, reduction over ranks)")
def c16(ck):
    BE.one_tree(ck)
    BE.bound(ck, "default")
    if have(ck, "mpi"):
        BE.bound(ck, "mpi")
    MS.prim(ck)


@check("C17", "nearest neighbour", "abstract interpretation of the MIR (inductive step of the greedy tour, reduction over ranks)")
def c17(ck):
    BE.single(ck)
    BE.many(ck, "default")
    if have(ck, "mpi"):
        BE.many(ck, "mpi")
        BE.nn_mpi(ck)


FORMS = "abstract interpretation of the MIR to closed formulas, compared in normal form; small countermodels refute a formula"


@check("C08", "parse gate", FORMS)
def c08(ck):
    DA.preconditions(ck)
    DA.parse_gate(ck)


@check("C19", "measures", FORMS)
def c19(ck):
    DA.measures(ck)


@check("C20", "matrix representation", FORMS)
def c20(ck):
    DA.reps(ck)
    DA.conversions(ck)
    DA.points(ck)


@check("C13", "matching", "abstract interpretation of the MIR (inductive step of the local search; the step decided by order types)")
def c13(ck):
    CH.matching(ck, "default")
    CH.entry(ck, "default")
    if have(ck, "mpi"):
        CH.matching(ck, "mpi")
        CH.entry(ck, "mpi")


@check("C18", "Christofides", "abstract interpretation of the MIR (inductive steps of the Eulerian circuit, formulas of the shortcuts and the cost)")
def c18(ck):
    CH.generic(ck, "default")
    CH.entry(ck, "default")
    if have(ck, "mpi"):
        CH.generic(ck, "mpi")
        CH.entry(ck, "mpi")
    MS.prim(ck)


@check("C09", "commands", "abstract interpretation of the MIR, once per command, algorithm and mode")
def c09(ck):
    CL.commands(ck, "default")
    CL.main(ck)
    if have(ck, "mpi"):
        CL.commands(ck, "mpi")


@check("C07", "prefix partition", FORMS)
def c07(ck):
    PX.prefixes(ck)


@check("C06", "parallel exact solvers", "abstract interpretation of the MIR (loops over the pieces of the search space, merge of the results)")
def c06(ck):
    parallel(ck, *PA.CATS)
    PX.prefixes(ck)


@check("C11", "determinism", "flow analysis over the MIR of the whole crate: from sources of nondeterminism to results, through calls, closures, references and branches")
def c11(ck):
    DT.determinism(ck, "default")
    if have(ck, "mpi"):
        DT.determinism(ck, "mpi")


@check("C12", "raw memory", "abstract interpretation of the MIR; every unchecked access gets a bounds, ownership and race obligation")
def c12(ck):
    RW.memory(ck, "default")
    if have(ck, "mpi"):
        RW.memory(ck, "mpi")


@check("C22", "instance files", "abstract interpretation of the MIR: derived deserialisation as a map from names to fields, printed documents as trees with loops")
def c22(ck):
    FI.mapping(ck)
    if have(ck, "gen"):
        FI.generator(ck)


@check("C10", "command line", "abstract interpretation of the MIR: the bodies clap derives, read as names, options, defaults and fields")
def c10(ck):
    for config in ("default", "mpi"):
        if config == "default" or have(ck, config):
            FA.command_line(ck, config)


@check("C21", "MPI session", "typestate and language comparison over the interprocedural control-flow graph, once per role of a process")
def c21(ck):
    if have(ck, "mpi"):
        SE.protocol(ck)
