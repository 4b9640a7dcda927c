"""What the commands run and what they print (lib.rs: run)."""
from lib import *

MODE = {"SingleThreaded": "0", "MultiThreaded": "1", "MPI": "2"}
EXACT = {"V0": "naive_solver", "V1": "first_improved_solver", "V2": "second_improved_solver", "V3": "third_improved_solver",
         "V4": "fourth_improved_solver", "V5": "fifth_improved_solver", "V6": "sixth_improved_solver"}
EXACT_MPI = {"V0": "static_mpi_solver", "V1": "dynamic_mpi_solver"}
FILE = T("sym", "file")
PRIMS = {"prim_with_excluded_node_single_threaded": "0", "prim_with_excluded_node_multi_threaded": "1"}


def adt(P, name):
    c = [a for k, a in P.adts.items() if k.startswith("walky::") and last(k) == name]
    return c[0] if len(c) == 1 else None


def variants(P, name):
    a = adt(P, name)
    return [v["name"] for v in a["variants"]] if a else []


def value(P, name, variant=None, fields=None):
    a = adt(P, name)
    for i, v in enumerate(a["variants"]):
        if variant is None or v["name"] == variant:
            return agg(a["path"].split("::", 1)[1], i, *[fields[f[0]] for f in v["fields"]] if fields else [])
    return None


class Odd(Exception):
    pass


def pieces(e):
    """the output of one print: literal text and formatted values"""
    if e.op != "fmt":
        raise Odd("prints %s" % pp(e)[:80])
    t = e.a[0]
    arr = lambda x: list(x.a[2:]) if x.op == "agg" and x.a[0] == "array" else [] if x is SEQ0 else None
    args = arr(e.a[1]) if len(e.a) > 1 else []
    if t.op == "str":
        return [t.a[0]] if isinstance(t.a[0], str) else [pp(t)]
    if args is None or not arr(t) or any(x.op != "int" for x in arr(t)):
        raise Odd("prints %s" % pp(t)[:80])
    b = [x.a[0] for x in arr(t)]
    out, i, n = [], 0, 0
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(bytes(b[i:i + c]).decode("utf8", "replace"))
            i += c
        elif c == 0x80:
            l = b[i] + 256 * b[i + 1]
            out.append(bytes(b[i + 2:i + 2 + l]).decode("utf8", "replace"))
            i += 2 + l
        elif c == 0xC0:
            out.append(args[n])
            n += 1
        else:
            # with options: flags (4), width (2), precision (2), index (2)
            sz = 4 * (c & 1) + 2 * (c >> 1 & 1) + 2 * (c >> 2 & 1) + 2 * (c >> 3 & 1)
            if c >> 3 & 1:
                n = b[i + sz - 2] + 256 * b[i + sz - 1]
            plain = not (c & 7)
            # a precision that is a constant
            at = i + 4 * (c & 1) + 2 * (c >> 1 & 1)
            prec = (I(b[at] + 256 * b[at + 1]),) if c & 4 and not c & 32 else ()
            i += sz
            out.append(args[n] if plain else T("fmtarg", "options%d" % c, args[n], *prec))
            n += 1
    return out


def joined(ps):
    out = []
    for p in ps:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return out


def to_stdout(e):
    if e.kind == "write":
        return any(t.op == "stdout" for t in subterms(e.x["to"]))
    return e.kind == "print" and e.name == "print"


def flat(q):
    """a formatted string that is displayed is its pieces"""
    while isinstance(q, Term) and q.op == "fmtarg" and q.a[0] == "display" and q.a[1].op == "tostring":
        q = disp(q.a[1].a[0])
    if isinstance(q, Term) and q.op == "fmtarg" and q.a[0] == "display" and q.a[1].op == "fmtstr" and len(q.a[1].a) == 1:
        return [y for x in pieces(q.a[1].a[0]) for y in flat(x)]
    if isinstance(q, Term) and q.op == "fmtarg" and q.a[0] == "display" and q.a[1].op == "str":
        return [q.a[1].a[0]]
    return [q]


def stdout(p):
    return joined([y for e in walk(p.ev) if to_stdout(e) for q in pieces(e.args[0]) for y in flat(q)])


def disp(v):
    return T("fmtarg", "display", v)


def dbg(v):
    return T("fmtarg", "debug", v)


def base(nm):
    """function name and computation mode of a call"""
    xs = nm.split("::<")
    return (xs[0], xs[1].rstrip(">") if len(xs) > 1 else None)


# public functions the commands may use
KNOWN = set(EXACT.values()) | set(EXACT_MPI.values()) | {"threaded_solver", "christofides", "nearest_neighbour", "one_tree_lower_bound",
                                                         "directed_edge_weight", "MST", "graph_to_matrix", "parse_from_xml"}


class Spec:
    def __init__(self, calls):
        self.calls = calls

    def call(self, name, mode, g):
        """the call of this function on the graph, as it occurs on the path"""
        for t in self.calls:
            if base(t.a[0]) == (name, mode) and len(t.a) == 2 and t.a[1] is g:
                return t
        return None


def lower_out(alg, par, sp, g, miss):
    if alg == "OneTree":
        c = sp.call("one_tree_lower_bound", MODE[par], g)
        if c is None:
            miss.append("one_tree_lower_bound::<%s>" % MODE[par])
            c = T("sym", "missing")
        return ["1-tree lower bound: ", disp(c), "\n"]
    w = fmul(F(0.5), T("call", "directed_edge_weight", T("call", "MST", g, SEQ0)))
    return ["MST lower bound: ", disp(w), "\n"]


def expected(cmd, alg, par, lb, sp, g, miss):
    def need(name, mode=None):
        c = sp.call(name, mode, g)
        if c is None:
            miss.append(name + ("::<%s>" % mode if mode else ""))
            c = T("sym", "missing")
        return c
    if cmd == "Exact":
        if par == "SingleThreaded":
            c = need(EXACT[alg])
        elif par == "MultiThreaded":
            c = need("threaded_solver")
        else:
            c = need(EXACT_MPI[alg])
        return ["Best Cost: ", disp(fld(c, 0)), "\nBest Permutation: ", dbg(fld(c, 1)), "\n"]
    if cmd == "LowerBound":
        return lower_out(alg, par, sp, g, miss)
    if alg == "Christofides":
        c = need("christofides", MODE[par])
        out = ["Christofides solution weight: ", disp(fld(c, 0)), "\n"]
    else:
        c = need("nearest_neighbour", MODE[par])
        out = ["Nearest Neighbour solution weight: ", disp(fld(c, 0)), "\nNearest Neighbour solution: ", dbg(fld(c, 1)), "\n"]
    if lb:
        out += lower_out(lb, par, sp, g, miss)
    return joined(out)


def commands(ck, config):
    P = prog(config)
    bs = [b for b in bodies(config, "run") if b["path"] == "walky::run" and b["arg_count"] == 1]
    ck.require(bool(bs), "anchor", "walky::run", "the public function is gone")
    need = {"Commands": {"Exact", "Approx", "LowerBound"}, "ExactAlgorithm": set(EXACT), "ApproxAlgorithm": {"NearestNeighbour", "Christofides"},
            "LowerBoundAlgorithm": {"OneTree", "MST", "MSTQueue"}, "Parallelism": {"SingleThreaded", "MultiThreaded"} | ({"MPI"} if config == "mpi" else set())}
    for n, vs in need.items():
        ck.require(vs <= set(variants(P, n)), "anchor", "walky::cli::" + n, "public variants are gone: %s" % sorted(vs - set(variants(P, n))))
        if not vs <= set(variants(P, n)):
            return
    inst = adt(P, "TravellingSalesmanProblemInstance")
    gi = [i for i, f in enumerate(inst["variants"][0]["fields"]) if f[0] == "graph"] if inst else []
    if not gi:
        ck.ob("undecided", "commands", "walky::run", "the instance has no field graph")
        return
    pars = sorted(need["Parallelism"])
    todo = [("Exact", a, p, 0) for a in sorted(EXACT) for p in pars if p != "MPI" or a in EXACT_MPI]
    todo += [("Approx", a, p, l) for a in sorted(need["ApproxAlgorithm"]) for p in pars for l in [None] + sorted(need["LowerBoundAlgorithm"])]
    todo += [("LowerBound", a, p, 0) for a in sorted(need["LowerBoundAlgorithm"]) for p in pars]
    for b in bs:
        for cmd, alg, par, lb in todo:
            try:
                fields = {"algorithm": value(P, {"Exact": "ExactAlgorithm", "Approx": "ApproxAlgorithm", "LowerBound": "LowerBoundAlgorithm"}[cmd], alg),
                          "input_file": FILE, "parallelism": value(P, "Parallelism", par),
                          "lower_bound": some(value(P, "LowerBoundAlgorithm", lb)) if lb else NONE}
                arg = value(P, "Cli", None, {"command": value(P, "Commands", cmd, fields)})
            except KeyError as ex:
                ck.ob("undecided", "commands", "walky::cli", "unknown field %s" % ex)
                return
            command(ck, config, b, gi[0], (cmd, alg, par, lb), arg)


def strip(t, cut=False):
    """the file whose content the term is"""
    while True:
        if t.op == "content" or t.op == "deref" or cut and t.op == "take":
            t = t.a[0]
        elif t.op == "fld" and t.a[1] == 0 and t.a[0].op == "dc" and t.a[0].a[1] == 0 and t.a[0].a[0].op == "io" and t.a[0].a[0].a[0] in ("open", "read_to_string"):
            t = t.a[0].a[0].a[1]
        else:
            return t


def command(ck, config, b, gi, what, arg):
    cmd, alg, par, lb = what
    where = "%s (%s %s %s%s)" % (nice(b), cmd, alg, par, " with " + lb if lb else "")
    e, paths, why = run("cli%s%s" % (config, what), lambda: engine(config, own={b["id"]}), b, [arg])
    ck.engines.append(e)
    if paths is None:
        ck.ob("undecided", "commands", where, why)
        return
    paths = [p for p in paths if not FS(p.facts).dead]
    root = lambda p: FS(p.facts)(ieq(T("mpi", "rank"), I(0))) is not False
    good = 0
    for p in paths:
        calls = [x.ret for x in walk(p.ev) if x.kind == "call" and isinstance(x.ret, Term) and x.ret.op == "call"]
        odd = [x for x in walk(p.ev) if x.kind in ("ext", "loop") or x.kind == "write" and not any(t.op in ("stdout", "stderr") for t in subterms(x.x["to"]))]
        parses = {t for t in calls if base(t.a[0])[0] == "parse_from_xml"}
        failed = any(f.op == "isvar" and f.a[1] == 1 and (f.a[0].op == "io" or f.a[0] in parses) or
                     f.op == "not" and f.a[0].op == "isvar" and f.a[0].a[1] == 0 and (f.a[0].a[0].op == "io" or f.a[0].a[0] in parses) for f in p.facts)
        if p.ret.op != "agg" or p.ret.a[0] != RES:
            ck.ob("undecided", "outcome", where, "returns %s" % pp(p.ret)[:100])
            continue
        ok = p.ret.a[1] == 0
        if not ok and any(f.op in ("isvar", "not") and t.op == "wr" for f in p.facts for t in subterms(f)):
            continue  # the output cannot be written
        if failed or not ok:
            ck.require(not ok, "error-reported", where, "the file cannot be read or is not accepted, but the command succeeds: %s" % [pp(f)[:80] for f in p.facts], tuple(p.facts))
            ck.require(failed, "error-reason", where, "an error although the file has been read and accepted: %s" % [pp(f)[:80] for f in p.facts], tuple(p.facts))
            continue
        if not root(p):
            continue  # processes other than the root: see C21
        good += 1
        # what has been solved
        raw = [t for c in calls if base(c.a[0])[0] in KNOWN for t in subterms(c) if t.op == "io" and t.a[0] == "xml"]
        gates = [t for t in calls if base(t.a[0])[0] in ("do_conditions_hold", "is_fully_connected")]
        if not parses and raw and not gates:
            ck.ob("viol", "instance", where, "the graph comes from the document without the test of the parser: %s" % pp(raw[0])[:150])
            continue
        if len(parses) != 1:
            ck.require(False, "instance", where, "%d instances are parsed" % len(parses), tuple(parses) or (T("unk", "none"),))
            continue
        ps = next(iter(parses))
        syms = {t for t in subterms(ps) if t.op == "sym"}
        ck.require(syms == {FILE} and any(t.op in ("content", "io") for t in subterms(ps)), "instance", where, "the instance is parsed from %s" % pp(ps)[:150], (ps,))
        src = strip(ps.a[-1])
        cut = [t for t in subterms(ps) if t.op == "take"]
        if src is FILE:
            ck.ob("ok", "whole-file", where)
        elif cut and all((const_int(t.a[1]) or 0) < 1 << 40 for t in cut) and strip(ps.a[-1], True) is FILE and all(const_int(t.a[1]) is not None for t in cut):
            ck.ob("viol", "whole-file", where, "only the first %s bytes of the file are read" % pp(cut[0].a[1]))
        else:
            ck.ob("undecided", "whole-file", where, "the document is %s" % pp(ps.a[-1])[:200])
        g = T("call", "graph_to_matrix", fld(fld(dc(ps, 0), 0), gi))
        miss = []
        exp = expected(cmd, alg, par, lb, Spec(calls), g, miss)
        try:
            got = stdout(p)
        except Odd as ex:
            ck.ob("undecided", "output", where, str(ex))
            continue
        others = [t for t in calls if base(t.a[0])[0] not in KNOWN] + [x for x in odd if x.kind == "ext"]
        hz = tuple(x for x in got if isinstance(x, Term))
        if miss and others:
            ck.ob("undecided", "algorithm", where, "does not call %s, but %s" % (miss, [pp(t)[:60] if isinstance(t, Term) else t.name for t in others]))
            continue
        ck.require(not miss, "algorithm", where, "%s is not called on the graph of the file; called: %s" % (miss, [pp(t)[:60] for t in calls]), tuple(t for t in calls))
        if miss:
            continue
        if got == exp:
            ck.ob("ok", "output", where)
        else:
            sh = lambda xs: " ".join(repr(x) if isinstance(x, str) else "{%s}" % pp(x)[:100] for x in xs)
            if odd or hazy(*hz):
                ck.ob("undecided", "output", where, "prints %s" % sh(got)[:300])
            else:
                ck.ob("viol", "output", where, "prints %s; the result is %s" % (sh(got)[:400], sh(exp)[:400]))
        # the variant of Prim's algorithm
        l = alg if cmd == "LowerBound" else lb
        if l in ("MST", "MSTQueue"):
            used = []
            for x in walk(p.ev):
                if x.kind == "call" and x.name == "MST":
                    q = P_(config).get(x.x.get("body")) if isinstance(x.x, dict) else None
                    nm = last(q["path"]) if q else None
                    used.append("queue" if nm == "prim_with_excluded_node_priority_queue" else PRIMS[nm] if nm in PRIMS else
                                ([a for a in q["args"] if a in MODE.values()] or [None])[0] if nm == "prim" else None)
            want = "queue" if l == "MSTQueue" else MODE[par]
            if any(u is None for u in used):
                ck.ob("undecided", "variant", where, "uses %s" % used)
            else:
                ck.require(want in used, "variant", where, "the spanning tree is computed by %s instead of %s" % (used, want), ())
    # every step which can fail has its error reported, and not by a panic
    succ, fail = set(), set()
    for p in paths:
        for f in p.facts:
            y, v = (f.a[0], 1) if f.op == "not" else (f, 0)
            if y.op == "isvar" and (y.a[0].op == "io" or y.a[0].op == "call" and base(y.a[0].a[0])[0] == "parse_from_xml"):
                (succ if y.a[1] == v else fail).add(y.a[0])
    for t in sorted(succ, key=pp):
        ck.require(t in fail, "error-returned", where, "the program panics if %s fails" % pp(t)[:100], (t,))
    ck.require(good > 0, "succeeds", where, "no instance is ever solved", tuple(f for p in paths for f in p.facts) or (TRUE,))


def P_(config):
    return prog(config).bodies


def main(ck):
    """the binary hands on the outcome of run"""
    bs = [b for b in bodies("default", "main") if b["path"] == "walky::main"]
    if not bs:
        ck.ob("undecided", "main", "walky::main", "no main function in the dump")
        return
    e, paths, why = run("cli-main", lambda: engine("default", own={bs[0]["id"]}), bs[0])
    ck.engines.append(e)
    if paths is None:
        ck.ob("undecided", "main", "walky::main", why)
        return
    for p in paths:
        cs = [x for x in walk(p.ev) if x.kind in ("ext", "call") and x.name.split("::<")[0] in ("walky::run", "run")]
        ck.require(len(cs) == 1, "main", "walky::main", "calls run %d times" % len(cs), tuple(p.facts))
        for x in cs:
            r = x.ret if isinstance(x.ret, Term) else None
            src = [t for a in x.args for t in subterms(a)]
            f = FS(p.facts)
            same = p.ret is r
            if not same and p.ret.op == "agg" and p.ret.a[0] == RES and r is not None:
                same = any(y.op in ("isvar", "not") and r in list(subterms(y)) for y in p.facts) and f(T("isvar", r, p.ret.a[1])) is not False
            known = [1 - y.a[0].a[1] if y.op == "not" else y.a[1] for y in p.facts if (y.a[0] if y.op == "not" else y).op == "isvar" and (y.a[0] if y.op == "not" else y).a[0] is r]
            dropped = p.ret.op == "agg" and r is not None and r not in list(subterms(p.ret)) and not any(r in list(subterms(y)) for y in p.facts)
            if same:
                ck.ob("ok", "main", "walky::main")
            elif dropped or known and p.ret.op == "agg" and p.ret.a[0] == RES and p.ret.a[1] not in known:
                ck.ob("viol", "main", "walky::main", "the outcome of run is dropped, main returns %s" % pp(p.ret)[:80])
            else:
                ck.ob("undecided", "main", "walky::main", "returns %s" % pp(p.ret)[:100])
