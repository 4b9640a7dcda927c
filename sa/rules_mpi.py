"""MPI as a session (configuration mpi, type-checked only): typestate of the library, collectives, messages.

An interprocedural exploration of the control-flow graphs (monomorphic MIR), once per role (rank 0 / another rank). Kept
per state: call stack, block, typestate (no MPI / live / finalised) and the values of flags, of comparisons of the rank and of
`initialize()`. Everything else is a free choice. The events that remain form an automaton per role; the
languages of its collective operations are compared.
"""
import re
from lib import *

COMM_RX = re.compile(r"^mpi::(topology|collective|point_to_point)::")
INIT = {"initialize", "initialize_with_threading"}
COLLECTIVE = {"barrier": 0, "broadcast_into": 1, "all_reduce_into": 1, "reduce_into": 1, "reduce_into_root": 1, "gather_into": 1, "gather_into_root": 1, "all_gather_into": 1,
              "scatter_into": 1, "scatter_into_root": 1, "scan_into": 1, "exclusive_scan_into": 1, "all_to_all_into": 1, "reduce_scatter_block_into": 1,
              "all_gather_varcount_into": 1, "gather_varcount_into": 1, "gather_varcount_into_root": 1, "scatter_varcount_into": 1, "scatter_varcount_into_root": 1}
SENDS = re.compile(r"^(immediate_)?(buffered_|synchronous_|ready_)?send(_with_tag)?$")
RECVS = re.compile(r"^(matched_)?receive(_into|_vec)?(_with_tag)?$")
MAXSTATES = 60000


class TooMany(Exception):
    pass


def elem(ty):
    ty = ty.strip()
    while True:
        m = re.match(r"^(?:&(?:'\w+ )?(?:mut )?|std::vec::Vec<|std::boxed::Box<|\[)(.*)$", ty)
        if not m:
            return ty
        ty = m.group(1)
        if ty.endswith("]"):
            ty = ty[:-1].split(";")[0].strip()
        elif ty.endswith(">"):
            ty = ty[:-1].strip()
            if ty.endswith(", std::alloc::Global"):
                ty = ty[:-len(", std::alloc::Global")]


def base(name):
    """the operation, as the other ranks see it"""
    return name.replace("_root", "")


def insts(x):
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("inst", "closure") and isinstance(v, str):
                yield v
            else:
                yield from insts(v)
    elif isinstance(x, list):
        for y in x:
            yield from insts(y)


def relevance(P):
    if getattr(P, "_mpi_rel", None) is None:
        uses, rel = {}, {}
        for i, b in P.bodies.items():
            us, r = set(), False
            for bl in b["blocks"]:
                if bl["c"]:
                    continue
                us |= set(insts(bl["s"])) | set(insts(bl["t"]))
                t = bl["t"]
                if t[0] == "call":
                    f = t[1].get("fn") or {}
                    r |= f.get("crate") == "mpi" and (f["path"].startswith("mpi::initialize") or bool(COMM_RX.match(f["path"])))
            uses[i], rel[i] = us, r
        ch = True
        while ch:
            ch = False
            for i, us in uses.items():
                if not rel[i] and any(rel.get(u) for u in us):
                    rel[i] = ch = True
        P._mpi_rel = rel
    return P._mpi_rel


class Role:
    def __init__(self, P, name, lo, hi, scenario=None):
        self.P, self.name, self.lo, self.hi = P, name, lo, hi
        self.scenario = scenario or {}      # type -> variant: what the command line says
        self.memo = {}
        self.events = {}      # site -> (kind, ...)
        self.bad = {}         # (rule, where) -> detail
        self.odd = {}
        self.mixed = set()

    # ------------------------------------------------------------ relevance
    def body(self, inst):
        return self.P.bodies.get(inst)

    def mpi_fn(self, f):
        return f.get("crate") == "mpi"

    def relevant(self, inst):
        """from here a call of the library is reached (through calls, closures, function pointers)"""
        if not self.memo:
            self.memo.update(relevance(self.P))
        return self.memo.get(inst, False)

    # ------------------------------------------------------------ values
    @staticmethod
    def const(o):
        v = o.get("val")
        return v if isinstance(v, (bool, int)) else None

    def place_ty(self, b, pl):
        ty, var = b["locals"][pl[0]][0], 0
        for e in pl[1]:
            if e[0] == "*":
                ty = re.sub(r"^&('\w+ )?(mut )?", "", ty)
            elif e[0] == "dc":
                var = e[1]
            elif e[0] == ".":
                a = self.P.adts.get("walky::" + ty)
                fs = a["variants"][var]["fields"] if a and var < len(a["variants"]) else []
                f = [x for x in fs if x[0] == e[2]]
                if not f:
                    return None
                ty, var = f[0][1], 0
            else:
                return None
        return re.sub(r"^(&('\w+ )?(mut )?)+", "", ty)

    def given(self, b, pl):
        if not self.scenario:
            return None
        v = self.scenario.get(self.place_ty(b, pl))
        return None if v is None else ("v", v)

    def val(self, o, env, b=None):
        if o.get("k") == "const" and re.sub(r"^&+", "", o.get("ty", "")) in self.scenario:
            v = o.get("val")
            if isinstance(v, dict) and isinstance(v.get("ptr"), dict) and len(v["ptr"].get("bytes") or []) == 1 and not v["ptr"].get("ptrs"):
                return ("v", v["ptr"]["bytes"][0])
            if isinstance(v, dict) and len(v.get("bytes") or []) == 1:
                return ("v", v["bytes"][0])
            if isinstance(v, int):
                return ("v", v)
            self.odd.setdefault("constant " + o["ty"], str(v)[:80])
            return None
        if o.get("k") == "const":
            c = self.const(o)
            if c is not None:
                return ("c", int(c))
            if "closure" in o:
                return ("clo", o["closure"])
            if (o.get("fn") or {}).get("inst"):
                return ("clo", o["fn"]["inst"])
            return None
        l, pr = o["p"]
        v = env.get(l)
        if v and (not pr or v[0] in ("rank", "opt", "v") and all(e[0] == "*" for e in pr)):
            return v
        return self.given(b, o["p"]) if b is not None else None

    def interval(self, op, c):
        lo, hi = self.lo, self.hi
        t = {"Eq": (lo == hi == c, c < lo or c > hi), "Lt": (hi < c, lo >= c), "Le": (hi <= c, lo > c), "Gt": (lo > c, hi <= c), "Ge": (lo >= c, hi < c)}
        if op == "Ne":
            b, a = t["Eq"]
        elif op in t:
            a, b = t[op]
        else:
            return None
        return 1 if a else 0 if b else None

    def rvalue(self, rv, env, ty="", b=None):
        k = rv[0]
        if k == "use":
            return self.val(rv[1], env, b)
        if k == "cast" or k == "shallow_box":
            os = [x for x in rv[1:] if isinstance(x, dict) and "k" in x]
            v = self.val(os[0], env) if os else None
            return v if v and v[0] in ("rank", "c", "clo") else None
        if k == "ref":
            l, pr = rv[1]
            v = env.get(l)
            if v and v[0] in ("rank", "opt", "clo", "v") and all(e[0] == "*" for e in pr):
                return v
            return self.given(b, rv[1])
        if k == "discr":
            l, pr = rv[1]
            v = env.get(l)
            if v and v[0] == "opt" and all(e[0] == "*" for e in pr):
                return ("c", v[1])
            if v and v[0] == "v" and all(e[0] == "*" for e in pr):
                return ("c", v[1])
            v = self.given(b, rv[1])
            if v:
                return ("c", v[1])
            if not pr and not (v and v[0] != "nv"):
                return ("dof", l)
            return None
        if k == "agg" and rv[1].get("variant") is not None and "Universe" in ty:
            return ("opt", int(rv[1]["variant"]))
        if k == "agg" and rv[1].get("variant") is not None and ty in self.scenario:
            return ("v", int(rv[1]["variant"]))
        if k == "bin":
            a, b = self.val(rv[2], env), self.val(rv[3], env)
            if a and b:
                if a[0] == "rank" and b[0] == "c":
                    r = self.interval(rv[1], b[1])
                    return ("c", r) if r is not None else ("mixed",)
                if b[0] == "rank" and a[0] == "c":
                    r = self.interval({"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(rv[1], rv[1]), a[1])
                    return ("c", r) if r is not None else ("mixed",)
                if a[0] == b[0] == "c" and rv[1] in ("Eq", "Ne"):
                    return ("c", int((a[1] == b[1]) == (rv[1] == "Eq")))
            if rv[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Rem", "BitAnd", "BitOr") and any(x and x[0] in ("rank", "mixed") for x in (a, b)):
                return ("mixed",)
            return None
        if k == "un":
            o = [x for x in rv[1:] if isinstance(x, dict)]
            v = self.val(o[0], env) if o else None
            if v and v[0] == "c" and "Not" in rv[1:] and v[1] in (0, 1):
                return ("c", 1 - v[1])
            return v if v and v[0] == "mixed" else None
        if k == "agg" and rv[1].get("a") == "closure":
            return ("clo", rv[1].get("inst"))
        return None

    # ------------------------------------------------------------ exploration
    def explore(self, inst):
        b = self.body(inst)
        start = (((inst, 0, ()),), "none")
        self.edges = {}
        self.final = set()
        self.switches = {}
        todo, seen = [start], {start}
        while todo:
            st = todo.pop()
            out = self.step(st)
            self.edges[st] = out
            for _, n in out:
                if n not in seen:
                    seen.add(n)
                    todo.append(n)
                    if len(seen) > MAXSTATES:
                        raise TooMany()
        self.start = start
        return start

    def replace(self, st, blk, env, ts=None):
        stack, t0 = st
        inst = stack[-1][0]
        return (stack[:-1] + ((inst, blk, tuple(sorted(env.items()))),), t0 if ts is None else ts)

    def step(self, st):
        stack, ts = st
        inst, blk, envt = stack[-1]
        b = self.body(inst)
        env = dict(envt)
        bl = b["blocks"][blk]
        for s in bl["s"]:
            if s[0] == "=":
                d, pr = s[1]
                if pr:
                    if all(e[0] == "*" for e in pr):
                        env.pop(d, None)
                    continue
                v = self.rvalue(s[2], env, b["locals"][d][0], b)
                for k2 in [k2 for k2, x in env.items() if x == ("dof", d)]:
                    env.pop(k2)
                if s[2][0] == "ref" and s[2][2] not in (False, "shared", 0):
                    env.pop(s[2][1][0], None) if env.get(s[2][1][0], ("",))[0] in ("v", "nv") else None
                if v is None:
                    env.pop(d, None)
                elif v[0] in ("nv", "dof") and s[2][0] not in ("use", "discr"):
                    env.pop(d, None)
                elif v[0] == "c" and b["locals"][d][0] not in ("bool", "isize", "i32", "usize", "u8", "i8", "i16", "u32") and not (v[1] in (0, 1)):
                    env.pop(d, None)
                else:
                    env[d] = v
                    if s[2][0] == "use" and s[2][1].get("k") == "move" and not s[2][1]["p"][1] and v[0] == "opt":
                        env.pop(s[2][1]["p"][0], None)
        t = bl["t"]
        k = t[0]
        where = lambda i: "%s %s" % (nice(b), t[i]) if len(t) > i and isinstance(t[i], str) else nice(b)
        if k == "goto":
            return [(None, self.replace(st, t[1], env))]
        if k == "assert":
            return [(None, self.replace(st, t[4], env))]
        if k == "switch":
            v = self.val(t[1], env)
            if v and v[0] == "c":
                for c, tb in t[3]:
                    if int(c) == v[1]:
                        return [(None, self.replace(st, tb, env))]
                return [(None, self.replace(st, t[4], env))]
            if v and v[0] == "rank":
                out = []
                for c, tb in t[3]:
                    r = self.interval("Eq", int(c))
                    if r == 1:
                        return [(None, self.replace(st, tb, env))]
                    if r is None:
                        out.append((None, self.replace(st, tb, env)))
                        self.mixed.add(st)
                return out + [(None, self.replace(st, t[4], env))]
            if v and v[0] == "mixed":
                self.mixed.add(st)
            if v and v[0] == "dof":
                out, no = [], env.get(v[1], ("nv", ()))
                no = no[1] if no[0] == "nv" else ()
                for c, tb in t[3]:
                    if int(c) not in no:
                        out.append((None, self.replace(st, tb, {**env, v[1]: ("v", int(c))})))
                no = tuple(sorted(set(no) | {int(c) for c, _ in t[3]}))
                if t[4] >= 0:
                    out.append((None, self.replace(st, t[4], {**env, v[1]: ("nv", no)})))
                return out
            tb = sorted({x[1] for x in t[3]} | ({t[4]} if t[4] >= 0 else set()))
            return [(None, self.replace(st, x, env)) for x in tb]
        if k == "drop":
            l, pr = t[1]
            ty = t[3]
            if "Universe" in ty and not pr:
                v = env.get(l)
                if not (v and v[0] == "opt" and v[1] == 0):
                    env.pop(l, None)
                    return [("finalize", self.replace(st, t[2], env, "done" if ts == "live" else ts))]
            elif "mpi::environment::Universe" in ty and pr:
                return [("finalize", self.replace(st, t[2], env, "done" if ts == "live" else ts))]
            return [(None, self.replace(st, t[2], env))]
        if k == "return":
            if len(stack) == 1:
                self.final.add(st)
                return []
            ci, cb, ce = stack[-2]
            cenv = dict(ce)
            ct = self.body(ci)["blocks"][cb]["t"]
            rv = env.get(0)
            fi = (ct[1].get("fn") or {}).get("inst") if ct[0] == "call" else None
            if ct[0] == "call" and not ct[1].get("fn"):
                v = self.val(ct[1], cenv)
                fi = v[1] if v and v[0] == "clo" else None
            if fi == inst:
                d, pr = ct[3]
                cenv.pop(d, None)
                if rv and not pr:
                    cenv[d] = rv
                if ct[4] < 0:
                    return []
                nb = ct[4]
            else:
                nb = cb        # a closure given to a library function: again, or go on
                cenv[-1] = ("c", 1)
            return [(None, ((stack[:-2] + ((ci, nb, tuple(sorted(cenv.items()))),)), ts))]
        if k != "call":
            return []
        # ---- calls
        f = t[1].get("fn") or {}
        if not f:
            v = self.val(t[1], env)
            if v and v[0] == "clo":
                f = {"path": v[1], "inst": v[1], "crate": "walky"}
            else:
                self.odd.setdefault("%s %s" % (nice(b), t[5]), "call through a pointer")
        d, dpr = t[3]
        args = t[2]
        nxt = t[4]
        inclosure = env.pop(-1, None)

        def go(label=None, ts2=None, v=None):
            e = dict(env)
            e.pop(d, None)
            if v is not None and not dpr:
                e[d] = v
            return [(label, self.replace(st, nxt, e, ts2))] if nxt >= 0 else []
        path, nm = f.get("path", ""), last(f.get("path", "")) if f else ""
        span = "%s %s" % (nice(b), t[5])
        if self.mpi_fn(f):
            if path.startswith("mpi::initialize"):
                if ts == "none":
                    return go("init", "live", ("opt", 1))
                return go("init again", None, ("opt", 0))
            if "environment::Universe" in path:
                return go()
            if nm == "world":
                if ts != "live":
                    self.bad.setdefault(("mpi-live", span), "the communicator is used %s" % ("before MPI is initialised" if ts == "none" else "after MPI was finalised"))
                    return []
                return go()
            if COMM_RX.match(path):
                if ts != "live":
                    self.bad.setdefault(("mpi-live", span), "%s is called %s" % (nm, "before MPI is initialised" if ts == "none" else "after MPI was finalised"))
                    return []
                if nm == "rank" and not args[0].get("p", [0, [1, 2, 3]])[1][2:]:
                    return go(None, None, ("rank",))
                if nm in COLLECTIVE:
                    ga = [a for a in f.get("args", []) if not a.startswith("'")]
                    ty = elem(ga[1]) if COLLECTIVE[nm] and len(ga) > 1 else ""
                    self.events[span] = ("coll", nm, ty)
                    return go((base(nm), ty))
                if SENDS.match(nm) or RECVS.match(nm):
                    ga = [a for a in f.get("args", []) if not a.startswith("'")]
                    ty = elem(ga[1]) if len(ga) > 1 else "?"
                    tag = 0 if SENDS.match(nm) else None
                    if nm.endswith("_with_tag"):
                        v = self.val(args[-1], env)
                        tag = v[1] if v and v[0] == "c" else "?"
                    self.events[span] = ("send" if SENDS.match(nm) else "recv", tag, ty)
                    return go()
                if nm in ("process_at_rank", "any_process", "size", "this_process", "target_rank", "clone"):
                    return go()
                if nm not in ("max", "min", "sum", "product", "commutative", "unsafe_commutative", "logical_and", "logical_or", "as_ref"):
                    self.odd.setdefault(span, nm)
                return go()
            return go()
        # Option<Universe>
        if args and path.startswith("std::option::Option") and nm in ("unwrap", "expect", "is_some", "is_none", "as_ref", "as_mut", "unwrap_or_else", "ok_or", "ok_or_else"):
            v = self.val(args[0], env)
            if v and v[0] == "opt":
                if nm in ("unwrap", "expect"):
                    if v[1] == 0:
                        self.bad.setdefault(("mpi-init-once", span), "MPI may have been initialised before on the same run: `initialize()` is None then, and this panics")
                        return []
                    if args[0].get("k") == "move":
                        env.pop(args[0]["p"][0], None)
                    return go()
                if nm in ("is_some", "is_none"):
                    return go(None, None, ("c", int((v[1] == 1) == (nm == "is_some"))))
                if nm in ("as_ref", "as_mut"):
                    return go(None, None, v)
        if nm in ("eq", "ne") and path.startswith("std::cmp::PartialEq") and f.get("args") and re.sub(r"^&+", "", f["args"][0]) in self.scenario:
            x, y = self.val(args[0], env, b), self.val(args[1], env, b)
            if x and y and x[0] == y[0] == "v":
                return go(None, None, ("c", int((x[1] == y[1]) == (nm == "eq"))))
        if any(a.get("k") == "const" and (a.get("fn") or {}).get("crate") == "mpi" and "initialize" in a["fn"]["path"] for a in args):
            self.odd.setdefault(span, "initialize() is called by " + nm)
        # moved into a library function: gone
        if path in ("std::mem::drop", "core::mem::drop") or nm == "drop" and path.startswith("std::mem"):
            tys = " ".join(t[6]) if len(t) > 6 else ""
            if "Universe" in tys:
                v = self.val(args[0], env)
                if not (v and v[0] == "opt" and v[1] == 0):
                    return go("finalize", "done" if ts == "live" else ts)
        if nm == "exit" and path.startswith("std::process") or nm == "abort" and path.startswith("std::process"):
            return []
        given = lambda a: (self.val(a, env) or ("",))[0] == "clo" and self.relevant(self.val(a, env)[1])
        if f.get("inst") and self.body(f["inst"]) is not None and (self.relevant(f["inst"]) or any(given(a) for a in args)):
            if any(fr[0] == f["inst"] for fr in stack):
                self.odd.setdefault(span, "recursion of " + f["inst"])
                return go()
            cal = self.body(f["inst"])
            e2 = {}
            for i, a in enumerate(args):
                v = self.val(a, env, b)
                if v and v[0] in ("rank", "opt", "clo", "mixed", "v", "nv"):
                    e2[i + 1] = v
                    if v[0] == "opt" and a.get("k") == "move":
                        env.pop(a["p"][0], None)
                elif v and v[0] == "c" and (cal["locals"][i + 1][0] in ("bool",)):
                    e2[i + 1] = v
            here = stack[:-1] + ((inst, blk, tuple(sorted(env.items()))),)
            return [(None, (here + ((f["inst"], 0, tuple(sorted(e2.items()))),), ts))]
        # closures handed to a library function
        out = go()
        some = None
        if args and nm in ON_SOME + ON_NONE and re.match(r"(std|core)::option::Option", path):
            p0 = args[0].get("p") or [None, 1]
            v = self.val(args[0], env)
            if v and v[0] in ("opt", "v"):
                some = v[1] == 1
            elif not p0[1] and p0[0] is not None:
                ty = re.sub(r"^&(mut )?", "", self.body(inst)["locals"][p0[0]][0])
                some = self.scenario[ty] == 1 if ty in self.scenario else None
        for a in args:
            v = self.val(a, env)
            if v and v[0] == "clo" and v[1] and self.body(v[1]) is not None and self.relevant(v[1]) and not any(fr[0] == v[1] for fr in stack):
                here = stack[:-1] + ((inst, blk, tuple(sorted(env.items()))),)
                call = (None, (here + ((v[1], 0, ()),), ts))
                if nm == "map_or_else" and len(args) == 3 and some is not None:
                    if (a is args[2]) != some:
                        continue
                    out = out if inclosure else [call]
                elif nm in ON_SOME + ON_NONE and some is not None:
                    if some == (nm in ON_SOME) and not inclosure:
                        out = [call]
                else:
                    self.odd.setdefault(span, "%s decides how often a closure is called" % nm)
                    out.append(call)
        return out


ON_SOME = ("map", "map_or", "map_or_else", "and_then", "is_some_and", "inspect")
ON_NONE = ("unwrap_or_else", "or_else", "ok_or_else")


# ------------------------------------------------------------------ languages
def closure(R, S):
    todo, seen = list(S), set(S)
    while todo:
        s = todo.pop()
        for lab, n in R.edges.get(s, ()):
            if not isinstance(lab, tuple) and n not in seen:
                seen.add(n)
                todo.append(n)
    return frozenset(seen)


def moves(R, S):
    out = {}
    for s in S:
        for lab, n in R.edges.get(s, ()):
            if isinstance(lab, tuple):
                out.setdefault(lab, set()).add(n)
    return {k: closure(R, v) for k, v in out.items()}


def useful(R):
    """states from which the end is reached (panics are no ends)"""
    pred = {}
    for s, out in R.edges.items():
        for _, n in out:
            pred.setdefault(n, []).append(s)
    todo, seen = list(R.final), set(R.final)
    while todo:
        for p in pred.get(todo.pop(), ()):
            if p not in seen:
                seen.add(p)
                todo.append(p)
    return seen


def differ(A, SA, B, SB, uA, uB, limit=4000):
    """a sequence of collectives which one side can finish with and the other one cannot"""
    todo = [(closure(A, SA) & uA, closure(B, SB) & uB, ())]
    seen = set()
    while todo:
        x, y, w = todo.pop(0)
        if (x, y) in seen:
            continue
        seen.add((x, y))
        if len(seen) > limit:
            raise TooMany()
        if bool(x & A.final) != bool(y & B.final):
            return w, (A.name if x & A.final else B.name)
        mx, my = moves(A, x), moves(B, y)
        for lab in sorted(set(mx) | set(my), key=str):
            todo.append((frozenset(mx.get(lab, ())) & uA, frozenset(my.get(lab, ())) & uB, w + (lab,)))
    return None


def show(w):
    return "[" + ", ".join("%s%s" % (n, "(%s)" % t if t else "") for n, t in w) + "]"


ENTRIES = [("walky::solvers::exact::static_mpi_solver|[]", "static_mpi_solver"), ("walky::solvers::exact::dynamic_mpi_solver|[]", "dynamic_mpi_solver"),
           ('walky::solvers::approximate::nearest_neighbour::nearest_neighbour|["2"]', "nearest_neighbour (MPI)"), ('walky::one_tree::one_tree_lower_bound|["2"]', "one_tree_lower_bound (MPI)")]


def entries(P):
    """`run` once for each command line, and the functions that may be called as a library"""
    ad = {k.split("::")[-1]: a for k, a in P.adts.items() if k.startswith("walky::") and a.get("enum")}
    names = lambda t: [v["name"] for v in ad[t]["variants"]] if t in ad else []
    out = []
    path = lambda t: ad[t]["path"].split("::", 1)[1]
    if all(t in ad for t in ("Commands", "Parallelism")):
        for c, cv in enumerate(ad["Commands"]["variants"]):
            for d, pn in enumerate(names("Parallelism")):
                alg = [f[1] for f in cv["fields"] if f[0] == "algorithm"]
                alg = alg[0].split("::")[-1] if alg else None
                opt = [f[1] for f in cv["fields"] if f[1].startswith("std::option::Option<cli::")]
                for i, an in enumerate(names(alg)) if alg in ad else [(None, "")]:
                    base = {path("Commands"): c, path("Parallelism"): d}
                    if i is not None:
                        base[path(alg)] = i
                    title = "run %s %s -p %s" % (cv["name"], an, pn)
                    if not opt:
                        out.append(("walky::run|[]", title, base))
                        continue
                    ot = opt[0][len("std::option::Option<"):-1]
                    out.append(("walky::run|[]", title, {**base, opt[0]: 0}))
                    for j, on in enumerate(names(ot.split("::")[-1])):
                        out.append(("walky::run|[]", title + " -l " + on, {**base, opt[0]: 1, ot: j}))
    else:
        out.append(("walky::run|[]", "run", {}))
    return out + [(i, t, {}) for i, t in ENTRIES]


def protocol(ck):
    P = prog("mpi")
    for inst, title, scenario in entries(P):
        if inst not in P.bodies:
            cand = [k for k in P.bodies if k.split("|")[0] == inst.split("|")[0]]
            ck.ob("undecided" if cand else "viol", "mpi-entry", title, "the function is gone")
            continue
        root, work = Role(P, "rank 0", 0, 0, scenario), Role(P, "another rank", 1, 1 << 30, scenario)
        try:
            root.explore(inst)
            work.explore(inst)
        except TooMany:
            ck.ob("undecided", "mpi-states", title, "more than %d states" % MAXSTATES)
            continue
        for R in (root, work):
            for k in R.edges:
                ck.functions.add(k[0][-1][0].split("|")[0])
        # 1. typestate
        bad = {}
        for R in (root, work):
            for k, dt in R.bad.items():
                bad.setdefault(k, "%s: %s" % (R.name, dt))
        odd = {**root.odd, **work.odd}
        for (rule, where), dt in sorted(bad.items()):
            fn, line = where.rsplit(" ", 1)
            ck.ob("undecided" if odd else "viol", rule, "%s from %s" % (fn, title), "%s (%s)" % (dt, line))
        for rule in ("mpi-init-once", "mpi-live"):
            if not any(k[0] == rule for k in bad):
                ck.ob("ok", rule, title)
        # 2. collectives
        ua, ub = useful(root), useful(work)
        und = ", ".join("%s at %s" % (v, k) for k, v in sorted(odd.items()))
        try:
            r = differ(root, {root.start}, work, {work.start}, ua, ub)
            if r is None:
                ck.ob("ok", "mpi-collectives", title)
            else:
                ck.ob("undecided" if und else "viol", "mpi-collectives", title, "only %s can take part in exactly %s%s" % (r[1], show(r[0]), "; not understood: " + und if und else ""))
            for R, u in ((root, ua), (work, ub)):
                okm = True
                for st in sorted(R.mixed, key=str):
                    if st not in u:
                        continue
                    nx = [n for _, n in R.edges[st] if n in u]
                    for n in nx[1:]:
                        dd = differ(R, {nx[0]}, R, {n}, u, u)
                        if dd is not None:
                            fi, fb, _ = st[0][-1]
                            okm = False
                            ck.ob("viol", "mpi-collectives", "%s from %s" % (nice(P.bodies[fi]), title), "which collectives are called depends on a comparison of the own rank with something that is not the root: %s" % show(dd[0]))
                            break
                    if not okm:
                        break
                if okm:
                    ck.ob("ok", "mpi-collectives-rank", "%s, %s" % (title, R.name))
        except TooMany:
            ck.ob("undecided", "mpi-states", title, "languages too large")
        # 3. messages
        for A, B, an in ((root, work, "sent by rank 0"), (work, root, "sent by another rank")):
            sends = {(e[1], e[2]): k for k, e in A.events.items() if e[0] == "send"}
            recvs = {(e[1], e[2]): k for k, e in B.events.items() if e[0] == "recv"}
            if any("?" in x for x in list(sends) + list(recvs)):
                ck.ob("undecided", "mpi-messages", "%s, %s" % (title, an), "a tag or a type is not a constant")
                continue
            okk = True
            for (tag, ty), k in sorted(sends.items(), key=str):
                if not any(t2 == ty and tg in (None, tag) for tg, t2 in recvs):
                    okk = False
                    ck.ob("viol", "mpi-messages", "%s from %s" % (k.rsplit(" ", 1)[0], title), "nobody receives a message (tag %s, %s) %s" % (tag, ty, an))
            for (tag, ty), k in sorted(recvs.items(), key=str):
                if not any(t2 == ty and tag in (None, tg) for tg, t2 in sends):
                    okk = False
                    ck.ob("viol", "mpi-messages", "%s from %s" % (k.rsplit(" ", 1)[0], title), "waits for a message (tag %s, %s), which is never %s" % ("any" if tag is None else tag, ty, an))
            if okk:
                ck.ob("ok", "mpi-messages", "%s, %s: %d kinds" % (title, an, len(sends)))
        ck.notes.append("%s: %d + %d states, %d sites of communication" % (title, len(root.edges), len(work.edges), len({**root.events, **work.events})))
