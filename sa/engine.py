"""Abstract interpretation of monomorphised MIR with value numbering.

Local helpers and closures are inlined, paths are kept apart, loops are summarised by a fixpoint
over the set of loop-carried values (induction variables become affine in the iteration number,
other carried values become phi symbols and, where the shape of their update allows it, closed
forms such as sums, optima, maps, existence).  No solver, no execution: facts are only compared
syntactically after normalisation (plus one/two-fact linear entailment).
"""
import re
import sys
from terms import *

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class St:
    __slots__ = ("mem", "facts", "fset", "ev", "ks")

    def __init__(self, mem=None, facts=(), fset=frozenset(), ev=(), ks=()):
        self.mem = mem if mem is not None else {}
        self.facts = facts
        self.fset = fset
        self.ev = ev
        self.ks = ks

    def copy(self):
        return St(dict(self.mem), self.facts, self.fset, self.ev, self.ks)


class Ev:
    """one observable event on a path"""
    __slots__ = ("kind", "name", "args", "ret", "facts", "span", "x")

    def __init__(self, kind, name, args=(), ret=None, facts=(), span="", **x):
        self.kind, self.name, self.args, self.ret, self.facts, self.span, self.x = kind, name, args, ret, facts, span, x

    def __repr__(self):
        return "%s %s(%s)" % (self.kind, self.name, ", ".join(pp(a) for a in self.args))


class Path:
    """one complete path through a function (or loop body)"""

    def __init__(self, facts, ret, st, ev, label=None):
        self.facts, self.ret, self.st, self.ev, self.label = facts, ret, st, ev, label


class Loop:
    def __init__(self):
        self.uid = None
        self.where = ""
        self.init = {}     # leaf -> initial term
        self.phi = {}      # leaf -> phi term (non induction)
        self.ind = {}      # leaf -> (init, step)
        self.geo = {}      # leaf -> (init, div|mul, factor)
        self.backs = []    # [Path]  (label None) with .st, .facts = facts of this iteration
        self.exits = []    # [Path]  label = exit label
        self.N = None
        self.K = None
        self.entry = None


def nonneg_poly(t):
    c, d = (t.a[0], {}) if t.op == "int" else (t.a[0], dict(t.a[1])) if t.op == "lin" else (0, {(t,): 1})
    return c >= 0 and all(k >= 0 for k in d.values())


def _linfacts(fset):
    return [f.a[0] for f in fset if f.op == "ge0"]


# atoms which may be negative (everything else of integer sort is a count, index or length)
SIGNED = set()


class Facts:
    @staticmethod
    def decide(st, c, depth=0):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        fs = st.fset
        if c in fs:
            return True
        n = nt(c)
        if n in fs:
            return False
        o = c.op
        if o == "not":
            r = Facts.decide(st, c.a[0], depth)
            return None if r is None else not r
        if o == "ge0":
            if Facts.nonneg(st, c.a[0], depth):
                return True
            if Facts.nonneg(st, sub(neg(c.a[0]), I(1)), depth):
                return False
            return None
        if o == "eq0":
            l = c.a[0]
            if Facts.nonneg(st, sub(l, I(1)), depth) or Facts.nonneg(st, sub(neg(l), I(1)), depth):
                return False
            if Facts.nonneg(st, l, depth) and Facts.nonneg(st, neg(l), depth):
                return True
            return None
        if o == "and":
            rs = [Facts.decide(st, x, depth) for x in c.a]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
            return None
        if o == "or":
            rs = [Facts.decide(st, x, depth) for x in c.a]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if o == "flt_":
            a, b = c.a
            if T("flt_", b, a) in fs:
                return False
            if feq(a, b) in fs:
                return False
            if b is INF and a is not INF and False:
                return None
            if a is INF or b is NINF:
                return False
            return None
        if o == "feq":
            a, b = c.a
            if T("flt_", a, b) in fs or T("flt_", b, a) in fs:
                return False
            if nt(T("flt_", a, b)) in fs and nt(T("flt_", b, a)) in fs:
                return True
            return None
        if o == "isvar":
            for f in fs:
                if f.op == "isvar" and f.a[0] is c.a[0] and f.a[1] != c.a[1]:
                    return False
            return None
        if o == "contains":
            s, x = c.a
            if s.op == "push":
                r1 = Facts.decide(st, ieq(s.a[1], x), depth)
                r2 = Facts.decide(st, contains(s.a[0], x), depth)
                if r1 or r2:
                    return True
                if r1 is False and r2 is False:
                    return False
            return None
        return None

    @staticmethod
    def nonneg(st, l, depth=0):
        """is the integer term l provably >= 0?"""
        if nonneg_poly(l):
            return True
        if depth > 2:
            return False
        lf = _linfacts(st.fset)
        eqs = [f.a[0] for f in st.fset if f.op == "eq0"]
        cand = lf + eqs + [neg(e) for e in eqs]
        for f in cand:
            if nonneg_poly(sub(l, f)):
                return True
        if len(cand) <= 40:
            for i, f in enumerate(cand):
                r = sub(l, f)
                # only combine when it cancels something
                for g in cand[i:]:
                    if nonneg_poly(sub(r, g)):
                        return True
        return False


def assume(st, c):
    """-> new state with c added, or None if c is known to be false"""
    d = Facts.decide(st, c)
    if d is True:
        return st
    if d is False:
        return None
    parts = c.a if c.op == "and" else (c,)
    s = st
    for p in parts:
        d = Facts.decide(s, p)
        if d is True:
            continue
        if d is False:
            return None
        s = St(s.mem, s.facts + (p,), s.fset | {p}, s.ev, s.ks)
        if p.op == "or":
            und = [x for x in p.a if Facts.decide(s, x) is not False]
            if len(und) == 1:
                s = assume(s, und[0])
                if s is None:
                    return None
        # unit propagation into remembered disjunctions
        for f in s.facts:
            if f.op == "or" and f is not p:
                und = [x for x in f.a if Facts.decide(s, x) is not False]
                if not und:
                    return None
                if len(und) == 1 and und[0] not in s.fset:
                    s = St(s.mem, s.facts + (und[0],), s.fset | {und[0]}, s.ev, s.ks)
    if s is st:
        s = st.copy()
    return s


def fork(st, c):
    """-> [(state, bool)]"""
    d = Facts.decide(st, c)
    if d is not None:
        return [(st, d)]
    out = []
    a = assume(st.copy(), c)
    if a is not None:
        out.append((a, True))
    b = assume(st.copy(), nt(c))
    if b is not None:
        out.append((b, False))
    return out


def strip_generics(p):
    out = []
    d = 0
    i = 0
    while i < len(p):
        ch = p[i]
        if ch == "<":
            # keep "<impl X>" / "<X as Y>" segments at path start or after ::
            d += 1
            j = i + 1
            depth = 1
            while j < len(p) and depth:
                if p[j] == "<":
                    depth += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    depth -= 1
                j += 1
            inner = p[i + 1:j - 1]
            m = re.match(r"impl (.*)$", inner)
            if m and (i == 0 or p[i - 2:i] == "::") and " for " not in inner:
                t = m.group(1)
                t = {"[T]": "slice", "*mut T": "ptr", "*const T": "ptr", "str": "str", "[u8]": "slice"}.get(t, t)
                if "<" in t:
                    t = strip_generics(t)
                out.append(t)
            else:
                m = re.match(r"(.*) as (.*)$", inner)
                if m and i == 0:
                    out.append(strip_generics(m.group(2)))
            i = j
            continue
        out.append(ch)
        i += 1
    s = "".join(out)
    while "::::" in s:
        s = s.replace("::::", "::")
    return s.strip(":")


class Frame:
    __slots__ = ("body", "fid")

    def __init__(self, body, fid):
        self.body, self.fid = body, fid


def CELL(fid, l):
    return T("cell", fid, l)


PF = lambda i: T("pf", i)
PI = lambda i: T("pi", i)
PI2 = lambda i, j: T("pi2", i, j)
PSUB = lambda a, b: T("psub", a, b)
PROW = lambda i: T("prow", i)
PCOL = lambda i: T("pcol", i)
PDC = lambda v: T("pdc", v)
PFLAT = T("pflat")
PSING = lambda w: T("psing", w)      # a sequence of arrays of length w seen as one sequence
PPAIR = lambda w: T("ppair", w)      # a sequence seen as arrays of length w


def hasop(t, o):
    return any(x.op == o for x in subterms(t))


def ref(root, path=()):
    return T("ref", root, *path)


CASTS = set()


def pointee(ty):
    m = re.match(r"^(?:\*(?:const|mut)|&(?:'\w+ )?(?:mut)?) ?(.*)$", ty or "")
    return m.group(1) if m else None


def flatten(s, w):
    """the elements of the elements of s, each of which has w"""
    if s.op == "grouped" and s.a[1] == w:
        return s.a[0]
    return T("flatten", s, w)


def grouped(s, w):
    if s.op == "flatten" and s.a[1] == w:
        return s.a[0]
    return T("grouped", s, w)


def norm_path(path):
    out = []
    for e in path:
        if out:
            l = out[-1]
            if l.op == "psub" and e.op == "pi":
                out[-1] = PI(add(l.a[0], e.a[0]))
                continue
            if l.op == "psub" and e.op == "psub":
                out[-1] = PSUB(add(l.a[0], e.a[0]), add(l.a[0], e.a[1]))
                continue
            if l.op == "prow" and e.op == "pi2":
                out[-1] = PI2(l.a[0], e.a[1])
                continue
            if l.op == "prow" and e.op == "pi":
                out[-1] = PI2(l.a[0], e.a[0])
                continue
            if l.op == "pcol" and e.op == "pi2":
                out[-1] = PI2(e.a[0], l.a[0])
                continue
            if l.op == "pcol" and e.op == "pi":
                out[-1] = PI2(e.a[0], l.a[0])
                continue
        out.append(e)
    return tuple(out)


class Program:
    def __init__(self, dumps):
        self.bodies = {}
        self.adts = {}
        for d in dumps:
            for b in d["bodies"]:
                self.bodies.setdefault(b["id"], b)
            for a in d["adts"]:
                self.adts[a["path"]] = a

    def find(self, dpath=None, path=None, args=None):
        r = []
        for b in self.bodies.values():
            if dpath is not None and b["dpath"] != dpath:
                continue
            if path is not None and b["path"] != path:
                continue
            if args is not None and not args(b["args"]):
                continue
            r.append(b)
        return r


def cfg(body):
    """successors (non cleanup), loops: header -> set of blocks"""
    if "_loops" in body:
        return body
    bl = body["blocks"]
    succ = []
    for b in bl:
        t = b["t"]
        k = t[0]
        if b["c"]:
            succ.append([])
            continue
        if k == "goto":
            s = [t[1]]
        elif k == "switch":
            s = [x[1] for x in t[3]] + [t[4]]
        elif k == "call":
            s = [t[4]] if t[4] >= 0 else []
        elif k == "drop":
            s = [t[2]]
        elif k == "assert":
            s = [t[4]]
        else:
            s = []
        succ.append([x for x in s if not bl[x]["c"]])
    n = len(bl)
    # reachability + dominators
    order = []
    seen = set()

    def dfs(r):
        st = [(r, iter(succ[r]))]
        seen.add(r)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(succ[y])))
                    break
            else:
                order.append(x)
                st.pop()
    dfs(0)
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            pred[s].append(b)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in pred[b] if p in idom]
            if not ps:
                continue
            x = ps[0]
            for p in ps[1:]:
                y = p
                while x != y:
                    while num[x] > num[y]:
                        x = idom[x]
                    while num[y] > num[x]:
                        y = idom[y]
            if idom.get(b) != x:
                idom[b] = x
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if dom(s, b):
                L = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in L:
                        L.add(x)
                        st.extend(pred[x])
    body["_succ"] = succ
    body["_loops"] = loops
    return body


INT_TYS = {"usize", "u64", "u32", "u16", "u8", "isize", "i64", "i32", "i16", "i8", "u128", "i128", "char"}


class Engine:
    MAXPATHS = 4000
    loop_uids = 0  # never reused: what is known about the variables of a loop is kept globally

    def __init__(self, prog, opaque=None):
        self.prog = prog
        self.opaque = opaque or (lambda body: None)
        self.stack = []
        self.unmodelled = {}
        self.panics = []
        self.analysed = set()
        self.loops_done = 0
        self.ncalls = 0
        self.vf = 0
        from models import MODELS
        self.models = MODELS
        self.rec_handler = None
        self.steps = 0

    # ------------------------------------------------------------ entry
    def run(self, body, args=None, pre=()):
        """analyse body as an entry point -> [Path]"""
        st = St()
        fid = body["dpath"]
        vals = []
        names = []
        for i in range(body["arg_count"]):
            ty, nm = body["locals"][i + 1]
            nm = "p%d" % i
            names.append(nm)
            vals.append(args[i] if args and args[i] is not None else self.param(ty, nm, st))
        for c in pre:
            st = assume(st, c)
        outs = self.call_body(st, body, vals, fid)
        return [Path(s.facts, r, s, s.ev) for s, r in outs]

    def param(self, ty, nm, st):
        if ty.startswith("&"):
            root = T("vroot", T("sym", nm))
            inner = re.sub(r"^&('\w+ )?(mut )?", "", ty)
            if inner.startswith("&"):
                st.mem[root] = self.param(inner, nm + "*", st)
            else:
                st.mem[root] = T("sym", "*" + nm)
            return ref(root)
        return T("sym", nm)

    # ------------------------------------------------------------ memory
    def rd(self, st, root, path=()):
        v = st.mem.get(root)
        if v is None:
            if root.op == "vroot" and root.a[0].op == "const":
                v = root.a[0].a[0]
            elif root.op == "vroot":
                v = T("deref", root.a[0])
            else:
                v = T("unk", "uninit")
        for n, e in enumerate(path):
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        o = e.op
        if o == "pf":
            return fld(v, e.a[0])
        if o == "pdc":
            return dc(v, e.a[0])
        if o == "pi":
            return self.sidx(st, v, e.a[0])
        if o == "pi2":
            return self.sidx2(st, v, e.a[0], e.a[1])
        if o == "psub":
            return subseq(v, e.a[0], e.a[1])
        if o == "prow":
            return T("row", v, e.a[0])
        if o == "pcol":
            return T("col", v, e.a[0])
        if o == "pflat":
            return T("flat", v)
        if o == "psing":
            return flatten(v, e.a[0])
        if o == "ppair":
            return grouped(v, e.a[0])
        return T("unk", "proj " + o)

    def sidx(self, st, s, i):
        while True:
            if s.op == "push":
                if Facts.nonneg(st, sub(sub(length(s.a[0]), I(1)), i)):
                    s = s.a[0]
                    continue
                if Facts.decide(st, ieq(i, length(s.a[0]))) is True:
                    return s.a[1]
            elif s.op == "upd":
                d = Facts.decide(st, ieq(i, s.a[1]))
                if d is True:
                    return s.a[2]
                if d is False:
                    s = s.a[0]
                    continue
            elif s.op == "flat":
                ij = self.unflat(s.a[0], i)
                if ij:
                    return idx2(s.a[0], *ij)
            return idx(s, i)

    def sidx2(self, st, m, i, j):
        while m.op == "upd2":
            b, i2, j2, v = m.a
            di, dj = Facts.decide(st, ieq(i, i2)), Facts.decide(st, ieq(j, j2))
            if di and dj:
                return v
            if di is False or dj is False:
                m = b
                continue
            break
        return idx2(m, i, j)

    def unflat(self, m, off):
        """column-major offset -> (row, col)"""
        D = dim(m)
        from terms import _poly, _mk
        c, d = _poly(off)
        row, col = {}, {}
        colc = 0
        for mon, k in d.items():
            if D in mon:
                l = list(mon)
                l.remove(D)
                if l:
                    col[tuple(l)] = k
                else:
                    colc += k
            else:
                row[mon] = k
        return _mk(c, row), _mk(colc, col)

    def wr(self, st, root, path, x):
        if not path:
            st.mem[root] = x
            return
        base = self.rd(st, root)
        st.mem[root] = self.setp(st, base, path, x)

    def setp(self, st, v, path, x):
        if not path:
            return x
        e = path[0]
        o = e.op
        if v.op == "ref":
            raise Unsupported("write into a reference by value")
        if o == "pf":
            return setfld(v, e.a[0], self.setp(st, fld(v, e.a[0]), path[1:], x))
        if o == "pdc":
            if v.op == "agg":
                return self.setp(st, v, path[1:], x)
            # writing into the payload of a symbolic enum value
            inner = self.setp(st, dc(v, e.a[0]), path[1:], x)
            return T("enumwith", v, e.a[0], inner)
        if o == "pi":
            return upd(v, e.a[0], self.setp(st, self.sidx(st, v, e.a[0]), path[1:], x))
        if o == "pi2":
            return upd2(v, e.a[0], e.a[1], self.setp(st, self.sidx2(st, v, e.a[0], e.a[1]), path[1:], x))
        if o == "psub":
            return updsub(v, e.a[0], e.a[1], self.setp(st, subseq(v, e.a[0], e.a[1]), path[1:], x))
        if o == "pflat" and len(path) > 1 and path[1].op == "pi":
            i, j = self.unflat(v, path[1].a[0])
            return upd2(v, i, j, self.setp(st, self.sidx2(st, v, i, j), path[2:], x))
        if o == "psing":
            return grouped(self.setp(st, flatten(v, e.a[0]), path[1:], x), e.a[0])
        if o == "ppair":
            return flatten(self.setp(st, grouped(v, e.a[0]), path[1:], x), e.a[0])
        return T("unk", "set " + o)

    raw_track = False

    def raw(self, st, mode, r, off, n, ext, what=""):
        """records an access to memory which the compiler does not check: elements off..off+n-1 of ext behind r"""
        if self.raw_track:
            st.ev = st.ev + (Ev("raw", mode, (r, off, n, ext), None, st.facts, what),)

    def raw_ptr(self, st, mode, v, what=""):
        if self.raw_track and v.op in ("ptr", "unk"):
            if v.op == "ptr" and v.a[0].op == "ref":
                self.raw(st, mode, v.a[0], v.a[1], I(1), length(self.load(st, v.a[0])), what)
            else:
                self.raw(st, mode, v, I(0), I(1), T("unk", "extent"), what)

    def place(self, st, fr, p, mode="read"):
        """-> (root, path)"""
        root = CELL(fr.fid, p[0])
        path = []
        for e in p[1]:
            k = e[0]
            if k == "*":
                v = self.rd(st, root, norm_path(path))
                self.raw_ptr(st, mode, v, fr.body["id"])
                root, path = self.deref(v)
                path = list(path)
            elif k == ".":
                path.append(PF(e[1]))
            elif k == "i":
                path.append(PI(self.rd(st, CELL(fr.fid, e[1]))))
                path = list(norm_path(path))
            elif k == "ci":
                if e[2]:
                    v = self.rd(st, root, norm_path(path))
                    path.append(PI(sub(length(v), I(e[1]))))
                else:
                    path.append(PI(I(e[1])))
                path = list(norm_path(path))
            elif k == "ss":
                v = self.rd(st, root, norm_path(path))
                to = sub(length(v), I(e[2])) if e[3] else I(e[2])
                path.append(PSUB(I(e[1]), to))
                path = list(norm_path(path))
            elif k == "dc":
                path.append(PDC(e[1]))
            else:
                raise Unsupported("projection " + k)
        return root, norm_path(path)

    def deref(self, v):
        if v.op == "ref":
            return v.a[0], v.a[1:]
        if v.op == "ptr":
            r = v.a[0]
            return r.a[0], norm_path(tuple(r.a[1:]) + (PI(v.a[1]),))
        if v.op == "box":
            return v.a[0], ()
        return T("vroot", v), ()

    def load(self, st, r):
        root, path = self.deref(r)
        return self.rd(st, root, path)

    def store(self, st, r, x):
        root, path = self.deref(r)
        self.wr(st, root, path, x)

    def deep(self, st, v, n=0):
        """value with references replaced by what they point to"""
        if v.op == "ref" and n < 8:
            return self.deep(st, self.load(st, v), n + 1)
        if v.op == "agg" and n < 8 and any(isinstance(x, Term) for x in v.a[2:]):
            return T("agg", v.a[0], v.a[1], *[self.deep(st, x, n + 1) for x in v.a[2:]])
        return v

    # ------------------------------------------------------------ operands
    def operand(self, st, fr, o):
        k = o["k"]
        if k in ("copy", "move"):
            root, path = self.place(st, fr, o["p"])
            return self.rd(st, root, path)
        return self.const(o)

    def const(self, o):
        ty = o["ty"]
        if "fn" in o:
            f = o["fn"]
            return T("fn", f.get("inst") or "", strip_generics(f["path"]), "\x00".join(str(x) for x in f.get("args", ())))
        if "closure" in o:
            return agg("closure:" + o["closure"], 0)
        v = o.get("val")
        if isinstance(v, bool):
            return B(v)
        if isinstance(v, int):
            if ty in INT_TYS or True:
                if ty not in INT_TYS and self.enum_of(ty) is not None:
                    return agg(ty, v)
                return I(v)
        if isinstance(v, dict):
            if "f" in v:
                return F(v["f"])
            if "str" in v:
                return T("str", v["str"])
            if "ptr" in v:
                return self.const_ptr(ty, v["ptr"])
            if "mem" in v:
                x = self.decode(ty, v["mem"].get("bytes", []))
                if x is not None:
                    return x
        if v is None and "val" in o:
            if ty == "()":
                return UNIT
            if ty.startswith("{closure"):
                return T("unk", ty)
            return agg(ty, 0)
        n = o.get("name")
        if n:
            if n.endswith("INFINITY"):
                return NINF if "NEG" in n else INF
            return T("named", n)
        return T("unk", "const " + ty)

    def enum_of(self, ty):
        a = self.prog.adts.get("walky::" + ty) or self.prog.adts.get(ty)
        if a and a["enum"]:
            return a
        return None

    SZ = {"usize": 8, "u64": 8, "i64": 8, "isize": 8, "i32": 4, "u32": 4, "f64": 8, "u8": 1, "bool": 1}

    def decode(self, ty, b):
        import struct
        if ty in self.SZ:
            n = self.SZ[ty]
            if len(b) < n:
                return None
            raw = bytes(b[:n])
            if ty == "f64":
                return F(repr(struct.unpack("<d", raw)[0]))
            if ty == "bool":
                return B(bool(raw[0]))
            return I(int.from_bytes(raw, "little", signed=ty[0] == "i"))
        m = re.match(r"\[(.*); (\d+)\]$", ty)
        if m:
            et, n = m.group(1), int(m.group(2))
            if n == 0:
                return SEQ0
            sz = self.size(et)
            if sz is None or len(b) < sz * n:
                return None
            xs = [self.decode(et, b[i * sz:(i + 1) * sz]) for i in range(n)]
            if any(x is None for x in xs):
                return None
            return agg("array", 0, *xs)
        m = re.match(r"std::option::Option<(.*)>$", ty)
        if m and m.group(1) in self.SZ and len(b) == 16:
            tag = int.from_bytes(bytes(b[:8]), "little")
            return NONE if tag == 0 else some(self.decode(m.group(1), b[8:16]))
        if self.enum_of(ty) is not None and len(b) >= 1:
            return agg(ty, b[0])
        return None

    def size(self, ty):
        if ty in self.SZ:
            return self.SZ[ty]
        m = re.match(r"\[(.*); (\d+)\]$", ty)
        if m:
            s = self.size(m.group(1))
            return s and s * int(m.group(2))
        return None

    def const_ptr(self, ty, al):
        m = re.match(r"&('\w+ )?(mut )?(.*)$", ty)
        inner = m.group(3) if m else ty
        if "static" in al:
            return ref(T("vroot", T("static", al["static"])))
        b = al.get("bytes", [])
        if inner.startswith("[") and inner.endswith("]") and ";" not in inner:
            x = SEQ0 if not b else None
        else:
            x = self.decode(inner, b)
        if x is None and al.get("ptrs"):
            # pointer to a str / slice: keep the text
            q = al["ptrs"][0][1]
            x = T("str", bytes(q.get("bytes", [])).decode("utf8", "replace"))
        if x is None:
            x = T("bytes", inner, bytes(b).decode("latin1"))
        return ref(T("vroot", T("const", x)))

    # ------------------------------------------------------------ rvalues
    def is_float(self, ty):
        return ty in ("f64", "f32")

    def binop(self, op, a, b, ty):
        op = op.replace("Unchecked", "")
        if op.startswith("WithOverflow") or op.endswith("WithOverflow"):
            op = op.replace("WithOverflow", "")
            return tup(self.binop(op, a, b, ty), FALSE)
        if self.is_float(ty):
            f = {"Add": fadd, "Sub": fsub, "Mul": fmul, "Div": fdiv, "Lt": flt, "Le": fle,
                 "Gt": lambda x, y: flt(y, x), "Ge": lambda x, y: fle(y, x), "Eq": feq,
                 "Ne": lambda x, y: nt(feq(x, y))}.get(op)
            if f:
                return f(a, b)
            return T(op, a, b)
        if ty == "bool":
            if op == "BitAnd":
                return conj([a, b])
            if op == "BitOr":
                return disj([a, b])
            if op in ("BitXor", "Ne"):
                return self.bxor(a, b)
            if op == "Eq":
                return nt(self.bxor(a, b))
        if ty in INT_TYS:
            f = {"Add": add, "Sub": sub, "Mul": mul, "Div": div, "Rem": rem, "Lt": lt, "Le": le,
                 "Gt": lambda x, y: lt(y, x), "Ge": lambda x, y: le(y, x), "Eq": ieq,
                 "Ne": lambda x, y: nt(ieq(x, y))}.get(op)
            if f:
                return f(a, b)
            if op == "BitAnd" and b.op == "int" and b.a[0] == 1:
                return rem(a, I(2))
            if op == "Shr" and b.op == "int":
                return div(a, I(1 << b.a[0]))
            if op == "Shl" and b.op == "int":
                return mulc(a, 1 << b.a[0])
            if op == "Cmp":
                return T("cmp", a, b, "i")
            if op == "Shl":
                return T("Shl", a, b, I({"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u128": 128, "i128": 128}.get(ty, 64)))
            return T(op, a, b)
        if op == "Eq":
            return eqv(a, b)
        if op == "Ne":
            return nt(eqv(a, b))
        if op == "Offset" and a.op == "ptr":
            return T("ptr", a.a[0], add(a.a[1], b))
        return T(op, a, b)

    def bxor(self, a, b):
        if a is FALSE:
            return b
        if b is FALSE:
            return a
        if a is TRUE:
            return nt(b)
        if b is TRUE:
            return nt(a)
        if a is b:
            return FALSE
        return T("xor", *sorted((a, b), key=lambda t: t.id))

    def rvalue(self, st, fr, rv, dty):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "bin":
            return self.binop(rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), rv[4])
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                return nt(a) if rv[3] == "bool" else T("bitnot", a)
            if rv[1] == "Neg":
                return fneg(a) if self.is_float(rv[3]) else neg(a)
            if rv[1] == "PtrMetadata":
                return length(self.load(st, a))
            return T("unk", "un " + rv[1])
        if k == "ref" or k == "rawptr":
            root, path = self.place(st, fr, rv[1], "ref")
            return ref(root, path)
        if k == "cast":
            return self.cast(st, rv[1], self.operand(st, fr, rv[2]), rv[3], rv[4])
        if k == "discr":
            root, path = self.place(st, fr, rv[1])
            return self.discr(self.rd(st, root, path))
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in rv[2]]
            a = rv[1]
            if a["a"] == "tuple":
                return tup(*ops)
            if a["a"] == "array":
                return agg("array", 0, *ops) if ops else SEQ0
            if a["a"] == "adt":
                return agg(a["path"], a["v"], *ops)
            if a["a"] == "closure":
                return agg("closure:" + a["inst"], 0, *ops)
            return T("unk", "agg")
        if k == "repeat":
            n = rv[2]
            m = re.match(r"^(\d+)", n)
            x = self.operand(st, fr, rv[1])
            if m:
                n = int(m.group(1))
                return agg("array", 0, *([x] * n)) if n <= 8 else T("rep", x, I(n))
            return T("rep", x, T("unk", n))
        return T("unk", "rvalue " + k)

    def discr(self, v):
        if v.op == "agg":
            if v.a[0] == ORD:
                return I(v.a[1] - 1)
            return I(v.a[1])
        return T("discr", v)

    def cast(self, st, kind, v, ty, sty=""):
        if kind.startswith("PointerCoercion"):
            return v
        if kind == "BoxDerefTransmute":
            while v.op == "fld":
                v = v.a[0]
            return T("ref", v.a[0]) if v.op == "box" else v
        if kind == "IntToFloat":
            v = T("tofloat", v)
            return T("f32", v) if ty == "f32" else v
        if kind == "FloatToInt":
            return T("toint", v)
        if kind == "FloatToFloat" and ty == "f32" and sty != "f32":
            return T("f32", v)
        if kind == "IntToInt" and ty in ("u8", "i8", "u16", "i16") and sty not in ("u8", "i8", "u16", "i16", "bool", "char") and not (v.op == "int" and 0 <= v.a[0] < 128):
            return T("trunc", v, T("named", ty))
        if kind == "PtrToPtr" or kind == "Transmute":
            pt, ps = pointee(ty), pointee(sty)
            if pt and ps and pt != ps and v.op in ("ptr", "ref"):
                r, o = (v.a[0], v.a[1]) if v.op == "ptr" else (v, None)
                for big, small, el in ((pt, ps, PPAIR), (ps, pt, PSING)):
                    m = re.match(r"^\[(.*); (\d+)(_usize)?\]$", big)
                    if m and m.group(1) == small and v.op == "ptr" and o is I(0):
                        return T("ptr", ref(r.a[0], norm_path(tuple(r.a[1:]) + (el(int(m.group(2))),))), I(0))
                CASTS.add((sty, ty))
            return v
        return v

    # ------------------------------------------------------------ execution
    def call_body(self, st, body, args, fid):
        bid = body["id"]
        if len(self.stack) > 60:
            raise Unsupported("inlining too deep")
        cfg(body)
        self.analysed.add(body["dpath"])
        fr = Frame(body, fid)
        st = st.copy()
        for i, v in enumerate(args):
            st.mem[CELL(fid, i + 1)] = v
        self.stack.append(bid)
        try:
            outs = self.region(st, fr, 0, None)
        finally:
            self.stack.pop()
        res = []
        for lab, s, x in outs:
            if lab == "ret":
                r = self.rd(s, CELL(fid, 0))
                for c in [c for c in s.mem if c.op == "cell" and c.a[0] == fid]:
                    del s.mem[c]
                res.append((s, r))
        return res

    def region(self, st, fr, start, loop):
        """run from block `start` -> [(label, state, extra)]; inside `loop` (header) if not None"""
        body = fr.body
        loops = body["_loops"]
        inl = loops[loop] if loop is not None else None
        out = []
        work = [(start, st, True)]
        while work:
            if len(work) + len(out) > self.MAXPATHS:
                raise Unsupported("too many paths in " + body["dpath"])
            b, s, first = work.pop()
            if inl is not None and b not in inl:
                out.append(("exit", s, b))
                continue
            if b == loop and not first:
                out.append(("back", s, None))
                continue
            if b in loops and b != loop:
                for lab, s2 in self.mir_loop(s, fr, b):
                    if lab[0] == "ret":
                        out.append(("ret", s2, None))
                    else:
                        work.append((lab[1], s2, False))
                continue
            for lab, s2, x in self.block(s, fr, b):
                if lab == "go":
                    work.append((x, s2, False))
                elif lab == "retry":
                    # a filtering iterator skipped an element: same as coming back to this block
                    if b == loop:
                        out.append(("back", s2, None))
                    else:
                        raise Unsupported("filtered next() outside of a loop header in " + body["dpath"])
                else:
                    out.append((lab, s2, x))
        return out

    def block(self, st, fr, b):
        self.steps += 1
        if self.steps > 600000:
            raise Unsupported("analysis budget exceeded")
        bl = fr.body["blocks"][b]
        st = st.copy()
        locs = fr.body["locals"]
        for s in bl["s"]:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fr, s[2], locs[s[1][0]][0])
                root, path = self.place(st, fr, s[1], "write")
                self.wr(st, root, path, v)
            elif k == "dead":
                st.mem.pop(CELL(fr.fid, s[1]), None)
            elif k == "setd":
                root, path = self.place(st, fr, s[1])
                v = self.rd(st, root, path)
                self.wr(st, root, path, T("unk", "setd"))
        t = bl["t"]
        k = t[0]
        if k == "goto":
            return [("go", st, t[1])]
        if k == "return":
            return [("ret", st, None)]
        if k == "drop":
            root, path = self.place(st, fr, t[1])
            v = self.rd(st, root, path)
            self.on_drop(st, v, t[3], t[4])
            return [("go", st, t[2])]
        if k == "assert":
            c = self.operand(st, fr, t[1])
            if not t[2]:
                c = nt(c)
            s2 = assume(st, c)
            if s2 is None:
                self.panics.append((fr.body["dpath"], t[5], st.facts))
                return []
            return [("go", s2, t[4])]
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "call":
            return self.call(st, fr, b, t)
        if k in ("unreachable", "resume"):
            return []
        raise Unsupported("terminator " + k)

    def on_drop(self, st, v, ty, span):
        v = v
        if v.op == "guard" or "MutexGuard" in ty:
            if v.op == "guard":
                st.ev = st.ev + (Ev("unlock", "drop", (v,), None, st.facts, span),)

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        ty = t[2]
        tg = t[3]
        other = t[4]
        out = []
        if ty == "bool":
            m = dict((x, b) for x, b in tg)
            f = m.get(0, other)
            tr = m.get(1, other)
            for s, r in fork(st, v):
                out.append(("go", s, tr if r else f))
            return out
        if v.op == "int":
            n = v.a[0]
            for x, b in tg:
                if x == n or (n < 0 and x == n + 256) or (n < 0 and x == n + (1 << 64)):
                    return [("go", st, b)]
            return [("go", st, other)]
        unreach = fr.body["blocks"][other]["t"][0] == "unreachable"
        conds = []
        for x, b in tg:
            conds.append((self.discr_is(v, x, tg, unreach), b))
        cur = st
        for n, (c, b) in enumerate(conds):
            if unreach and n == len(conds) - 1:
                s = assume(cur, c)
                if s is not None:
                    out.append(("go", s, b))
                cur = None
                break
            nxt = None
            for s, r in fork(cur, c):
                if r:
                    out.append(("go", s, b))
                else:
                    nxt = s
            cur = nxt
            if cur is None:
                break
        if cur is not None and not unreach:
            out.append(("go", cur, other))
        return out

    def discr_is(self, v, x, tg, unreach):
        if v.op == "discr":
            w = v.a[0]
            if w.op == "cmp":
                a, b, srt = w.a
                x = x - 256 if x > 127 else x
                x = x - (1 << 64) if x > 1 << 32 else x
                if srt == "f":
                    return {-1: flt(a, b), 0: feq(a, b), 1: flt(b, a)}[x]
                return {-1: lt(a, b), 0: ieq(a, b), 1: lt(b, a)}[x]
            if {y for y, _ in tg} <= {0, 1} and (unreach or len(tg) == 1):
                # two variant enums: one atom
                if len(tg) == 2 or self.two(w):
                    return isvar(w, 1) if x == 1 else nt(isvar(w, 1))
            return isvar(w, x)
        return ieq(v, I(x if x < (1 << 63) else x - (1 << 64)))

    def two(self, w):
        return True

    # ------------------------------------------------------------ calls
    def call(self, st, fr, b, t):
        _, func, args, dest, target, span, argtys, retty = t
        vals = [self.operand(st, fr, a) for a in args]
        fid = "%s/%d" % (fr.fid, b)
        if "fn" in func:
            f = func["fn"]
            outs = self.invoke(st, f, vals, fid, span, argtys, retty, fr)
        else:
            fv = self.operand(st, fr, func)
            outs = self.call_value(st, fv, vals, fid, span)
        res = []
        for s, r in outs:
            if r == "retry":
                res.append(("retry", s, None))
                continue
            if target < 0:
                continue
            s = s.copy()
            root, path = self.place(s, fr, dest, "write")
            self.wr(s, root, path, r)
            res.append(("go", s, target))
        if target < 0:
            self.panics.append((fr.body["dpath"], span, st.facts))
        return res

    def invoke(self, st, f, vals, fid, span, argtys, retty, fr=None):
        self.ncalls += 1
        inst = f.get("inst")
        name = strip_generics(f["path"])
        if len(vals) == 2 and name.split("::")[-2:] in (["Fn", "call"], ["FnMut", "call_mut"], ["FnOnce", "call_once"]):
            # the arguments come as one tuple
            args = None
            if vals[1].op == "agg" and vals[1].a[0] == "tuple":
                args = list(vals[1].a[2:])
            elif inst in self.prog.bodies:
                args = [fld(vals[1], i) for i in range(self.prog.bodies[inst]["arg_count"] - 1)]
            if args is not None:
                return self.call_value(st, vals[0], args, fid, span)
        if inst and inst in self.prog.bodies:
            body = self.prog.bodies[inst]
            return self.call_local(st, body, vals, fid, span, argtys, retty)
        rname = strip_generics(f.get("rpath") or "")
        m = self.lookup(name, rname)
        if m is None:
            # calls through Fn* traits
            return self.unknown(st, name, vals, fid, span, argtys, retty)
        return m(self, st, Call(name, rname, f, vals, fid, span, argtys, retty, fr))

    def lookup(self, name, rname):
        for nm in (name, rname):
            if nm in self.models:
                return self.models[nm]
        seg = name.split("::")
        k = "::".join(seg[-2:])
        if k in self.models:
            return self.models[k]
        if rname:
            k = "::".join(rname.split("::")[-2:])
            if k in self.models:
                return self.models[k]
        return None

    def call_local(self, st, body, vals, fid, span, argtys, retty):
        op = self.opaque(body)
        if callable(op):
            r = op(self, st, body, vals, fid, span)
            if r is not None:
                return r
        elif op or body["id"] in self.stack:
            return self.opaque_call(st, body, vals, fid, span, argtys, retty, rec=body["id"] in self.stack, name=op)
        return self.call_body(st, body, vals, fid)

    def opaque_call(self, st, body, vals, fid, span, argtys, retty, rec=False, name=None):
        if not isinstance(name, str):
            name = body["path"]
            name = name[len("walky::"):] if name.startswith("walky::") else name
        deep = tuple(self.deep(st, v) for v in vals)
        gargs = tuple(a for a in body["args"] if re.match(r"^\d+$", a))
        if gargs:
            name += "::<%s>" % ",".join(gargs)
        st = st.copy()
        callt = T("call", name, *deep)
        if rec and self.rec_handler:
            return self.rec_handler(self, st, body, vals, deep, fid, span, argtys, retty)
        muts = []
        for n, (v, ty) in enumerate(zip(vals, argtys)):
            if ty.startswith("&mut ") or re.match(r"^&'\w+ mut ", ty):
                if v.op in ("ref", "ptr"):
                    post = T("out", callt, n)
                    s0 = self.load(st, v)
                    if length_like(s0):
                        pass
                    self.store(st, v, post)
                    muts.append((n, deep[n], post))
        st.ev = st.ev + (Ev("rec" if rec else "call", name, deep, callt, st.facts, span, body=body["id"], vals=tuple(vals), muts=tuple(muts), fid=fid),)
        return [(st, UNIT if retty == "()" else callt)]

    def unknown(self, st, name, vals, fid, span, argtys, retty):
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        st = st.copy()
        deep = tuple(self.deep(st, v) for v in vals)
        u = T("unk", name, *deep)
        for n, (v, ty) in enumerate(zip(vals, argtys)):
            if "&mut" in ty or re.match(r"^&'\w+ mut ", ty):
                if v.op in ("ref", "ptr"):
                    self.store(st, v, T("unk", "out%d" % n, u))
        st.ev = st.ev + (Ev("ext", name, deep, u, st.facts, span, argtys=tuple(argtys)),)
        return [(st, UNIT if retty == "()" else u)]

    def clo_args(self, f):
        """number of arguments a closure value takes (without itself)"""
        if f.op == "agg" and str(f.a[0]).startswith("closure:"):
            b = self.prog.bodies.get(f.a[0][len("closure:"):])
            if b is not None:
                return b["arg_count"] - 1
        return 1

    def site(self, st, fid):
        return T("site", fid, *st.ks)

    def call_value(self, st, f, args, fid, span=""):
        """call a closure value / fn item with a list of arguments"""
        n = 0
        while f.op == "ref" and n < 6:
            inner = self.load(st, f)
            if inner.op == "agg" and str(inner.a[0]).startswith("closure:"):
                return self.call_closure(st, inner, f, args, fid, span)
            f = inner
            n += 1
        if f.op == "agg" and str(f.a[0]).startswith("closure:"):
            return self.call_closure(st, f, None, args, fid, span)
        if f.op == "fn":
            inst = f.a[0]
            if inst and inst in self.prog.bodies:
                body = self.prog.bodies[inst]
                tys = [body["locals"][i + 1][0] for i in range(body["arg_count"])]
                return self.call_local(st, body, args, fid, span, tys, body["locals"][0][0])
            m = self.lookup(f.a[1], "")
            if m:
                gen = f.a[2].split("\x00") if f.a[2] else []
                base = gen[0] if gen else "?"
                m2 = re.match(r"(?:std|core)?:*(f64|usize|i32|u32|u64|i64|u8|bool)::", f.a[1])
                if m2:
                    base = m2.group(1)
                tys = [("&" + base if a.op in ("ref", "ptr") and not base.startswith("&") else base) for a in args]
                return m(self, st, Call(f.a[1], "", {"path": f.a[1], "args": gen}, args, fid, span, tys, "?", None))
            # tuple struct / variant constructors used as functions
            nm = f.a[1].split("::")[-1]
            if nm == "Some":
                return [(st, some(args[0]))]
            if nm == "Ok":
                return [(st, ok(args[0]))]
            if nm == "Err":
                return [(st, err(args[0]))]
            if nm[:1].isupper():
                return [(st, agg(f.a[1], 0, *args))]
        if f.op == "sym" and not any(a.op == "ptr" for a in args):
            # a function pointer of the caller: shared references only, so no memory changes
            deep = tuple(self.deep(st, a) for a in args)
            st = st.copy()
            t = T("call", "dyn", f, *deep)
            st.ev = st.ev + (Ev("call", "dyn", (f,) + deep, t, st.facts, span),)
            return [(st, t)]
        return self.unknown(st, "call of " + f.op, [f] + list(args), fid, span, ["?"] * (len(args) + 1), "?")

    def call_closure(self, st, clo, place, args, fid, span):
        inst = clo.a[0][len("closure:"):]
        body = self.prog.bodies.get(inst)
        if body is None:
            return self.unknown(st, "closure " + inst[:60], [clo] + list(args), fid, span, ["?"] * (len(args) + 1), "?")
        sty = body["locals"][1][0]
        st = st.copy()
        if sty.startswith("&"):
            if place is None:
                cell = CELL(fid + "/c", 0)
                st.mem[cell] = clo
                place = ref(cell)
            selfv = place
        else:
            selfv = clo
        if body["id"] in self.stack:
            raise Unsupported("recursive closure")
        return self.call_body(st, body, [selfv] + list(args), fid + "/c")

    # ------------------------------------------------------------ loops
    def mir_loop(self, st, fr, header):
        body = fr.body

        def run(s):
            backs, exits = [], []
            for lab, s2, x in self.region(s, fr, header, header):
                if lab == "back":
                    backs.append(s2)
                elif lab == "ret":
                    exits.append((("ret",), s2))
                else:
                    exits.append((("blk", x), s2))
            return backs, exits
        span = self.block_span(body, header)
        n = self.few(st, fr, header)
        if n is not None:
            # a handful of rounds: run them one after the other
            outs, states = [], [st]
            for _ in range(n + 1):
                nxt = []
                for s in states:
                    backs, exits = run(s)
                    nxt += backs
                    outs += exits
                states = nxt
            if not states and len(outs) <= 16:
                return outs
        return self.loop(st, run, body["dpath"], span)

    def few(self, st, fr, header):
        """the number of rounds of a for loop over few given elements"""
        bl = fr.body["blocks"][header]
        t = bl["t"]
        if t[0] != "call" or len(t[2]) != 1 or not self.callee(t).endswith("Iterator::next"):
            return None
        import models as MO
        s2 = st.copy()
        try:
            for s in bl["s"]:
                if s[0] == "=":
                    v = self.rvalue(s2, fr, s[2], fr.body["locals"][s[1][0]][0])
                    root, path = self.place(s2, fr, s[1])
                    self.wr(s2, root, path, v)
            a = self.operand(s2, fr, t[2][0])
            if a.op != "ref":
                return None
            d = MO.to_dom(self.load(s2, a))
            if d is None:
                return None
            n = MO.dlen(self, s2, d)
        except Exception:
            return None
        return n.a[0] if n.op == "int" and 0 <= n.a[0] <= 3 else None

    def callee(self, t):
        f = t[1].get("fn") if isinstance(t[1], dict) else None
        return (f or {}).get("path", "")

    def block_span(self, body, b):
        bl = body["blocks"][b]
        t = bl["t"]
        if t[0] == "call":
            return t[5]
        if t[0] == "switch":
            return t[5]
        for s in bl["s"]:
            if s[0] == "=":
                return s[3]
        return body["span"]

    def loop(self, st0, run, where, span):
        """generic loop summary; run(header state) -> (back states, [(label, exit state)])"""
        Engine.loop_uids += 1
        uid = Engine.loop_uids
        K = T("k", uid)
        leaves = {}   # (cell, path) -> dict(phi, init, ind)
        order = []
        st0 = st0.copy()
        ks = st0.ks + (K,)
        LENOF_keys = []
        for it in range(40):
            h = St(dict(st0.mem), st0.facts, st0.fset, (), ks)
            for lf in order:
                cell, path = lf
                info = leaves[lf]
                v = info["term"]
                h.mem[cell] = setpath(h.mem[cell], path, v)
            hm = dict(h.mem)
            backs, exits = run(h)
            new = []
            for bst in backs:
                for cell, hv in hm.items():
                    bv = bst.mem.get(cell)
                    if bv is None or bv is hv:
                        continue
                    diff(hv, bv, (), lambda p, c=cell: new.append((c, p)) if (c, p) not in new else None, leaves, cell)
            fresh = [x for x in new if x not in leaves]
            # drop leaves below/above existing ones
            changed = False
            for lf in fresh:
                cell, path = lf
                for ex in list(order):
                    if ex[0] is cell and ex[1][:len(path)] == path and ex != lf:
                        order.remove(ex)
                        del leaves[ex]
                phi = T("phi", uid, len(leaves) + 100 * it)
                leaves[lf] = dict(term=phi, phi=phi, init=getpath(st0.mem[cell], path), ind=None)
                order.append(lf)
                changed = True
            if changed:
                continue
            # stable set of leaves: look for induction variables and lengths
            prog = False
            for lf in order:
                info = leaves[lf]
                if info["ind"] is not None or info.get("noind"):
                    continue
                cell, path = lf
                phi = info["phi"]
                vals = [getpath(b.mem[cell], path) if cell in b.mem else None for b in backs]
                if not vals or any(v is None for v in vals):
                    continue
                ds = [cdiff(v, phi) for v in vals]
                if all(d is not None and d == ds[0] for d in ds) and intlike(info["init"]):
                    info["ind"] = ds[0]
                    info["term"] = add(info["init"], mulc(K, ds[0]))
                    prog = True
                    continue
                if all(v.op in ("div", "lin") for v in vals) and vals[0] is not phi and all(v is vals[0] for v in vals) and intlike(info["init"]):
                    # geometric: divided or multiplied by the same number in every round
                    v = vals[0]
                    c = v.a[1] if v.op == "div" and v.a[0] is phi else None
                    if c is None and v.op == "lin":
                        if v.a[0] == 0 and len(v.a[1]) == 1 and phi in v.a[1][0][0]:
                            m, k = v.a[1][0]
                            m = list(m)
                            m.remove(phi)
                            c = I(k)
                            for x in m:
                                c = mul(c, x)
                    if c is not None and not c.free & ({K} | {i["phi"] for i in leaves.values()}):
                        info["geo"] = info["ind"] = ("div" if v.op == "div" else "mul", c)
                        info["term"] = div(info["init"], powi(c, K)) if v.op == "div" else mul(info["init"], powi(c, K))
                        prog = True
                        continue
                if phi not in LENOF and "len" not in info:
                    # sequences with a known growth
                    lp = T("len", phi)
                    lens = [cdiff(length(v), lp) if seqlike(v) or v is phi else None for v in vals]
                    if lens and all(d is not None and d == lens[0] for d in lens) and any(seqlike(v) for v in vals):
                        info["len"] = lens[0]
                        LENOF[phi] = add(length(info["init"]), mulc(K, lens[0]))
                        prog = True
                    elif all(matlike(v) or v is phi for v in vals) and any(matlike(v) for v in vals):
                        dp = T("dim", phi)
                        if all(dim(v) is dp for v in vals):
                            info["len"] = 0
                            LENOF[phi] = dim(info["init"])
                            prog = True
            if prog:
                continue
            break
        else:
            raise Unsupported("loop fixpoint did not settle in " + where)
        L = Loop()
        L.uid = uid
        L.K = K
        L.where = where
        L.span = span
        L.entry = st0
        nf = len(st0.facts)
        for lf in order:
            info = leaves[lf]
            L.init[lf] = info["init"]
            if info.get("geo"):
                L.geo[lf] = (info["init"],) + info["geo"]
            elif info["ind"] is not None:
                L.ind[lf] = (info["init"], info["ind"])
            else:
                L.phi[lf] = info["phi"]
        for b in backs:
            L.backs.append(Path(b.facts[nf:], None, b, b.ev))
        for lab, e in exits:
            L.exits.append(Path(e.facts[nf:], None, e, e.ev, lab))
        self.loops_done += 1
        return self.close(L, st0, leaves, order, hm)

    def close(self, L, st0, leaves, order, hm):
        K = L.K
        phis = frozenset(L.phi.values())
        nf = len(st0.facts)
        # --- the exhaustion guard: an exit taken on a condition K >= N with N loop invariant
        common = None
        for p in L.backs:
            common = set(p.facts) if common is None else common & set(p.facts)
        common = common or set()
        N = None
        guard = None
        guards = []
        for f in common:
            if f.op == "ge0" and K in f.free and not (f.free & phis):
                # ge0(N - 1 - K)?
                n = add(add(f.a[0], K), I(1))
                if K not in n.free:
                    guards.append((f, n))
        ex_exit = []
        for f, n in guards:
            e = [p for p in L.exits if nt(f) in p.facts and p.facts.index(nt(f)) == self.first_k(p, K, phis)]
            if e:
                guard, N, ex_exit = f, n, e
                break
        if guard is None and not L.backs:
            pass
        L.N = N
        L.guard = guard
        # several loop bounds (zip / compound conditions) stay as conditions
        brk = [p for p in L.exits if p not in ex_exit]
        L.brk, L.exh = brk, ex_exit
        # rounds of inner loops, which differ between the rounds of this one
        ent = {x for f in st0.facts for x in subterms(f) if x.op == "kx"}
        INNERKX.update(x for p in L.backs + L.exits for f in p.facts for x in subterms(f) if x.op == "kx" and x not in ent)
        # --- conditions under which the loop is left early
        pure = all(not ((x.free & phis)) for p in brk for x in p.facts)
        m0 = {}
        if not pure:
            # accumulators with a closed form after K iterations
            for lf, phi in L.phi.items():
                v = self.closed(L, lf, K, common, phis, leaves)
                if not (v.free & phis) and not any(x.op in ("loopval", "unk", "lv", "kx", "nobound") for x in subterms(v)):
                    m0[phi] = v
            pure = all(not ((x.free & phis) - set(m0)) for p in brk for x in p.facts)
            if not pure:
                m0 = {}
        bc = dnf([frozenset(subst(x, m0) if m0 else x for x in p.facts if x is not guard) for p in brk]) if brk else []
        out = []
        nn = N if N is not None else T("nobound", L.uid)
        # fixed points: the number of completed iterations at each kind of exit
        for p in L.exits:
            s = p.st
            if p in ex_exit:
                cnt = N
                if not (N.op == "int" and N.a[0] >= 0) and not Facts.nonneg(St(fset=st0.fset), N):
                    cnt = max0(N)
            else:
                if pure and N is not None:
                    cnt = T("first", unmax(N), lam(disj_of(bc), K))
                elif pure:
                    cnt = T("first", T("inf"), lam(disj_of(bc), K))
                else:
                    cnt = T("kx", L.uid)
            m = {K: cnt}
            n_for = N if p in ex_exit else cnt
            for lf, phi in L.phi.items():
                m[phi] = self.closed(L, lf, n_for, common, phis, leaves)
            p.final = dict(m)
            # values of the phis may mention other phis only through generic loop values
            memo = {}
            mem = {}
            for c, v in s.mem.items():
                mem[c] = subst(v, m, memo)
            facts = list(st0.facts)
            fset = set(st0.fset)
            extra = []
            # what early exits tell
            if pure and N is not None and brk:
                if p in ex_exit:
                    for c in bc:
                        extra.append(nt(exists(N, c, K)))
                else:
                    extra.append(disj([exists(N, c, K) for c in bc]))
            dead = False
            for f in list(p.facts) + extra:
                g = subst(f, m, memo)
                if p in ex_exit and f is nt(guard):
                    if g is FALSE:
                        g = TRUE
                    # N <= 0 is only known if the loop was not entered; the exit itself tells nothing
                    if not (f.free - {K}) and False:
                        pass
                    g = TRUE
                if g is TRUE or g in fset:
                    continue
                if g is FALSE:
                    dead = True
                    break
                tmp = St({}, tuple(facts), frozenset(fset))
                d = Facts.decide(tmp, g)
                if d is False and not g.unk:
                    dead = True
                    break
                facts.append(g)
                fset.add(g)
            if dead:
                continue
            ev = st0.ev + (Ev("loop", L.where, (), None, tuple(st0.facts), L.span, loop=L, exit=p),) + tuple(self.sub_ev(e, m, memo) for e in s.ev)
            s2 = St(mem, tuple(facts), frozenset(fset), ev, st0.ks)
            out.append((p.label, s2))
        return out

    def first_k(self, p, K, phis):
        """index of the first fact of p which tests the iteration count"""
        for i, f in enumerate(p.facts):
            if f.op in ("ge0", "eq0") and K in f.free and not (f.free & phis):
                return i
        return -1

    def sub_ev(self, e, m, memo):
        return Ev(e.kind, e.name, tuple(subst(a, m, memo) if isinstance(a, Term) else a for a in e.args),
                  subst(e.ret, m, memo) if isinstance(e.ret, Term) else e.ret, e.facts, e.span, **e.x)

    def closed(self, L, lf, n, common, phis, leaves):
        """value of a loop-carried leaf after n iterations"""
        K = L.K
        phi = L.phi[lf]
        init = L.init[lf]
        cell, path = lf
        cs = []
        for p in L.backs:
            v = p.st.mem.get(cell)
            v = getpath(v, path) if v is not None else None
            if v is None:
                return T("unk", "leaf")
            cs.append((frozenset(f for f in p.facts if f not in common), v))
        up = [(c, v) for c, v in cs if v is not phi]
        if not up:
            return init

        def pure(*ts):
            return all(not (t.free & phis) for t in ts)
        conds = [c for c, _ in up]
        # bool flags
        if all(v in (TRUE, FALSE) for _, v in up):
            if all(v is TRUE for _, v in up) and init is FALSE:
                d = dnf([frozenset(x for x in c if x is not nt(phi)) for c in conds])
                if all(pure(*c) for c in d):
                    return disj([exists(n, c, K) for c in d])
            if all(v is FALSE for _, v in up) and init is TRUE:
                d = dnf([frozenset(x for x in c if x is not phi) for c in conds])
                if all(pure(*c) for c in d):
                    return nt(disj([exists(n, c, K) for c in d]))
        # float sums
        r = []
        for c, v in up:
            if v.op == "fadd" and v.a.count(phi) == 1:
                l = list(v.a)
                l.remove(phi)
                t = fadd(*l)
                if pure(t, *c):
                    r.append((c, (t,)))
                    continue
            r = None
            break
        if r is not None:
            return fadd(init, fsum(n, r, K))
        # int sums
        r = []
        for c, v in up:
            t = sub(v, phi) if (v.op in ("lin", "int") or v is phi) else None
            if t is not None and pure(t, *c):
                r.append((c, (t,)))
                continue
            r = None
            break
        if r is not None and intlike(init):
            return add(init, isum(n, r, K))
        # optimum and companions
        r = self.opt(L, lf, n, up, phis, leaves, common)
        if r is not None:
            return r
        # sequences
        r = []
        for c, v in up:
            items = []
            w = v
            while w.op == "push":
                items.append(w.a[1])
                w = w.a[0]
            if w is phi and items and pure(*items) and pure(*c):
                r.append((c, tuple(reversed(items))))
                continue
            r = None
            break
        if r is not None:
            nc = normcases(r)
            un = uncases(T("cases", *nc))
            if len(un) == 1 and not un[0][0] and len(un[0][1]) == 1:
                x = un[0][1][0]
                mp = mkmap(n, x, K)
                return mp if init is SEQ0 else cat(init, mp)
            cl = T("collect", unmax(n), lam(T("cases", *nc), K))
            return cl if init is SEQ0 else cat(init, cl)
        # scattered writes
        r = []
        for c, v in up:
            ws = []
            w = v
            while w.op in ("upd", "upd2"):
                ws.append(w.a[1:])
                w = w.a[0]
            if w is not phi or not ws:
                r = None
                break
            pay = []
            good = pure(*c)
            for wv in reversed(ws):
                ix, val = wv[:-1], wv[-1]
                old = idx(phi, ix[0]) if len(ix) == 1 else idx2(phi, *ix)
                val2 = subst(val, {old: T("old", *ix)})
                if not pure(val2, *ix):
                    good = False
                pay.extend(list(ix) + [val2])
            if not good:
                r = None
                break
            r.append((c, tuple(pay)))
        if r is not None:
            kind = "scatter" if up[0][1].op == "upd" else "scatter2"
            pt = r[0][1][:-1]
            if all(p[:-1] == pt for c, p in r) and not any(x.free & {K} for x in pt):
                # always the same place: a sum there
                old = T("old", *pt)
                d = [(c, (sub(p[-1], old),)) for c, p in r]
                if all(not hasop(x[0], "old") for c, x in d):
                    at = idx(init, pt[0]) if len(pt) == 1 else idx2(init, *pt)
                    if intlike(at) or all(p[-1].op == "lin" for c, p in r):
                        x = add(at, isum(n, d, K))
                        return upd(init, pt[0], x) if len(pt) == 1 else upd2(init, *pt, x)
            if len(r) == 1 and not r[0][0] and len(r[0][1]) == 2 and r[0][1][0] is K and unmax(n) is length(init):
                x = subst(r[0][1][1], {T("old", K): idx(init, K)})
                if not hasop(x, "old"):
                    return mkmap(unmax(n), x, K)
            return T(kind, init, unmax(n), lam(cases(r), K))
        # nothing known: keep the whole recurrence as the value
        return self.generic(L, lf, n, leaves, common)

    def opt(self, L, lf, n, up, phis, leaves, common):
        K = L.K
        phi = L.phi[lf]
        init = L.init[lf]
        # fmin/fmax accumulation
        r = []
        kind = None
        for c, v in up:
            if v.op in ("fmin2", "fmax2") and phi in v.a:
                t = v.a[1] if v.a[0] is phi else v.a[0]
                k2 = "min" if v.op == "fmin2" else "max"
                if kind in (None, k2) and not (t.free & phis) and all(not (x.free & phis) for x in c):
                    kind = k2
                    r.append((c, (t, t)))
                    continue
            r = None
            break
        if r:
            return argopt(kind, n, (init, init), "first", r, K)

        def keyed(keylf):
            """is keylf updated exactly under a strict/weak improvement?"""
            kphi = L.phi[keylf]
            out = []
            kd = None
            for p in L.backs:
                v = getpath(p.st.mem[keylf[0]], keylf[1])
                if v is kphi:
                    continue
                c = frozenset(f for f in p.facts if f not in common)
                hit = None
                for x in c:
                    for kk, tie, form in (("min", "first", flt(v, kphi)), ("max", "first", flt(kphi, v)),
                                          ("min", "last", nt(flt(kphi, v))), ("max", "last", nt(flt(v, kphi)))):
                        if x is form:
                            hit = (x, kk, tie)
                if hit is None or v.free & phis:
                    return None
                rest = frozenset(x for x in c if x is not hit[0])
                if any(x.free & phis for x in rest):
                    return None
                if kd is not None and kd != hit[1:]:
                    return None
                kd = hit[1:]
                out.append((p, rest, v))
            return (kd, out) if out else None
        for klf in L.phi:
            k = keyed(klf)
            if not k:
                continue
            (kind, tie), lst = k
            r = []
            okk = True
            cell, path = lf
            ups = 0
            for p in L.backs:
                v = getpath(p.st.mem[cell], path)
                ent = [x for x in lst if x[0] is p]
                if v is phi:
                    if ent and lf != klf:
                        okk = False
                    continue
                ups += 1
                if not ent or v.free & phis:
                    okk = False
                    break
                r.append((ent[0][1], (ent[0][2], v)))
            if okk and ups == len(lst):
                return argopt(kind, n, (L.init[klf], init), tie, r, K)
        return None

    def generic(self, L, lf, n, leaves, common):
        K = L.K
        lfs = sorted(L.phi, key=lambda l: L.init[l].id)
        # the rounds of an inner loop refer to its own state under other names
        inner = {x.a[0] for p in L.backs for t in list(p.facts) + list(p.st.mem.values()) for x in subterms(t) if x.op == "lv"}
        b = max(inner) + 1 if inner else 0
        m = {L.phi[l]: T("lv", b + i) for i, l in enumerate(lfs)}
        rows = []
        for p in L.backs:
            c = [subst(f, m) for f in p.facts if f not in common]
            vs = []
            for l in lfs:
                v = p.st.mem.get(l[0])
                v = getpath(v, l[1]) if v is not None else T("unk", "leaf")
                vs.append(subst(v, m))
            rows.append((c, tuple(vs)))
        inits = T("pay", *[L.init[l] for l in lfs])
        i = lfs.index(lf)
        n = unmax(n) if n is not None else T("inf")
        return T("loopval", i, n, inits, lam(cases(rows), K), b)


def disj_of(bc):
    return disj([conj(list(c)) for c in bc])


def mkmap(n, x, K):
    """sequence of x for 0<=K<n; the identity copy of a sequence is that sequence"""
    n = unmax(n)
    if x.op == "idx" and x.a[1] is K and K not in x.a[0].free and length(x.a[0]) is n:
        return x.a[0]
    if x.op == "idx" and K not in x.a[0].free:
        d = sub(x.a[1], K)
        if K not in d.free:
            return subseq(x.a[0], d, add(d, n))
        d = add(x.a[1], K)
        if K not in d.free and length(x.a[0]) is n and d is sub(n, I(1)):
            return rev(x.a[0])
    if K not in x.free:
        return T("rep", x, n)
    return T("map", n, lam(x, K))


def cat(a, b):
    if a is SEQ0:
        return b
    if b is SEQ0:
        return a
    if b.op == "cat":
        return T("cat", cat(a, b.a[0]), b.a[1])
    return T("cat", a, b)


def length_like(v):
    return v.op in ("seq0", "push")


def seqlike(v):
    return v.op in ("push", "pop", "upd", "swap", "rev", "seq0", "sub", "cat", "updsub", "scatter", "rep", "map", "collect", "trunc", "permuted", "shuffled")


def matlike(v):
    return v.op in ("upd2", "scatter2", "mmap", "mat")


def intlike(v):
    return v.op in ("int", "lin", "sym", "len", "dim", "phi", "fld", "idx", "k", "div", "rem", "deref", "call", "isum", "out", "argopt", "first", "named", "toint", "max0", "loopval", "unk", "imin", "imax", "mpi", "pow", "setlen", "bv", "kx", "dc", "find")


def getpath(v, path):
    for i in path:
        v = fld(v, i)
    return v


def setpath(v, path, x):
    if not path:
        return x
    return setfld(v, path[0], setpath(fld(v, path[0]), path[1:], x))


def diff(hv, bv, path, emit, leaves, cell):
    """report the leaf paths at which two values differ"""
    if hv is bv:
        return
    if (cell, path) in leaves:
        return
    if hv.op == "agg" and bv.op == "agg" and hv.a[0] == bv.a[0] and hv.a[1] == bv.a[1] and len(hv.a) == len(bv.a) and len(hv.a) > 2 \
            and hv.a[0] != "array":
        for i in range(len(hv.a) - 2):
            diff(hv.a[2 + i], bv.a[2 + i], path + (i,), emit, leaves, cell)
        return

    def base(v):
        ix = set()
        while v.op == "with":
            ix.add(v.a[1])
            v = v.a[0]
        return v, ix
    hb, hi = base(hv)
    bb, bi = base(bv)
    if hb is bb and (hi | bi):
        for i in sorted(hi | bi):
            diff(fld(hv, i), fld(bv, i), path + (i,), emit, leaves, cell)
        return
    emit(path)


class Call:
    __slots__ = ("name", "rname", "f", "args", "fid", "span", "argtys", "retty", "fr")

    def __init__(self, name, rname, f, args, fid, span, argtys, retty, fr):
        self.name, self.rname, self.f, self.args, self.fid, self.span, self.argtys, self.retty, self.fr = \
            name, rname, f, args, fid, span, argtys, retty, fr
