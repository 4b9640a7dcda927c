"""Hash-consed value terms (value numbering) with normalising constructors.

A term denotes a run-time value.  Two equal terms denote equal values; the constructors put the
usual equivalent ways of writing one value (linear arithmetic, comparison directions, pushes and
pops, sums) into one normal form.
"""
from functools import lru_cache


class Term:
    __slots__ = ("op", "a", "id", "unk", "free", "bvh")

    def __repr__(self):
        return pp(self)


_tab = {}
EMPTY = frozenset()


def T(op, *a):
    key = (op, a) if not any(isinstance(x, bool) for x in a) else (op, a, "b", tuple(type(x) for x in a))
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        t.id = len(_tab)
        unk = op == "unk"
        free = EMPTY
        bvh = 0
        for x in a:
            if isinstance(x, Term):
                unk = unk or x.unk
                if x.free:
                    free = free | x.free if free else x.free
                if x.bvh > bvh:
                    bvh = x.bvh
        if op in ("phi", "k"):
            free = free | frozenset((t,))
        if op == "bv":
            bvh = a[0]
        t.unk = unk
        t.free = free
        t.bvh = bvh
        _tab[key] = t
    return t


TRUE = T("true")
FALSE = T("false")
UNIT = T("agg", "tuple", 0)
NONE_ = T("none")  # "no initial value" of an optimum
SEQ0 = T("seq0")


def I(n):
    return T("int", int(n))


def F(s):
    v = float(s)
    if v == 0.0:
        v = 0.0
    return T("flt", repr(v))


INF = F("inf")
NINF = F("-inf")
F0 = F(0.0)


def B(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- integers (polynomials)
def _poly(t):
    """-> (const, {monomial(tuple of atoms sorted by id): coef})"""
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1:][0])
    return 0, {(t,): 1}


def _mk(c, d):
    d = {m: k for m, k in d.items() if k}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (m, k), = d.items()
        if k == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda mk: tuple(x.id for x in mk[0])))
    key = ("lin", c, tuple((tuple(x.id for x in m), k) for m, k in items))
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op = "lin"
        t.a = (c, items)
        t.id = len(_tab)
        t.unk = False
        t.free = EMPTY
        t.bvh = 0
        for m, k in items:
            for x in m:
                t.unk = t.unk or x.unk
                if x.free:
                    t.free = t.free | x.free
                t.bvh = max(t.bvh, x.bvh)
        _tab[key] = t
    return t


def add(a, b):
    ca, da = _poly(a)
    cb, db = _poly(b)
    d = dict(da)
    for m, k in db.items():
        d[m] = d.get(m, 0) + k
    return _mk(ca + cb, d)


def neg(a):
    return mulc(a, -1)


def sub(a, b):
    return add(a, mulc(b, -1))


def mulc(a, n):
    c, d = _poly(a)
    return _mk(c * n, {m: k * n for m, k in d.items()})


def mul(a, b):
    ca, da = _poly(a)
    cb, db = _poly(b)
    r = {}

    def acc(m, k):
        r[m] = r.get(m, 0) + k
    c = ca * cb
    for m, k in da.items():
        acc(m, k * cb)
    for m, k in db.items():
        acc(m, k * ca)
    for m, k in da.items():
        for m2, k2 in db.items():
            acc(tuple(sorted(m + m2, key=lambda x: x.id)), k * k2)
    return _mk(c, r)


def div(a, b):
    if b.op == "int" and b.a[0] == 1:
        return a
    if a.op == "int" and b.op == "int" and b.a[0] != 0:
        return I(a.a[0] // b.a[0])
    return T("div", a, b)


def rem(a, b):
    if a.op == "int" and b.op == "int" and b.a[0] != 0:
        return I(a.a[0] % b.a[0])
    return T("rem", a, b)


def powi(a, b):
    if b.op == "int" and 0 <= b.a[0] <= 6:
        r = I(1)
        for _ in range(b.a[0]):
            r = mul(r, a)
        return r
    return T("pow", a, b)


def const_int(t):
    return t.a[0] if t.op == "int" else None


def cdiff(a, b):
    """a - b if that is a constant, else None"""
    return const_int(sub(a, b))


# ---------------------------------------------------------------- booleans
def ge0(l):
    if l.op == "int":
        return B(l.a[0] >= 0)
    c, d = _poly(l)
    g = 0
    import math
    for k in d.values():
        g = math.gcd(g, k)
    if g > 1:
        import math as m
        l = _mk(m.floor(c / g), {mm: k // g for mm, k in d.items()})
    return T("ge0", l)


def eq0(l):
    if l.op == "int":
        return B(l.a[0] == 0)
    c, d = _poly(l)
    first = sorted(d.items(), key=lambda mk: tuple(x.id for x in mk[0]))[0][1]
    if first < 0:
        l = neg(l)
    return T("eq0", l)


def lt(a, b):
    return ge0(sub(sub(b, a), I(1)))


def le(a, b):
    return ge0(sub(b, a))


def ieq(a, b):
    return eq0(sub(a, b))


def flt(a, b):
    if a is b:
        return FALSE
    if a.op == "flt" and b.op == "flt":
        return B(float(a.a[0]) < float(b.a[0]))
    return T("flt_", a, b)


def fle(a, b):
    return nt(flt(b, a))


def feq(a, b):
    if a is b:
        return TRUE
    if a.op == "flt" and b.op == "flt":
        return B(float(a.a[0]) == float(b.a[0]))
    if a.id > b.id:
        a, b = b, a
    return T("feq", a, b)


def eqv(a, b):
    """equality of values of an unknown sort"""
    if a is b:
        return TRUE
    if a.op == "flt" or b.op == "flt":
        return feq(a, b)
    if a.op in ("int", "lin") or b.op in ("int", "lin"):
        return ieq(a, b)
    if a.op == "agg" and b.op == "agg":
        if len(a.a) == len(b.a) and a.a[0] == b.a[0]:
            if a.a[1] != b.a[1]:
                return FALSE
            return conj([eqv(x, y) for x, y in zip(a.a[2:], b.a[2:])])
    if a.id > b.id:
        a, b = b, a
    return T("eqv", a, b)


def nt(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.a[0]
    if b.op == "ge0":
        return ge0(sub(neg(b.a[0]), I(1)))
    if b.op == "and":
        return disj([nt(x) for x in b.a])
    if b.op == "or":
        return conj([nt(x) for x in b.a])
    return T("not", b)


def conj(xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            out.extend(x.a)
        else:
            out.append(x)
    out = sorted(set(out), key=lambda t: t.id)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    for x in out:
        if nt(x) in out:
            return FALSE
    return T("and", *out)


def disj(xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == "or":
            out.extend(x.a)
        else:
            out.append(x)
    out = sorted(set(out), key=lambda t: t.id)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    for x in out:
        if x.op != "and" and nt(x) in out:
            return TRUE
    return T("or", *out)


# ---------------------------------------------------------------- floats
def fadd(*xs):
    """sum of floats as a multiset (order of additions is not distinguished)"""
    out = []
    for x in xs:
        if x.op == "fadd":
            out.extend(x.a)
        elif x is F0 or (x.op == "flt" and float(x.a[0]) == 0.0):
            continue
        else:
            out.append(x)
    if not out:
        return F0
    if all(x.op == "flt" for x in out) and len(out) > 1:
        return F(sum(float(x.a[0]) for x in out))
    if len(out) == 1:
        return out[0]
    return T("fadd", *sorted(out, key=lambda t: t.id))


def fmul(a, b):
    if a.op == "flt" and b.op == "flt":
        return F(float(a.a[0]) * float(b.a[0]))
    for x, y in ((a, b), (b, a)):
        if x.op == "flt" and float(x.a[0]) == 1.0:
            return y
        if x.op == "flt" and y.op == "fmul" and y.a[0].op == "flt":
            return fmul(F(float(x.a[0]) * float(y.a[0].a[0])), y.a[1])
    if b.op == "flt" or (a.op != "flt" and a.id > b.id):
        a, b = b, a
    return T("fmul", a, b)


def fsub(a, b):
    if b.op == "flt" and float(b.a[0]) == 0.0:
        return a
    if a.op == "flt" and b.op == "flt":
        return F(float(a.a[0]) - float(b.a[0]))
    return T("fsub", a, b)


def fdiv(a, b):
    if b.op == "flt" and float(b.a[0]) != 0.0:
        v = float(b.a[0])
        import math
        if math.frexp(v)[0] in (0.5, -0.5):  # power of two: exact reciprocal
            return fmul(a, F(1.0 / v))
    return T("fdiv", a, b)


def fneg(a):
    if a.op == "flt":
        return F(-float(a.a[0]))
    if a.op == "fneg":
        return a.a[0]
    return T("fneg", a)


def fmin2(a, b):
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return T("fmin2", a, b)


def fmax2(a, b):
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return T("fmax2", a, b)


# ---------------------------------------------------------------- aggregates
def agg(kind, variant, *fs):
    return T("agg", kind, variant, *fs)


def tup(*fs):
    return T("agg", "tuple", 0, *fs)


OPT = "std::option::Option"
RES = "std::result::Result"
ORD = "std::cmp::Ordering"
NONE = agg(OPT, 0)


def some(x):
    return agg(OPT, 1, x)


def ok(x):
    return agg(RES, 0, x)


def err(x):
    return agg(RES, 1, x)


LESS, EQUAL, GREATER = (agg(ORD, v) for v in (0, 1, 2))


def fld(v, i):
    if v.op == "agg":
        if i < len(v.a) - 2:
            return v.a[2 + i]
        return T("unk", "field %d of %s" % (i, v.a[0]))
    if v.op == "with":
        b, j, x = v.a
        if i == j:
            return x
        return fld(b, i)
    if v.op == "argopt":
        # field of the optimal item
        l = v.a[4]
        body = T("lam", l.a[0], cases([(c, (k, fld(x, i))) for c, (k, x) in uncases(l.a[1])]))
        ini = v.a[2]
        if ini is not NONE_:
            ini = T("pay", ini.a[0], fld(ini.a[1], i))
        return T("argopt", v.a[0], v.a[1], ini, v.a[3], body)
    return T("fld", v, i)


def setfld(v, i, x):
    if v.op == "agg":
        a = list(v.a)
        if i >= len(a) - 2:
            return T("unk", "set field")
        a[2 + i] = x
        return T("agg", *a)
    if v.op == "with":
        b, j, y = v.a
        if i == j:
            return setfld(b, i, x)
        if i < j:
            return T("with", setfld(b, i, x), j, y)
    if x is fld(v, i):
        return v
    return T("with", v, i, x)


def dc(v, variant):
    if v.op == "agg":
        if v.a[1] == variant:
            return v
        return T("unk", "bad downcast")
    return T("dc", v, variant)


def isvar(v, variant):
    if v.op == "agg":
        return B(v.a[1] == variant)
    return T("isvar", v, variant)


# ---------------------------------------------------------------- sequences
INNERKX = set()     # numbers of rounds of loops inside other loops
LENOF = {}  # phi -> length term (filled by the engine for loop carried sequences)


def length(s):
    o = s.op
    if o == "seq0":
        return I(0)
    if o == "push":
        return add(length(s.a[0]), I(1))
    if o == "pop":
        return sub(length(s.a[0]), I(1))
    if o in ("upd", "swap", "rev", "permuted", "perm"):
        return length(s.a[0])
    if o == "rep":
        return s.a[1]
    if o == "sub":
        return sub(s.a[2], s.a[1])
    if o == "map":
        return s.a[0]
    if o == "cat":
        return add(length(s.a[0]), length(s.a[1]))
    if o == "agg" and s.a[0] == "array":
        return I(len(s.a) - 2)
    if o == "row" or o == "col":
        return T("dim", s.a[0])
    if o == "setelems":
        return T("setlen", s.a[0])
    if o == "scatter":
        return length(s.a[0])
    if o == "phi" and s in LENOF:
        return LENOF[s]
    if o == "loopval":
        r = kept(s, length, "len")
        if r is not None:
            return r
    if o == "updsub":
        return length(s.a[0])
    if o == "shuffled" or o == "sorted":
        return length(s.a[0])
    if o == "dedup" and s.a[0].op == "sorted":
        return T("setlen", T("setof", s.a[0].a[0]))
    if o == "bcast" and len(s.a) == 4:
        return length(s.a[3])       # a broadcast into a slice does not resize it
    if o == "flat":
        return mul(dim(s.a[0]), dim(s.a[0]))
    if o == "trunc":
        return s.a[1]
    if o == "flatten":
        return mulc(length(s.a[0]), s.a[1])
    if o == "grouped":
        return div(length(s.a[0]), I(s.a[1]))
    return T("len", s)


def dim(m):
    o = m.op
    if o in ("upd2", "scatter2", "row", "col"):
        return dim(m.a[0])
    if o == "mmap":
        return dim(m.a[0])
    if o in ("mat", "mat_from_row", "mat_from_col"):
        return m.a[0]
    if o == "setdiag":
        return dim(m.a[0])
    if o == "phi" and m in LENOF:
        return LENOF[m]
    if o == "loopval":
        return kept(m, dim, "dim") or T("dim", m)
    return T("dim", m)


def lvof(t, i):
    """the value of state i of the recurrence t when a round begins (inner recurrences have their own names)"""
    return T("lv", t.a[4] + i)


def kept(t, f, name):
    """the size of the result of a loop whose rounds do not change it"""
    i, _, inits, l, _ = t.a
    if l.op != "lam":
        return None
    lv = lvof(t, i)
    want = T(name, lv)
    for _, p in uncases(l.a[1]):
        if f(p[i]) is not want:
            return None
    return f(inits.a[i])


def idx(s, i):
    o = s.op
    if o == "push":
        d = cdiff(i, length(s.a[0]))
        if d == 0:
            return s.a[1]
        if d is not None and d < 0:
            return idx(s.a[0], i)
    elif o == "rep":
        return s.a[0]
    elif o == "upd":
        d = cdiff(i, s.a[1])
        if d == 0:
            return s.a[2]
        if d is not None:
            return idx(s.a[0], i)
    elif o == "sub":
        return idx(s.a[0], add(s.a[1], i))
    elif o == "map":
        return subst_bv(s.a[1], i)
    elif o == "rev":
        return idx(s.a[0], sub(sub(length(s.a[0]), I(1)), i))
    elif o == "agg" and s.a[0] == "array" and i.op == "int":
        if 0 <= i.a[0] < len(s.a) - 2:
            return s.a[2 + i.a[0]]
    elif o == "row":
        return idx2(s.a[0], s.a[1], i)
    elif o == "col":
        return idx2(s.a[0], i, s.a[1])
    elif o == "pop":
        return idx(s.a[0], i)
    elif o == "trunc":
        return idx(s.a[0], i)
    elif o == "swap":
        x, a, b = s.a
        da, db = cdiff(i, a), cdiff(i, b)
        if da == 0:
            return idx(x, b)
        if db == 0:
            return idx(x, a)
        if da is not None and db is not None:
            return idx(x, i)
    return T("idx", s, i)


def idx2(m, i, j):
    if m.op == "upd2":
        b, i2, j2, v = m.a
        di, dj = cdiff(i, i2), cdiff(j, j2)
        if di == 0 and dj == 0:
            return v
        if (di is not None and di != 0) or (dj is not None and dj != 0):
            return idx2(b, i, j)
    if m.op == "mat":
        return subst_bv2(m.a[1], i, j)
    if m.op == "setdiag":
        d = cdiff(i, j)
        if d == 0:
            return subst_bv(m.a[1], i)
        if d is not None:
            return idx2(m.a[0], i, j)
    return T("idx2", m, i, j)


def push(s, x):
    return T("push", s, x)


def pop(s):
    if s.op == "push":
        return s.a[0]
    return T("pop", s)


def upd(s, i, v):
    if s.op == "upd" and s.a[1] is i:
        return upd(s.a[0], i, v)
    if s.op == "push":
        d = cdiff(i, length(s.a[0]))
        if d == 0:
            return push(s.a[0], v)
        if d is not None and d < 0:
            return push(upd(s.a[0], i, v), s.a[1])
    if s.op == "agg" and s.a[0] == "array" and i.op == "int" and 0 <= i.a[0] < len(s.a) - 2:
        a = list(s.a)
        a[2 + i.a[0]] = v
        return T("agg", *a)
    if idx(s, i) is v:
        return s
    return T("upd", s, i, v)


def upd2(m, i, j, v):
    if m.op == "upd2" and m.a[1] is i and m.a[2] is j:
        return upd2(m.a[0], i, j, v)
    if idx2(m, i, j) is v:
        return m
    return T("upd2", m, i, j, v)


def subseq(s, a, b):
    if a.op == "int" and a.a[0] == 0 and b is length(s):
        return s
    if s.op == "sub":
        return subseq(s.a[0], add(s.a[1], a), add(s.a[1], b))
    if s.op == "push":
        d = cdiff(b, length(s.a[0]))
        if d is not None and d <= 0:
            return subseq(s.a[0], a, b)
    return T("sub", s, a, b)


def updsub(s, a, b, v):
    if a.op == "int" and a.a[0] == 0 and b is length(s):
        return v
    return T("updsub", s, a, b, v)


def swapseq(s, i, j):
    if i is j:
        return s
    if i.id > j.id:
        i, j = j, i
    if s.op == "swap" and s.a[1] is i and s.a[2] is j:
        return s.a[0]
    return T("swap", s, i, j)


def rev(s):
    if s.op == "rev":
        return s.a[0]
    return T("rev", s)


def contains(s, x):
    if s.op == "seq0":
        return FALSE
    if s.op == "push" and s.a[1] is x:
        return TRUE
    if s.op == "agg" and s.a[0] == "array":
        return disj([eqv(y, x) for y in s.a[2:]])
    return T("contains", s, x)


INTOPS = {"int", "lin", "k", "dim", "len", "argopt", "first", "sym", "idx", "phi", "dc", "fld", "rem", "div", "mpi"}


def eqk(a, b):
    """equality of keys (integers or sequences)"""
    if a.op in INTOPS and b.op in INTOPS:
        return ieq(a, b)
    return eqv(a, b)


def maphas(m, k):
    if m.op == "setof":
        s, out = m.a[0], []
        while s.op == "push":
            out.append(eqk(s.a[1], k))
            s = s.a[0]
        return disj(out + [contains(s, k)])
    if m.op == "setins":
        return disj([eqk(m.a[1], k), maphas(m.a[0], k)])
    if m.op == "map0":
        return FALSE
    return T("maphas", m, k)


# ---------------------------------------------------------------- cases (guarded values)
def cases(cs):
    """cs: iterable of (conds: iterable of bool terms, payload: tuple of terms) -> canonical term"""
    return T("cases", *[x for x in normcases(cs)])


def normcases(cs):
    groups = {}
    for c, p in cs:
        groups.setdefault(p, []).append(frozenset(c))
    out = []
    for p, lst in groups.items():
        for c in dnf(lst):
            out.append(T("case", T("conj", *sorted(c, key=lambda t: t.id)), T("pay", *p)))
    out.sort(key=lambda t: t.id)
    return out


def dnf(lst):
    """simplify a disjunction of conjunctions"""
    cur = set()
    for c in lst:
        c = frozenset(x for x in c if x is not TRUE)
        if FALSE in c or any(nt(x) in c for x in c):
            continue
        cur.add(c)
    cur = absorb(drop_first(cur))
    return sorted(cur, key=lambda c: (len(c), sorted(x.id for x in c)))


def absorb(cur):
    changed = True
    while changed:
        changed = False
        for c in list(cur):
            # absorption
            if any(d < c for d in cur):
                cur.discard(c)
                changed = True
                break
            hit = False
            for d in cur:
                if d is c:
                    continue
                for x in d:
                    nx = nt(x)
                    if nx in c and (d - {x}) <= (c - {nx}):
                        cur.discard(c)
                        cur.add(c - {nx})
                        hit = True
                        break
                if hit:
                    break
            if hit:
                changed = True
                break
    return cur


_firsts = {}


def firsts(t):
    """the least-index subterms of a term (outside of binders)"""
    r = _firsts.get(t)
    if r is None:
        _firsts[t] = r = EMPTY
        if t.op != "lam":
            for x in children(t):
                y = firsts(x)
                if y:
                    r = r | y
            if t.op == "first" and t.a[0].op != "inf":
                r = r | {t}
            _firsts[t] = r
    return r


def first_facts(f):
    """-> (existence fact, bound, [conditions of one way to hit]) for the least k < N with a property"""
    N, l = f.a
    K = T("k", "first")
    body = subst_bv(l, K)
    ws = list(body.a) if body.op == "or" else [body]
    ws = [tuple(w.a) if w.op == "and" else (w,) for w in ws]
    E = disj([exists(N, w, K) for w in ws])
    return (E, exists(N, [body], K)), lt(f, N), [frozenset(subst(x, {K: f}) for x in w) for w in ws]


def drop_first(cur):
    """that something exists already says that the least such index is in range and hits one of the alternatives"""
    for c in list(cur):
        if c not in cur:
            continue
        fs = set()
        for x in c:
            fs |= firsts(x)
        for f in sorted(fs, key=lambda t: -t.id):
            Es, bound, ws = first_facts(f)
            if not any(({E} if E.op != "and" else set(E.a)) <= c for E in Es):
                continue
            for key in [c - w - {bound} for w in ws if w <= c] + [frozenset(x for x in c if f not in firsts(x))]:
                if key == c:
                    continue
                if any(x.op == "or" and x is disj([conj(list(w)) for w in ws]) for x in c - key):
                    cur.discard(c)
                    cur.add(key)
                    return drop_first(cur)
                rests = absorb({d - key - {bound} for d in cur if key <= d and any(f in firsts(x) for x in d - key)})
                if all(any(r <= w for r in rests) for w in ws):
                    for d in [d for d in cur if key <= d]:
                        cur.discard(d)
                    cur.add(key)
                    return drop_first(cur)
    return cur


def uncases(t):
    """-> list of (conds tuple, payload tuple)"""
    return [(c.a[0].a, c.a[1].a) for c in t.a]


def subst_bv(body, i):
    """instantiate the outermost bound variable of a 'lam'"""
    assert body.op == "lam"
    return subst(body.a[1], {body.a[0]: i})


def lam(body, k):
    h = body.bvh + 1
    b = T("bv", h)
    return T("lam", b, subst(body, {k: b}))


def lam2(body, k, l):
    h = body.bvh + 1
    return T("lam", T("bv", h), T("bv", h + 1), subst(body, {k: T("bv", h), l: T("bv", h + 1)}))


def subst_bv2(body, i, j):
    return subst(body.a[2], {body.a[0]: i, body.a[1]: j})


def fsum(n, cs, k=None):
    """sum over 0 <= k < n of the guarded values"""
    cs = [(c, p) for c, p in cs if p[0] is not F0]
    if not cs:
        return F0
    n = unmax(n)
    if n.op == "int" and n.a[0] <= 0:
        return F0
    body = cases(cs)
    if k is not None:
        body = lam(body, k)
    return T("fsum", n, body)


def isum(n, cs, k):
    cs = [(c, p) for c, p in cs if not (p[0].op == "int" and p[0].a[0] == 0)]
    if not cs:
        return I(0)
    n = unmax(n)
    if n.op == "int" and n.a[0] <= 0:
        return I(0)
    if len(cs) == 1 and not cs[0][0] and k not in cs[0][1][0].free:
        return mul(n, cs[0][1][0])
    return T("isum", n, lam(cases(cs), k))


def unmax(n):
    if n.op == "max0":
        return n.a[0]
    return n


def max0(n):
    if n.op == "int":
        return I(max(0, n.a[0]))
    return T("max0", n)


def argopt(kind, n, init, tie, cs, k):
    """the item with the optimal key over 0<=k<n.  cs: [(conds, (key, item))];
    init: NONE_ (no initial value) or (key, item); tie: 'first' | 'last' among equal keys"""
    ini = init if init is NONE_ else T("pay", *init)
    return T("argopt", kind, unmax(n), ini, tie, lam(cases(cs), k))


def exists(n, conds, k):
    """exists 0<=k<n with all conds"""
    n = unmax(n)
    conds = [c for c in conds if c is not TRUE]
    if FALSE in conds:
        return FALSE
    if n.op == "int" and n.a[0] <= 0:
        return FALSE
    dep = [c for c in conds if k in c.free]
    # exists k< len(s): s[k] == x   is   contains(s, x)
    if len(dep) == 1 and len(conds) == 1:
        c = dep[0]
        x = _as_contains(n, c, k)
        if x is not None:
            return x
    body = T("conj", *sorted(set(conds), key=lambda t: t.id))
    return T("exists", n, lam(body, k))


def _as_contains(n, c, k):
    def seqat(t):
        if t.op == "idx" and t.a[1] is k and k not in t.a[0].free and length(t.a[0]) is n:
            return t.a[0]
        return None
    if c.op == "eq0":
        cc, d = _poly(c.a[0])
        for m, kf in d.items():
            if len(m) == 1 and kf in (1, -1):
                s = seqat(m[0])
                if s is not None:
                    rest = dict(d)
                    del rest[m]
                    r = _mk(cc, rest)
                    x = neg(r) if kf == 1 else r
                    if k not in x.free:
                        return contains(s, x)
    if c.op in ("eqv", "feq"):
        for p, q in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
            s = seqat(p)
            if s is not None and k not in q.free:
                return contains(s, q)
    return None


# ---------------------------------------------------------------- substitution
REBUILD = {
    "ge0": ge0, "eq0": eq0, "not": nt, "and": lambda *a: conj(a), "or": lambda *a: disj(a),
    "flt_": flt, "feq": feq, "eqv": eqv, "fadd": fadd, "fmul": fmul, "fsub": fsub, "fdiv": fdiv, "fneg": fneg,
    "fmin2": fmin2, "fmax2": fmax2, "fld": fld, "with": setfld, "dc": dc, "isvar": isvar, "len": length,
    "dim": dim, "idx": idx, "idx2": idx2, "push": push, "pop": pop, "upd": upd, "upd2": upd2, "sub": subseq,
    "updsub": updsub, "swap": swapseq, "rev": rev, "contains": contains, "maphas": maphas, "div": div, "rem": rem, "pow": powi, "max0": max0,
    "cases": lambda *a: T("cases", *normcases([(c.a[0].a, c.a[1].a) for c in a])),
    "conj": lambda *a: T("conj", *sorted(set(x for x in a if x is not TRUE), key=lambda t: t.id)),
}


def rebuild(op, args):
    f = REBUILD.get(op)
    return f(*args) if f else T(op, *args)


def subst(t, m, memo=None):
    """simultaneous substitution of terms (by identity)"""
    if memo is None:
        memo = {}
    # fast path: only symbols with phi/k/bv are substituted usually
    return _subst(t, m, memo, _needs(m))


_fresh = [0]


def _needs(m):
    fr = frozenset(x for x in m if x.op in ("phi", "k"))
    if len(fr) == len(m):
        return fr
    return None


def _subst(t, m, memo, fr):
    r = m.get(t)
    if r is not None:
        return r
    if fr is not None and not (t.free & fr):
        return t
    if fr is None and t.op != "bv" and not t.free:
        mb = memo.get("minbv")
        if mb is None:
            mb = min((x.a[0] if x.op == "bv" else -1) for x in m)
            memo["minbv"] = mb
        if mb > t.bvh:
            return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "int" or t.op == "flt":
        return t
    if t.op == "lin":
        r = I(t.a[0])
        for mon, k in t.a[1]:
            p = I(k)
            for x in mon:
                p = mul(p, _subst(x, m, memo, fr))
            r = add(r, p)
    elif t.op == "lam":
        bs = t.a[:-1]
        body = t.a[-1]
        fresh = []
        for b in bs:
            _fresh[0] += 1
            fresh.append(T("k", "f%d" % _fresh[0]))
        body = subst(body, dict(zip(bs, fresh)))
        body = subst(body, m)
        r = lam(body, fresh[0]) if len(fresh) == 1 else lam2(body, *fresh)
    else:
        args = [_subst(x, m, memo, fr) if isinstance(x, Term) else x for x in t.a]
        if all(x is y for x, y in zip(args, t.a)):
            r = t
        else:
            r = rebuild(t.op, args)
    memo[t] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in children(x):
            st.append(y)
    return seen


def children(x):
    if x.op == "lin":
        return [y for m, k in x.a[1] for y in m]
    return [y for y in x.a if isinstance(y, Term)]


def pp(t, d=0):
    if not isinstance(t, Term):
        return str(t)
    if d > 14:
        return "…"
    o = t.op
    p = lambda x: pp(x, d + 1)
    if o == "int":
        return str(t.a[0])
    if o == "flt":
        return t.a[0] + "f"
    if o == "lin":
        c, items = t.a
        s = " + ".join(("" if k == 1 else "%d*" % k) + "*".join(p(x) for x in m) for m, k in items)
        return "(%s%s)" % (s, " + %d" % c if c > 0 else " - %d" % -c if c < 0 else "")
    if o in ("true", "false", "seq0", "none"):
        return o
    if o == "sym":
        return str(t.a[0])
    if o == "phi":
        return "φ%s.%s" % (t.a[0], t.a[1])
    if o == "k":
        return "κ%s" % t.a[0]
    if o == "bv":
        return "β%d" % t.a[0]
    if o == "ge0":
        return "%s>=0" % p(t.a[0])
    if o == "eq0":
        return "%s==0" % p(t.a[0])
    if o == "not":
        return "!(%s)" % p(t.a[0])
    if o == "flt_":
        return "(%s < %s)" % (p(t.a[0]), p(t.a[1]))
    if o == "fadd":
        return "(%s)" % " +. ".join(p(x) for x in t.a)
    if o == "fld":
        return "%s.%d" % (p(t.a[0]), t.a[1])
    if o == "idx":
        return "%s[%s]" % (p(t.a[0]), p(t.a[1]))
    if o == "idx2":
        return "%s[%s,%s]" % (p(t.a[0]), p(t.a[1]), p(t.a[2]))
    if o == "agg":
        k = t.a[0].split("::")[-1][:40]
        return "%s%s(%s)" % (k if k != "tuple" else "", "#%s" % t.a[1] if t.a[1] else "", ", ".join(p(x) for x in t.a[2:]))
    if o == "lam":
        return "λ%s.%s" % (",".join(p(x) for x in t.a[:-1]), p(t.a[-1]))
    if o == "cases":
        return "{%s}" % "; ".join(p(x) for x in t.a)
    if o == "case":
        c = p(t.a[0])
        return "%s → %s" % (c, p(t.a[1])) if t.a[0].a else p(t.a[1])
    if o == "conj":
        return " ∧ ".join(p(x) for x in t.a)
    if o == "pay":
        return ", ".join(p(x) for x in t.a)
    return "%s(%s)" % (o, ", ".join(p(x) for x in t.a))
