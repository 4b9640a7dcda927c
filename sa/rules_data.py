"""Matrices, conversions, tour measures, preconditions."""
import itertools
from lib import *
from terms import uncases, cases
import small as SM
import math
from small import A as AG, S as ST, M as MT

P0 = T("sym", "*p0")
IDX = T("k", "di"), T("k", "dj")
inf = float("inf")


def analyse(ck, config, body, rule, args=None, inline=()):
    e, paths, why = run("data%s%s" % (config, inline), lambda: engine(config, own={body["id"]}, inline=inline), body, args)
    ck.engines.append(e)
    if paths is None:
        ck.ob("undecided", rule, nice(body), why)
        return None
    return [p for p in paths if not FS(p.facts).dead]


def verdict(ck, rule, where, proved, paths, models, spec, out=None, calls=None, same=None, show=None):
    """discharged if in normal form, refuted by a countermodel, else undecided"""
    if proved:
        return ck.ob("ok", rule, where)
    form = paths
    if out is None and any(p.ret in (TRUE, FALSE) for p in paths):
        # a boolean function: only the two conditions matter
        paths = [EE.Path((when(paths),), TRUE, None, ()), EE.Path((never(paths),), FALSE, None, ())]
    try:
        cm, n, hz = SM.refute(paths, models(), spec, out, calls, same)
        # the same models with other numbers: fractions, and numbers around the constants of the function
        for f in [lambda v: v * 0.5] + [f for c in floats(form)[:3] if c > 1e-3 for f in (lambda v, c=c: v * c, lambda v, c=c: v and v - 1.0 + c)]:
            if cm is None:
                other = ((remap(e, f), remap(k, f)) for e, k in itertools.islice(models(), 1500))
                cm, m, h2 = SM.refute(paths, other, spec, out, calls, same)
                n += m
                hz = hz or h2
    except RecursionError:
        cm, n, hz = None, 0, "recursion limit"
    if cm is not None:
        return ck.ob("viol", rule, where, "for %s the result is %s, it has to be %s" % (show(cm[0]) if show else cm[0], cm[1], cm[2]))
    form = "; ".join("[%s] %s" % (", ".join(pp(f)[:80] for f in p.facts[:3]), pp(p.ret)[:160]) for p in form[:2])
    return ck.ob("undecided", rule, where, "unrecognised normal form, no counterexample in %d small models%s: %s" % (n, " (%s)" % hz if hz else "", form))


def remap(v, f):
    """a model with other numbers in the place of the floating point numbers"""
    if isinstance(v, float):
        return f(v)
    if isinstance(v, dict):
        return {k: remap(x, f) for k, x in v.items()}
    if isinstance(v, (tuple, list)):
        return type(v)(remap(x, f) for x in v)
    if isinstance(v, SM.A):
        return SM.A(v.v, *[remap(x, f) for x in v.f])
    if isinstance(v, SM.M):
        return SM.M([[remap(x, f) for x in r] for r in v.r])
    return v


def when(paths, value=TRUE):
    """the condition under which a boolean function returns true (simplified), as a term"""
    cs = []
    for p in paths:
        r = p.ret
        if r is TRUE:
            cs.append(frozenset(p.facts))
        elif r is FALSE:
            continue
        else:
            r = r.a if r.op == "and" else (r,)
            cs.append(frozenset(p.facts) | frozenset(r))
    return disj([conj(list(c)) for c in dnf(cs)])


def never(paths):
    """negated condition of a boolean function"""
    cs = []
    for p in paths:
        if p.ret is FALSE:
            cs.append(frozenset(p.facts))
        elif p.ret is not TRUE:
            n = nt(p.ret)
            for alt in (n.a if n.op == "or" else (n,)):
                cs.append(frozenset(p.facts) | frozenset(alt.a if alt.op == "and" else (alt,)))
    return disj([conj(list(c)) for c in dnf(cs)])


# ---------------------------------------------------------------- writes of a matrix
class Opaque(Exception):
    pass


def writes(t, hole=None, known=None):
    """(base, [(binders ((k, N),...), conditions, i, j, value)]) of nested loops of matrix writes"""
    out = []

    def dec(t, hole, bs, cs):
        # emits the writes of t on top of what hole stands for
        if hole is not None and t is hole:
            return t
        if t.op == "scatter2" or (t.op == "scatter" and False):
            base = dec(t.a[0], hole, bs, cs)
            k = T("k", "w%d" % len(bs))
            for c, p in uncases(subst_bv(t.a[2], k)):
                for x in range(0, len(p), 3):
                    out.append((bs + ((k, t.a[1]),), cs + tuple(c), p[x], p[x + 1], p[x + 2]))
            return base
        if t.op == "scatter":
            base = dec(t.a[0], hole, bs, cs)
            k = T("k", "w%d" % len(bs))
            for c, p in uncases(subst_bv(t.a[2], k)):
                for x in range(0, len(p), 2):
                    row(p[x], p[x + 1], T("old", p[x]), bs + ((k, t.a[1]),), cs + tuple(c))
            return base
        if t.op == "upd2":
            base = dec(t.a[0], hole, bs, cs)
            out.append((bs, cs, t.a[1], t.a[2], t.a[3]))
            return base
        if t.op == "upd":
            row(t.a[1], t.a[2], idx(t.a[0], t.a[1]), bs, cs, before=lambda: None, base=t.a[0], rec=lambda x: dec(x, hole, bs, cs))
            return base_of(t, hole)
        if t.op == "loopval" and t.a[0] == 0 and len(t.a[2].a) == 1:
            base = dec(t.a[2].a[0], hole, bs, cs)
            k = T("k", "w%d" % len(bs))
            for c, p in uncases(subst_bv(t.a[3], k)):
                dec(p[0], lvof(t, 0), bs + ((k, t.a[1]),), cs + tuple(c))
            return base
        if hole is None:
            return t
        raise Opaque(pp(t)[:100])

    def row(i, w, old, bs, cs, before=None, base=None, rec=None):
        if rec is not None:
            rec(base)
        chain = []
        while w.op == "upd":
            chain.append((w.a[1], w.a[2]))
            w = w.a[0]
        if w.op == "scatter" and w.a[0] is old:
            k = T("k", "w%d" % len(bs))
            for c, p in uncases(subst_bv(w.a[2], k)):
                for x in range(0, len(p), 2):
                    out.append((bs + ((k, w.a[1]),), cs + tuple(c), i, p[x], p[x + 1]))
            w = old
        if w is not old and not (w.op == "idx" and w.a[1] is i):
            raise Opaque("row %s" % pp(w)[:80])
        for j, v in reversed(chain):
            out.append((bs, cs, i, j, v))

    def base_of(t, hole):
        while t.op == "upd":
            t = t.a[0]
        if t is hole or hole is None:
            return t
        raise Opaque(pp(t)[:80])

    b = dec(t, None, (), ())
    if known:
        out = [(bs, tuple(known(c) for c in cs), i, j, v) for bs, cs, i, j, v in out]
    for bs, cs, i, j, v in out:
        if any(x.op in ("lv", "old", "unk", "loopval") for y in (i, j, v) + tuple(cs) for x in subterms(y)):
            raise Opaque("written value")
    return b, out


def solve(eqs, ks):
    """unit-coefficient linear equations lhs = rhs for the variables ks -> {k: term} or None"""
    sol = {}
    eqs = list(eqs)
    progress = True
    while progress and len(sol) < len(ks):
        progress = False
        for l, r in eqs:
            d = sub(subst(l, sol), r)
            free = [k for k in ks if k not in sol and k in d.free]
            if len(free) == 1:
                k = free[0]
                for s in (1, -1):
                    v = sub(mulc(k, s), d) if s == 1 else add(k, d)
                    # d = c*k + rest, c = +-1
                    rest = sub(d, mulc(k, s))
                    if k not in rest.free:
                        v = neg(rest) if s == 1 else rest
                        sol[k] = v
                        progress = True
                        break
            if progress:
                break
    return sol if len(sol) == len(ks) else None


def hits(w, i, j, facts):
    """does this write reach entry (i, j) under the facts?"""
    bs, cs, x, y, v = w
    ks = [k for k, n in bs]
    s = solve([(x, i), (y, j)], ks)
    if s is None:
        return False
    if subst(sub(x, i), s) is not I(0) or subst(sub(y, j), s) is not I(0):
        return False
    need = []
    for k, n in bs:
        v = s[k]
        need += [ge0(v)]
        n = subst(n, s)
        for m in (n.a if n.op == "imin" else (n,)):
            need.append(lt(v, m))
    need += [subst(c, s) for c in cs]
    f = FS(facts)
    return all(c is TRUE or f(c) is True for c in need)


def filled(ws, n, value, base_ok, symmetric=False):
    """every entry gets the value wanted: every write writes it, and every entry is written or right before"""
    for bs, cs, x, y, v in ws:
        if not any(v is w for w in value(x, y)):
            return False
    i, j = IDX
    rng = [ge0(i), ge0(j), lt(i, n), lt(j, n)]
    for case in ([lt(i, j)], [lt(j, i)], [ieq(i, j)]):
        if any(hits(w, i, j, rng + case) for w in ws):
            continue
        if case[0].op == "eq0" and any(hits((w[0], w[1], w[2], w[3], w[4]), i, i, [ge0(i), lt(i, n)]) for w in ws):
            continue
        if case[0].op == "eq0" and base_ok:
            continue
        return False
    return True


# ---------------------------------------------------------------- models
def matrices(vals=(1, 2, 5), sizes=(0, 1, 2, 3)):
    """small matrices with zero diagonal: all symmetric ones of the values, and asymmetric ones of distinct values"""
    for n in sizes:
        prs = [(i, j) for i in range(n) for j in range(i + 1, n)]
        for vs in itertools.product(vals, repeat=len(prs)):
            m = [[0.0] * n for _ in range(n)]
            for (i, j), v in zip(prs, vs):
                m[i][j] = m[j][i] = float(v)
            yield m
    for n in (2, 3):
        yield [[float(0 if i == j else 1 + 7 * i + 3 * j + i * j) for j in range(n)] for i in range(n)]
    yield [[float(0 if i == j else 1 + min(i, j) * 5 + max(i, j) ** 2) for j in range(4)] for i in range(4)]


def namat(m):
    return ST(MT(m))


def vecmat(m):
    return ST(tuple(tuple(r) for r in m))


def call_from_dim(n):
    return ST(MT([[0.0 if i == j else inf for j in range(n)] for i in range(n)]))


def call_from_dim_vec(n):
    return ST(tuple(tuple(0.0 if i == j else inf for j in range(n)) for i in range(n)))


def graph(lists):
    return ST(tuple(ST(tuple(ST(t, c) for t, c in l)) for l in lists))


def complete(n, cost=lambda i, j: 1.0 + min(i, j) + 2 * max(i, j)):
    return [[(j, float(cost(i, j))) for j in range(n) if j != i] for i in range(n)]


def graphs(more=()):
    """graphs as adjacency lists: everything small, and complete graphs with one or two edits"""
    yield []
    for l in ([], [(0, 1.0)], [(1, 1.0)]):
        yield [l]
    edges = [(t, c) for t in (0, 1, 2) for c in (1.0, 2.0)]
    lists = [[]] + [[e] for e in edges] + [[e, f] for e in edges[:4] for f in edges[:4]]
    for a in lists:
        for b in lists[:11]:
            yield [a, b]
    for n in (3, 4):
        g = complete(n)
        yield g
        eds = list(edits(g, n))
        for h in eds:
            yield h
        if n == 3:
            for h in eds[:60]:
                yield from edits(h, n)
    for n in (3, 4, 5, 6) + tuple(more):
        if n > 4:
            g = complete(n)
            yield g
            if n <= 6:
                yield from edits(g, n)
        # the edge between two vertices replaced by two loops, and weights which differ in one direction only a little
        for i, j in itertools.combinations(range(n) if n <= 6 else (0, 1, n // 2, n - 2, n - 1), 2):
            for at in (None, 0, -1):
                h = complete(n)
                for a, b in ((i, j), (j, i)):
                    x = [t for t, c in h[a]].index(b)
                    h[a][x] = (a, h[a][x][1])
                    if at is not None:
                        h[a].insert(at if at == 0 else len(h[a]) - 1, h[a].pop(x))
                        if at == -1:
                            h[a].append(h[a].pop(-2))
                yield h
            for f in (lambda c: math.nextafter(c, math.inf), lambda c: c * (1 + 1e-12), lambda c: c + 1e-7, lambda c: c + 1e-3, lambda c: -c):
                for a, b in ((i, j), (j, i)):
                    h = complete(n)
                    x = [t for t, c in h[a]].index(b)
                    h[a][x] = (b, f(h[a][x][1]))
                    yield h


def sparse(ns):
    """large graphs without edges but at the last vertex"""
    for n in ns:
        for l in ([(0, 1.0), (0, 1.0)], [(0, 1.0), (1, 1.0)], [(n - 1, 1.0)]):
            yield [[]] * (n - 1) + [l]


def edits(g, n):
    for i in range(n):
        for x in range(len(g[i])):
            t, c = g[i][x]

            def put(*es):
                h = [list(l) for l in g]
                h[i][x:x + 1] = list(es)
                return h
            yield put()
            for t2 in range(n + 1):
                if t2 != t:
                    yield put((t2, c))
            yield put((t, c + 1.0))
            yield put((t, c), (t, c))
            yield put((t, c), (t, c + 1.0))
        h = [list(l) for l in g]
        h[i].append((i, 1.0))
        yield h
        h = [list(l) for l in g]
        h[i].reverse()
        yield h


def valid(g):
    n = len(g)
    for i, l in enumerate(g):
        if sorted(t for t, c in l) != [j for j in range(n) if j != i]:
            return False
        for t, c in l:
            if dict((a, b) for a, b in g[t]).get(i) != c:
                return False
    return True


def sizes(paths, most=160):
    """sizes around the integer constants of the formulas: special cases of larger instances have to show"""
    r = {6, 9}
    for p in paths:
        for t in tuple(p.facts) + (p.ret,) + tuple(v for v in p.st.mem.values() if isinstance(v, Term)):
            for x in subterms(t):
                if x.op == "int" and 3 < abs(x.a[0]) <= most:
                    r |= {abs(x.a[0]), abs(x.a[0]) + 2}
                elif x.op == "lin":
                    for c in (x.a[0],) + tuple(k for m, k in x.a[1]):
                        if 3 < abs(c) <= most:
                            r |= {abs(c), abs(c) + 2}
    return sorted(r)


def floats(paths, most=1e6):
    r = set()
    for p in paths:
        for t in tuple(p.facts) + (p.ret,):
            r |= {abs(float(x.a[0])) for x in subterms(t) if x.op == "flt"}
    return sorted(x for x in r if 0 < x < most)


def sym(n, f=lambda i, j: 1.0 + (i * 7 + j * 5 + i * j) % 11):
    return [[0.0 if i == j else float(f(min(i, j), max(i, j))) for j in range(n)] for i in range(n)]


# ---------------------------------------------------------------- representation
def kind_of(body):
    return "vec" if "vecmatrix" in body["path"] or "VecMatrix" in (body.get("self_ty") or "") else "na"


def find(config, pred):
    return [b for b in prog(config).bodies.values() if "{closure" not in b["dpath"] and pred(b)]


def matrix_impls(config, name):
    """bodies of a method for the matrix types (their own or a default of the trait)"""
    r = []
    for b in find(config, lambda b: last(b["path"]) == name):
        who = [x for x in ("VecMatrix", "NAMatrix") if x in (b.get("self_ty") or "") or any(a.endswith(x) for a in b["args"][:1])]
        if who:
            r.append((who[0], b))
    return r


def reps(ck, config="default"):
    for name in ("from_dim", "dim", "get", "set"):
        have_ = matrix_impls(config, name)
        ck.require({w for w, b in have_} >= {"NAMatrix", "VecMatrix"}, "anchor", "AdjacencyMatrix::" + name, "the trait implementation is gone")
    one = lambda n: [({T("sym", "p0"): k}, k) for k in range(5)]
    for who, b in matrix_impls(config, "from_dim"):
        ps = analyse(ck, config, b, "from-dim")
        if ps is None:
            continue
        n = T("sym", "p0")
        good = False
        if len(ps) == 1 and not ps[0].facts:
            r = ps[0].ret
            x = fld(r, 0)
            i, j = IDX
            if who == "NAMatrix":
                good = dim(x) is n and idx2(x, i, i) is F0 and x.op == "setdiag" and idx2(x.a[0], i, j) is INF
            elif x.op == "map" and x.a[0] is n and subst_bv(x.a[1], i) is upd(T("rep", INF, n), i, F0):
                good = True
            else:
                try:
                    base, ws = writes(x)
                    good = length(base) is n and base.op == "rep" and base.a[0] is T("rep", INF, n) and len(ws) == 1 \
                        and ws[0][4] is F0 and ws[0][2] is ws[0][3] and not ws[0][1] and len(ws[0][0]) == 1 and ws[0][0][0][1] is n and ws[0][2] is ws[0][0][0][0]
                except Opaque:
                    pass
        verdict(ck, "from-dim", nice(b), good, ps, lambda: one(5),
                lambda k: call_from_dim(k) if who == "NAMatrix" else call_from_dim_vec(k))
    row, col, cost = T("sym", "p1"), T("sym", "p2"), T("sym", "p3")

    def mm(who):
        for m in matrices((1, 2), (1, 2, 3)):
            v = namat(m) if who == "NAMatrix" else vecmat(m)
            n = len(m)
            for i in range(n):
                for j in range(n):
                    yield {P0: v, row: i, col: j, cost: 9.5}, (m, i, j, 9.5)
    for who, b in matrix_impls(config, "get"):
        ps = analyse(ck, config, b, "get")
        if ps is None:
            continue
        m = fld(P0, 0)
        want = (idx2(m, row, col), idx(idx(m, row), col))
        # the entry itself, without conditions other than the ranges
        verdict(ck, "get", nice(b), len(ps) == 1 and ps[0].ret in want, ps, lambda: mm(who), lambda k: k[0][k[1]][k[2]])
    for who, b in matrix_impls(config, "set"):
        ps = analyse(ck, config, b, "set")
        if ps is None:
            continue
        m = fld(P0, 0)

        def out(p, e):
            return e.val(p.st.mem.get(T("vroot", T("sym", "p0")), P0))
        want = (setfld(P0, 0, upd2(m, row, col, cost)), setfld(P0, 0, upd(m, row, upd(idx(m, row), col, cost))))
        good = len(ps) == 1 and ps[0].st.mem.get(T("vroot", T("sym", "p0"))) in want

        def spec(k):
            r = [list(x) for x in k[0]]
            r[k[1]][k[2]] = k[3]
            return namat(r) if who == "NAMatrix" else vecmat(r)

        def spec2(k):  # also fine: both directions
            r = [list(x) for x in k[0]]
            r[k[1]][k[2]] = r[k[2]][k[1]] = k[3]
            return namat(r) if who == "NAMatrix" else vecmat(r)
        verdict(ck, "set", nice(b), good, ps, lambda: mm(who), spec, out)
    for who, b in matrix_impls(config, "dim"):
        ps = analyse(ck, config, b, "dim")
        if ps is None:
            continue
        m = fld(P0, 0)
        verdict(ck, "dim", nice(b), len(ps) == 1 and not ps[0].facts and ps[0].ret in (dim(m), length(m), dim(P0)), ps, lambda: mm(who), lambda k: len(k[0]))


def conversions(ck, config="default"):
    bs = [b for b in find(config, lambda b: last(b["path"]) == "from" and "datastructures" in b["path"])]
    seen = set()
    for b in bs:
        args = " ".join(t for t, n in locals_of(b))
        ret = b["locals"][0][0] if isinstance(b["locals"][0], (list, tuple)) else ""
        who = "VecMatrix" if "VecMatrix" in (b.get("self_ty") or "") else "NAMatrix"
        a0 = locals_of(b)[0][0]
        if "Graph" in a0:
            seen.add((who, "graph"))
            from_graph(ck, config, b, who, a0.startswith("&"))
        elif a0.startswith("&") and who == "NAMatrix":
            seen.add((who, "matrix"))
            copy(ck, config, b, "VecMatrix" if "VecMatrix" in " ".join(b["args"]) else "NAMatrix")
        elif "Vec<" in a0:
            ps = analyse(ck, config, b, "from-rows")
            if ps is None:
                continue
            p0 = T("sym", "p0")
            rows = lambda: (({p0: tuple(map(tuple, m))}, m) for m in matrices((1, 2), (0, 1, 2, 3)))
            verdict(ck, "from-rows", nice(b), len(ps) == 1 and not ps[0].facts and fld(ps[0].ret, 0) is p0, ps, rows, lambda m: vecmat(m))
    for k in ((("NAMatrix", "graph"), ("VecMatrix", "graph"), ("NAMatrix", "matrix"))):
        ck.require(k in seen, "anchor", "From for %s (%s)" % k, "the conversion is gone")


def inner(r):
    """the data of a matrix struct under construction"""
    return fld(r, 0)


def dim_ok(base, n):
    """a matrix freshly made by from_dim(n)"""
    c = base.a[0] if base.op == "fld" and base.a[1] == 0 else base
    return c.op == "call" and c.a[0] == "from_dim" and c.a[1] is n


def from_graph(ck, config, b, who, byref):
    ps = analyse(ck, config, b, "from-graph")
    if ps is None:
        return
    G = P0 if byref else T("sym", "p0")
    vs = fld(G, 0)
    n = length(vs)
    good = False
    if len(ps) == 1 and not ps[0].facts:
        try:
            base, ws = writes(inner(ps[0].ret))
            good = dim_ok(base, n)
            fw = False
            for bs, cs, i, j, v in ws:
                if len(bs) != 2 or cs:
                    good = False
                    break
                (k, N), (l, N2) = bs
                es = fld(idx(vs, k), 0)
                e = idx(es, l)
                good = good and N is n and N2 is length(es) and v is fld(e, 1)
                if (i, j) == (k, fld(e, 0)):
                    fw = True
                elif (i, j) != (fld(e, 0), k):
                    good = False
            good = good and fw
        except Opaque:
            pass

    def models():
        for k in range(5):
            for cost in (lambda i, j: 1.0 + min(i, j) + 2 * max(i, j), lambda i, j: 3.0 + (min(i, j) + 1) * (max(i, j) + 2), lambda i, j: 0.0 if i + j == 1 else 2.0):
                g = complete(k, cost)
                yield {G: graph(g)}, g
                yield {G: graph([list(reversed(l)) for l in g])}, g
        for k in sizes(ps):
            g = complete(k)
            yield {G: graph(g)}, g

    def spec(g):
        m = [[0.0 if i == j else dict(g[i])[j] for j in range(len(g))] for i in range(len(g))]
        return namat(m) if who == "NAMatrix" else vecmat(m)
    verdict(ck, "from-graph", nice(b), good, ps, models, spec, calls={"from_dim": call_from_dim if who == "NAMatrix" else call_from_dim_vec})


def copy(ck, config, b, src):
    ps = analyse(ck, config, b, "copy")
    if ps is None:
        return
    m = fld(P0, 0) if src == "NAMatrix" else P0
    good = False
    if len(ps) == 1 and not ps[0].facts:
        try:
            base, ws = writes(inner(ps[0].ret))
            good = dim_ok(base, dim(m)) and filled(ws, dim(m), lambda x, y: (idx2(m, x, y),), False)
        except Opaque:
            pass

    def models():
        for x in matrices((1, 2), (0, 1, 2, 3)):
            yield {P0: namat(x) if src == "NAMatrix" else vecmat(x)}, x
        for k in sizes(ps):
            x = sym(k)
            yield {P0: namat(x) if src == "NAMatrix" else vecmat(x)}, x
    verdict(ck, "copy", nice(b), good, ps, models, lambda x: namat(x), calls={"from_dim": call_from_dim})


def points(ck, config="default"):
    ck.require(bool(bodies(config, "from_points")) and bool(bodies(config, "par_from_points")), "anchor", "NAMatrix::from_points", "the constructor is gone")
    for b in bodies(config, "from_points") + bodies(config, "par_from_points"):
        ps = analyse(ck, config, b, "from-points")
        if ps is None:
            continue
        n = length(P0)

        def dist(i, j):
            def sq(c):
                x, y = idx(idx(P0, i), I(c)), idx(idx(P0, j), I(c))
                return [fmul(fsub(x, y), fsub(x, y)), fmul(fsub(y, x), fsub(y, x))]
            return [T("fsqrt", fadd(a, c)) for a in sq(0) for c in sq(1)] + [T("fsqrt", fadd(T("fabs", a), T("fabs", c))) for a in sq(0) for c in sq(1)]
        good = False
        facts_ok = True
        for p in ps:
            try:
                base, ws = writes(inner(p.ret))
                c = base.a[0] if base.op == "fld" else base
                m = {T("dim", base): n, T("dim", c): n}
                ws = [(tuple((k, fold(subst(N, m))) for k, N in bs), cs, x, y, v) for bs, cs, x, y, v in ws]
                good = dim_ok(base, n) and filled(ws, n, lambda x, y: dist(x, y), True)
            except Opaque:
                good = False
            if not good or p.facts:
                good = False
                break

        def models():
            for pts in ([], [(0, 0)], [(0, 0), (3, 4)], [(1, 7), (4, 3)], [(0, 0), (3, 4), (6, 8)], [(2, 1), (5, 5), (-4, 9)], [(1, 1), (1, 1), (4, 5)],
                        [(0, 0), (3, 4), (10, -3), (7, 7)]):
                v = tuple(tuple(map(float, x)) for x in pts)
                yield {P0: v}, v
            for k in sizes(ps):
                v = tuple((float(x * x % 17), float(x * 5 % 13)) for x in range(k))
                yield {P0: v}, v
            for c in floats(ps, 1e13) + [1e-3, 1e6]:
                for v in (((0.0, 0.0), (3 * c, 4 * c), (-c, 0.5 * c)), ((0.5 * c, 0.25 * c), (0.75 * c, c), (0.0, 0.0))):
                    yield {P0: v}, v

        def spec(v):
            return namat([[((a[0] - c[0]) ** 2 + (a[1] - c[1]) ** 2) ** 0.5 for c in v] for a in v])
        verdict(ck, "from-points", nice(b), good, ps, models, spec, calls={"from_dim": call_from_dim})


def fold(n):
    if n.op == "imin" and all(x is n.a[0] for x in n.a):
        return n.a[0]
    return n


# ---------------------------------------------------------------- measures
def measures(ck, config="default"):
    for name in ("evaluate_path", "evaluate_circle", "is_metric"):
        have_ = matrix_impls(config, name)
        ck.require(bool(have_), "anchor", "AdjacencyMatrix::" + name, "the method is gone")
        for who, b in have_:
            globals()["m_" + name](ck, config, b, who)
    for b in bodies(config, "directed_edge_weight") + bodies(config, "undirected_edge_weight"):
        weight(ck, config, b)
    for b in bodies(config, "vertex_degree"):
        ps = analyse(ck, config, b, "degree")
        if ps is None:
            continue
        v = T("sym", "p1")
        verdict(ck, "degree", nice(b), len(ps) == 1 and ps[0].ret is length(fld(idx(fld(P0, 0), v), 0)), ps,
                lambda: (({P0: graph(g), v: i}, (g, i)) for g in itertools.chain(graphs(), map(complete, sizes(ps))) for i in range(len(g))), lambda k: len(k[0][k[1]]))
    for b in bodies(config, "add_undirected_edge"):
        add_edge(ck, config, b)
    for b in bodies(config, "is_hamiltonian_cycle"):
        ham(ck, config, b)


def mat_of(who):
    return P0 if who == "VecMatrix" else fld(P0, 0)


def value(who, m):
    return vecmat(m) if who == "VecMatrix" else namat(m)


def paths_models(who, ps=()):
    for m in matrices((1, 4), (1, 2, 3)):
        n = len(m)
        for l in range(0, n + 2):
            for s in itertools.product(range(n), repeat=l):
                yield {P0: value(who, m), T("sym", "*p1"): tuple(s)}, (m, s)
    for n in sizes(ps):
        m = sym(n)
        for s in (tuple(range(n)), tuple(range(n))[::-1], tuple(x * 3 % n for x in range(n + 1))):
            yield {P0: value(who, m), T("sym", "*p1"): s}, (m, s)


def m_evaluate_path(ck, config, b, who):
    ps = analyse(ck, config, b, "path-cost")
    if ps is None:
        return
    m, s = mat_of(who), T("sym", "*p1")
    n = length(s)
    k = T("k", "e")
    forms = [fsum(sub(n, I(1)), [((), (idx2(m, idx(s, k), idx(s, add(k, I(1)))),))], k)]
    good = all(p.ret in forms or (p.ret is F0 and FS(p.facts)(le(n, I(1))) is True) for p in ps) and total(ps)
    verdict(ck, "path-cost", nice(b), good, ps, lambda: paths_models(who, ps), lambda q: float(sum(q[0][a][c] for a, c in zip(q[1], q[1][1:]))))


def total(ps, more=()):
    """do the paths cover everything?  (each condition is a test of lengths, decided pairwise)"""
    if len(ps) == 1:
        return not ps[0].facts
    c = disj([conj(list(p.facts)) for p in ps])
    return c is TRUE or implies(TRUE, c)[0] is True


def m_evaluate_circle(ck, config, b, who):
    ps = analyse(ck, config, b, "circle-cost")
    if ps is None:
        return
    m, s = mat_of(who), T("sym", "*p1")
    n = length(s)
    k = T("k", "e")
    closing = idx2(m, idx(s, sub(n, I(1))), idx(s, I(0)))
    body = fsum(sub(n, I(1)), [((), (idx2(m, idx(s, k), idx(s, add(k, I(1)))),))], k)
    forms = [fadd(closing, T("call", "evaluate_path", x, s)) for x in (P0, m)] + [fadd(closing, body)]
    good = all(p.ret in forms or (p.ret is F0 and FS(p.facts)(le(n, I(1))) is True) for p in ps) and total(ps)

    def spec(q):
        m, s = q
        return 0.0 if len(s) <= 1 else float(sum(m[a][c] for a, c in zip(s, s[1:] + s[:1])))

    def ep(m, s):
        rows = m.f[0].r if isinstance(m.f[0], MT) else m.f[0]
        return float(sum(rows[a][c] for a, c in zip(s, s[1:])))
    verdict(ck, "circle-cost", nice(b), good, ps, lambda: paths_models(who, ps), spec, calls={"evaluate_path": ep})


def m_is_metric(ck, config, b, who):
    ps = analyse(ck, config, b, "metric")
    if ps is None:
        return
    m = mat_of(who)
    D = dim(m)
    i, j, k = (T("k", "x%d" % x) for x in range(3))

    def ex(n, c, v):
        return exists(n, c.a if c.op == "and" else [c], v)

    def viol(a, c, d, half):
        x = add(a, c) if half else c
        return flt(fadd(idx2(m, a, d), idx2(m, d, x), F(1e-10)), idx2(m, a, x))
    forms = []
    for half in (True, False):
        v = viol(i, j, k, half)
        nj = sub(D, i) if half else D
        forms.append(ex(D, ex(nj, ex(D, v, k), j), i))
        forms.append(ex(D, ex(D, ex(nj, v, j), i), k))
        forms.append(ex(D, ex(D, ex(nj, v, j), k), i))
    w = never(ps)
    good = w in forms and when(ps) is nt(w)

    def models():
        for x in matrices((1, 2, 5), (0, 1, 2, 3)):
            yield {P0: value(who, x)}, x
        for base in ([1] * 6, [2, 2, 2, 2, 2, 5], [1, 5, 1, 1, 1, 1], [1, 1, 3, 1, 2, 1], [0, 0, 0, 0, 0, 0], [1, 2, 3, 1, 2, 1], [1, 2, 3, 1, 2, 1.001]):
            x = [[0.0] * 4 for _ in range(4)]
            for (a, c), y in zip(itertools.combinations(range(4), 2), base):
                x[a][c] = x[c][a] = float(y)
            yield {P0: value(who, x)}, x
        for w, d in ((1.0, 5e-11), (1.0, -1e-8), (1.0, 1e-8), (1.0, 1e-5), (1e3, 1e-5), (1e3, 1e-3), (1e6, 1e-3), (1e-4, 1e-9)):
            for pos in range(3):
                x = [[0.0] * 3 for _ in range(3)]
                for n, (a, c) in enumerate(itertools.combinations(range(3), 2)):
                    x[a][c] = x[c][a] = 2 * w + d if n == pos else w
                yield {P0: value(who, x)}, x
        for c in floats(ps):
            for f in (0.5, 2.0):
                for pos in range(3):
                    x = [[0.0] * 3 for _ in range(3)]
                    for n, (a, d) in enumerate(itertools.combinations(range(3), 2)):
                        x[a][d] = x[d][a] = 2.0 * c + f * c if n == pos else c
                        if c > 0.1:
                            continue
                        x[a][d] = x[d][a] = 2.0 + f * c if n == pos else 1.0
                    yield {P0: value(who, x)}, x

    def spec(x):
        n = len(x)
        return all(x[a][c] <= x[a][d] + x[d][c] + 1e-10 for a in range(n) for c in range(n) for d in range(n))
    verdict(ck, "metric", nice(b), good, ps, models, spec)


def weight(ck, config, b):
    und = last(b["path"]) == "undirected_edge_weight"
    ps = analyse(ck, config, b, "weight", inline=("directed_edge_weight",))
    if ps is None:
        return
    vs = fld(P0, 0)
    i, j = T("k", "v"), T("k", "w")
    es = fld(idx(vs, i), 0)
    tot = fsum(length(vs), [((), (fsum(length(es), [((), (fld(idx(es, j), 1),))], j),))], i)
    forms = [fmul(F(0.5), tot), T("fdiv", tot, F(2.0))] if und else [tot]
    verdict(ck, "weight", nice(b), len(ps) == 1 and not ps[0].facts and ps[0].ret in forms, ps,
            lambda: (({P0: graph(g)}, g) for g in itertools.chain(graphs(), map(complete, sizes(ps)))), lambda g: sum(c for l in g for t, c in l) * (0.5 if und else 1.0))


def add_edge(ck, config, b):
    ps = analyse(ck, config, b, "add-edge")
    if ps is None:
        return
    u, v, c = (T("sym", "p%d" % x) for x in (1, 2, 3))
    root = T("vroot", T("sym", "p0"))

    def models():
        for n in (2, 3):
            for g in ([[] for _ in range(n)], complete(n)):
                for i in range(n):
                    for j in range(n):
                        if i != j:
                            for w in (7.5, 0.0, -2.5):
                                yield {P0: graph(g), u: i, v: j, c: w}, (g, i, j, w)
        for k in sizes(ps):
            for i in (0, k - 1):
                yield {P0: graph(complete(k)), u: i, v: k // 2, c: 7.5}, (complete(k), i, k // 2, 7.5)

    def spec(q):
        g = [list(l) for l in q[0]]
        g[q[1]].append((q[2], q[3]))
        g[q[2]].append((q[1], q[3]))
        return graph(g)

    def same(x, y):
        if not isinstance(x, AG):
            return False
        f = lambda g: [sorted((e.f for e in vv.f[0])) for vv in g.f[0]]
        return f(x) == f(y)
    try:
        vs = fld(P0, 0)
        ed = lambda t: (lambda o: [o])(0)
        w = ps[0].st.mem.get(root, P0)
        e1 = None
        for x in subterms(w):
            if x.op == "agg" and len(x.a) == 4 and x.a[2] is v and x.a[3] is c:
                e1 = x
        e2 = T("agg", e1.a[0], e1.a[1], u, c)

        def pushat(s, a, e):
            y = idx(s, a)
            return upd(s, a, setfld(y, 0, push(fld(y, 0), e)))
        good = len(ps) == 1 and w in (setfld(P0, 0, pushat(pushat(vs, u, e1), v, e2)), setfld(P0, 0, pushat(pushat(vs, v, e2), u, e1)))
    except AttributeError:
        good = False
    verdict(ck, "add-edge", nice(b), good, ps, models, spec, lambda p, e: e.val(p.st.mem.get(root, P0)), same=same)


def ham(ck, config, b):
    ps = analyse(ck, config, b, "hamiltonian")
    if ps is None:
        return
    who = "VecMatrix" if any("VecMatrix" in a for a in b["args"]) else "NAMatrix"
    s, m = T("sym", "*p0"), T("sym", "*p1") if who == "VecMatrix" else fld(T("sym", "*p1"), 0)
    D, n = dim(m), length(s)
    k, l = T("k", "h"), T("k", "g")
    cnt = T("scatter", T("rep", I(0), D), n, lam(cases([((), (idx(s, k), add(T("old", idx(s, k)), I(1))))]), k))
    oob = exists(n, [le(D, idx(s, k))], k)
    at = lambda x: idx(cnt, x)
    twice = exists(D, [ieq(at(k), I(2)), exists(k, [ieq(at(l), I(2))], l)], k)
    other = exists(D, [nt(ieq(at(k), I(2))), nt(ieq(at(k), I(1)))], k)
    good = never(ps) is disj([oob, twice, other]) or (when(ps) is conj([nt(oob), nt(twice), nt(other)]))

    def models():
        for d in range(0, 5):
            mm = [[0.0] * d for _ in range(d)]
            for ln in range(1, d + 3):
                if (d + 1) ** ln > 800:
                    continue
                for q in itertools.product(range(d + 1), repeat=ln):
                    if q[0] == q[-1]:
                        yield {s: q, T("sym", "*p1"): value(who, mm)}, (q, d)
        mm = [[0.0] * 4 for _ in range(4)]
        for k in sizes(ps, 600):
            mk = [[0.0] * k for _ in range(k)]
            for q in (tuple(range(k)), tuple(range(1, k)), tuple(range(k)) + (k // 2,), tuple(range(k - 1)) + (0,)):
                yield {s: q + q[:1], T("sym", "*p1"): value(who, mk)}, (q + q[:1], k)
        for q in list(itertools.permutations(range(4))) + [(0, 1, 2, 2), (0, 1, 1, 3), (0, 1, 2, 0), (0, 0, 1, 2), (1, 2, 3, 3)]:
            yield {s: q + q[:1], T("sym", "*p1"): value(who, mm)}, (q + q[:1], 4)

    def spec(x):
        q, d = x
        if len(q) == 1:
            return None  # a single vertex is no closed walk with an edge
        return sorted(q[:-1]) == list(range(d))
    verdict(ck, "hamiltonian", nice(b), good, ps, models, spec)


# ---------------------------------------------------------------- preconditions
def pre_forms(vs):
    """normal forms of the negated preconditions"""
    n = length(vs)
    i, j = T("k", "pi"), T("k", "pj")
    es = fld(idx(vs, i), 0)
    e = idx(es, j)
    deg = nt(ieq(add(length(es), I(1)), n))
    loop = exists(length(es), [ieq(fld(e, 0), i)], j)
    fully = [disj([exists(n, [deg], i), exists(n, [loop], i)]), exists(n, [disj([deg, loop])], i)]
    dup = nt(ieq(T("setlen", T("setof", T("map", length(es), lam(fld(e, 0), j)))), length(es)))
    multi = [exists(n, [dup], i)]
    w = fld(idx(vs, fld(e, 0)), 0)
    l = T("k", "pl")
    back = ieq(fld(idx(w, l), 0), i)
    f = T("first", length(w), lam(back, l))
    ways = [exists(length(es), [le(n, fld(e, 0))], j), exists(length(es), [nt(exists(length(w), [back], l))], j),
            exists(length(es), [nt(feq(fld(idx(w, f), 1), fld(e, 1)))], j)]
    und = [exists(n, [disj(ways)], i), disj([exists(n, [x], i) for x in ways])]
    return fully, multi, und


def preconditions(ck, config="default"):
    vs = fld(P0, 0)
    fully, multi, und = pre_forms(vs)

    def nomulti(g):
        return all(len({t for t, c in l}) == len(l) for l in g)

    def s_fully(g):
        n = len(g)
        if not nomulti(g) or any(t >= n for l in g for t, c in l) or any(t == i and len(l) == n for i, l in enumerate(g) for t, c in l):
            return None
        return all({t for t, c in l} >= set(range(n)) - {i} for i, l in enumerate(g))

    def s_multi(g):
        return not nomulti(g)

    def s_und(g):
        if not nomulti(g):
            return None
        n = len(g)
        return all(t < n and dict(g[t]).get(i) == c for i, l in enumerate(g) for t, c in l)
    for name, forms, spec, pos in (("is_fully_connected", fully, s_fully, False), ("is_multi_edge", multi, s_multi, True), ("is_undirected", und, s_und, False)):
        bs = bodies(config, name)
        ck.require(bool(bs), "anchor", "preconditions::" + name, "the public function is gone")
        for b in bs:
            ps = analyse(ck, config, b, name)

            if ps is None:
                continue
            w = when(ps) if pos else never(ps)
            o = never(ps) if pos else when(ps)
            good = w in forms and o is nt(w)
            verdict(ck, name, nice(b), good, ps, lambda: (({P0: graph(g)}, g) for g in itertools.chain(graphs([x for x in sizes(ps, 40) if x > 6]), sparse([x for x in sizes(ps, 1200) if x > 40]))), spec)
    calls = {"is_fully_connected": lambda g: s_fully2(ungraph(g)), "is_multi_edge": lambda g: s_multi(ungraph(g)), "is_undirected": lambda g: s_und2(ungraph(g))}

    def s_fully2(g):
        return all(len(l) == len(g) - 1 and all(t != i for t, c in l) for i, l in enumerate(g))

    def s_und2(g):
        n = len(g)
        return all(t < n and next((c2 for t2, c2 in g[t] if t2 == i), None) == c for i, l in enumerate(g) for t, c in l)
    bs = bodies(config, "do_conditions_hold")
    ck.require(bool(bs), "anchor", "do_conditions_hold", "the public function is gone")
    for b in bs:
        ps = analyse(ck, config, b, "conditions")
        if ps is None:
            continue
        gi = graph_field(ps)
        g = fld(P0, gi)
        c = [T("call", x, g) for x in ("is_fully_connected", "is_multi_edge", "is_undirected")]
        good = when(ps) is conj([c[0], nt(c[1]), c[2]]) and never(ps) is nt(when(ps)) or (when(ps) is conj([c[0], nt(c[1]), c[2]]))
        fill = [ST() for _ in range(gi)]
        verdict(ck, "conditions", nice(b), good, ps, lambda: (({P0: AG(0, *(fill + [graph(x)]))}, x) for x in graphs()), valid, calls=calls)


def ungraph(g):
    return [[e.f for e in v.f[0]] for v in g.f[0]]


def graph_field(ps):
    for p in ps:
        for t in tuple(p.facts) + (p.ret,):
            for x in subterms(t):
                if x.op == "fld" and x.a[0] is P0:
                    return x.a[1]
    return 0


GATE = ("do_conditions_hold", "is_fully_connected", "is_multi_edge", "is_undirected")


def parse_gate(ck, config="default"):
    """a parsed instance is handed out only if the conditions hold; errors are errors"""
    bs = bodies(config, "parse_from_xml")
    ck.require(bool(bs), "anchor", "parse_from_xml", "the public function is gone")
    for b in bs:
        where = nice(b)
        ps = analyse(ck, config, b, "parse-gate")
        if ps is None:
            continue
        for p in ps:
            r = p.ret
            if r.op != "agg":
                ck.ob("undecided", "parse-gate", where, "returns %s" % pp(r)[:100])
                continue
            if r.a[0] == RES and r.a[1] == 0:
                x = r.a[2]
                c = T("call", "do_conditions_hold", x)
                okc = FS(p.facts)(c) is True
                if not okc:
                    m = [T("call", y, fld(x, i)) for i in range(12) for y in GATE[1:]]
                    for i in range(12):
                        a, d, e = m[3 * i:3 * i + 3]
                        f = FS(p.facts)
                        okc = okc or (f(a) is True and f(d) is False and f(e) is True)
                ck.require(okc, "parse-gate", where, "an instance is returned without the conditions on its graph: %s" % [pp(f)[:80] for f in p.facts], tuple(p.facts))
                # what is returned is what has been parsed
                src = [y for y in subterms(x) if y.op == "call" or y.op == "parsed"]
                ck.require(not (x.op == "agg"), "parse-unchanged", where, "the parsed instance is changed: %s" % pp(x)[:150], (x,))
            else:
                ck.ob("ok", "parse-error", where)
        # a refusal is an error, not a panic
        no = [p for p in ps if p.ret.op == "agg" and p.ret.a[0] == RES and p.ret.a[1] == 1
              and any(x.op == "call" and x.a[0] in GATE for f in p.facts for x in subterms(f))]
        ck.require(bool(no), "parse-error", where, "a graph that does not meet the conditions is not answered with an error")
        # a graph which meets the conditions is accepted: there is an Ok path and the errors come from the xml or the conditions
        oks = [p for p in ps if p.ret.op == "agg" and p.ret.a[0] == RES and p.ret.a[1] == 0]
        ck.require(bool(oks), "parse-accepts", where, "no instance is ever accepted")
        for p in ps:
            if p in oks:
                continue
            f = FS(p.facts)
            why = [x for x in p.facts if any(y.op == "call" and y.a[0] in GATE for y in subterms(x))]
            bad = [x for x in why if x.op != "not" and not (x.op == "call" and x.a[0] == "is_multi_edge")]
            xml = [x for x in p.facts if any(y.op == "isvar" for y in subterms(x))]
            refused = bool(why) and any(f(nt(x)) is True or x.op == "not" or (x.op == "call" and x.a[0] == "is_multi_edge") for x in why)
            ck.require(refused or (not why and bool(xml)), "parse-refuses", where, "an error without a reason: %s" % [pp(x)[:80] for x in p.facts], tuple(p.facts))
