"""Rules for Prim's algorithm (mst.rs)."""
from lib import *
from terms import uncases
import itertools, math
import small as SM
import rules_step as RS

PRIMS = ("prim_with_excluded_node_single_threaded", "prim_with_excluded_node_multi_threaded", "prim_with_excluded_node_priority_queue")


def prim(ck, config="default"):
    for s in PRIMS:
        bs = bodies(config, s)
        ck.require(bool(bs), "anchor", "mst::" + s, "the public function is gone")
        for b in bs:
            one(ck, config, b)
    dispatch(ck, config)


def dispatch(ck, config):
    bs = [b for b in bodies(config, "prim") if b["args"]]
    ck.require(bool(bodies(config, "prim")), "anchor", "mst::prim", "the public function is gone")
    G = T("sym", "*p0")
    want = T("call", "MST", G, SEQ0)
    for b in bs:
        where = nice(b)
        e, paths, why = run("mst" + config, lambda: engine(config, own={b["id"]}), b)
        ck.engines.append(e)
        if paths is None:
            ck.ob("undecided", "prim-dispatch", where, why)
            continue
        for p in paths:
            r = p.ret
            empty = r.op == "call" and r.a[0] == "MST" and r.a[1] is G and length(r.a[2]) is I(0)
            ck.require(r is want or empty, "prim-dispatch", where, "prim returns %s, not the spanning tree of the whole graph" % pp(r)[:200], (r,))


class VecState:
    """candidate edges in vectors: the vertex is chosen by a scan for the smallest cost"""

    def __init__(self, v, phis):
        self.v = v
        self.ok = False
        kind, N, ini, tie, body = v.a
        self.kind, self.N, self.ini = kind, N, ini
        self.k = k = T("k", "prim_k")
        cs = uncases(subst_bv(body, k))
        self.cs = cs
        self.why = None
        if kind != "min":
            self.why = "the next vertex is the one with the largest cost"
            self.ok = True
            return
        if len(cs) != 1:
            return
        cond, pay = cs[0]
        if len(pay) != 2:
            return
        self.key = pay[0]
        st = [c for c in cond if any(x.free & phis for x in subterms(c) if x.op != "lam")]
        rest = [c for c in cond if c not in st]
        self.used = [nt(c) for c in cond]
        if pay[1] is not k:
            return
        self.ok = True

    def sel(self, val):
        """the same selection with another payload"""
        return None


def same_scan(a, b):
    """two argopt terms choosing the same element"""
    if a.op != "argopt" or b.op != "argopt":
        return False
    if a.a[0] != b.a[0] or a.a[1] is not b.a[1] or a.a[3] != b.a[3]:
        return False
    k = T("k", "prim_k")
    ca = {(frozenset(c), p[0]) for c, p in uncases(subst_bv(a.a[4], k))}
    cb = {(frozenset(c), p[0]) for c, p in uncases(subst_bv(b.a[4], k))}
    return ca == cb


def payload(a, k):
    cs = uncases(subst_bv(a.a[4], k))
    return cs[0][1][1] if len({p for c, p in cs}) == 1 else None


def one(ck, config, body):
    where = nice(body)
    e, paths, why = run("mst" + config, lambda: engine(config, own={body["id"]}), body)
    ck.engines.append(e)
    ck = SM.ModelCk(ck, lambda: models_of(paths))
    if paths is None:
        ck.ob("undecided", "prim-analysis", where, why)
        return
    G, EX = T("sym", "*p0"), T("sym", "*p1")
    ds = [dim(G), dim(fld(G, 0))]
    n = 0
    for p in paths:
        if FS(p.facts).dead:
            continue
        main = []
        for l in loops(p.ev):
            L = l.x["loop"]
            for key, ph in L.phi.items():
                i0 = L.init[key]
                if i0.op == "rep" and i0.a[0] is SEQ0:
                    main.append((l, key))
        if not main:
            r = p.ret
            g0 = r.op == "agg" and len(r.a) > 2 and r.a[2] is SEQ0
            if g0 and all_excluded(p, EX, ds):
                ck.ob("ok", "prim-all-excluded", where)
            elif g0:
                ck.require(False, "prim-all-excluded", where, "an empty tree is returned under %s" % [pp(f)[:100] for f in p.facts], p.facts)
            else:
                ck.ob("undecided", "prim-analysis", where, "no loop which collects the tree")
            continue
        if len(main) != 1:
            ck.ob("undecided", "prim-analysis", where, "%d loops collect edges" % len(main))
            continue
        n += 1
        if n == 1:
            tree(ck, where, p, main[0][0], main[0][1], G, EX, ds)
        result(ck, where, p, main[0][0], main[0][1], ds)
    if not n and not any(o["where"] == where and o["status"] != "ok" for o in ck.obs):
        ck.ob("undecided", "prim-analysis", where, "no path builds a tree")


def all_excluded(p, EX, ds):
    fs = FS(p.facts)
    for f in p.facts:
        for x in subterms(f):
            if x.op == "first" and any(fs(le(d, x)) is True for d in ds):
                return True
    return any(fs(nt(EXISTS_not_excluded(d, EX))) is True for d in ds)


def EXISTS_not_excluded(d, EX):
    from terms import exists
    k = T("k", "ex_k")
    return exists(d, [nt(contains(EX, k))], k)


def result(ck, where, p, l, akey, ds):
    L = l.x["loop"]
    A = L.phi[akey]
    r = unclose(p.ret, l)
    size = L.init[akey].a[1]
    v = r.a[2] if r.op == "agg" and len(r.a) > 2 else r
    if v is SEQ0:
        fs = FS(p.facts)
        return
    if v.op != "map":
        ck.ob("undecided", "prim-result", where, "the result is %s" % pp(r)[:200])
        return
    k = T("k", "prim_r")
    x = subst_bv(v.a[1], k)
    x = x.a[2] if x.op == "agg" and len(x.a) == 3 else x
    fin = [y for y in subterms(v.a[0]) if y.op in ("len",)]
    want = [sub(size, I(1))] + [s for s in ds] + [sub(length(A), I(1))]
    okn = v.a[0] in ds or (size not in ds and v.a[0] is sub(length(A), I(1))) or (size in ds and v.a[0] is length(A))
    okx = x is idx(A, k)
    ck.require(okn and okx, "prim-result", where, "the tree that is returned has %s vertices with the edges %s" % (pp(v.a[0])[:100], pp(x)[:150]), (v.a[0], x))


def tree(ck, where, p, l, akey, G, EX, ds):
    L = l.x["loop"]
    A = L.phi[akey]
    phis = frozenset(L.phi.values())
    picks = []
    state = None
    for q in L.backs:
        a2 = getpath(q.st.mem[akey[0]], akey[1])
        if a2 is A:
            picks.append((q, None))
            continue
        d = two_pushes(a2, A)
        if d is None:
            if one_push(a2, A):
                ck.require(False, "prim-both-directions", where, "a tree edge is stored in one direction only: %s" % pp(a2)[:300], (a2,))
            else:
                ck.ob("undecided", "prim-edges", where, "the tree becomes %s" % pp(a2)[:300])
            return
        picks.append((q, d))
    withe = [d for q, d in picks if d]
    if not withe:
        ck.require(False, "prim-edges", where, "no edge is ever added to the tree")
        return
    (i1, e1), (i2, e2) = withe[0]
    if any(d != withe[0] for d in withe):
        ck.ob("undecided", "prim-edges", where, "edges are added in different ways")
        return
    # which of the two is the new vertex
    c1, c2 = fld(e1, 1), fld(e2, 1)
    vec = [i for i in (i1, i2) if i.op == "argopt"]
    pq = [i for i in (i1, i2) if i.op == "pqitem"]
    ck.require(c1 is c2, "prim-edge-cost", where, "the two directions of a tree edge have the costs %s and %s" % (pp(c1)[:150], pp(c2)[:150]), (c1, c2))
    ck.require(fld(e1, 0) is i2 and fld(e2, 0) is i1, "prim-edge-ends", where, "vertex %s gets an edge to %s, vertex %s one to %s" % tuple(pp(x)[:120] for x in (i1, fld(e1, 0), i2, fld(e2, 0))),
               (i1, i2, e1, e2))
    st = None
    if len(pq) == 1:
        st = PQ(pq[0], L)
    elif vec:
        k = T("k", "prim_k")
        new = [i for i in vec if payload(i, k) is k]
        if len(new) == 1:
            st = VS(new[0], L)
    if st is None:
        ck.ob("undecided", "prim-choice", where, "the new vertex is %s or %s" % (pp(i1)[:150], pp(i2)[:150]))
        return
    v = st.v
    u = i2 if i1 is v else i1
    if st.bad:
        ck.require(False, "prim-choice", where, st.bad)
        return
    if st.und:
        ck.ob("undecided", "prim-choice", where, st.und)
        return
    ck.ob("ok", "prim-choice", where)
    ck.require(st.is_cost(c1), "prim-edge-cost", where, "the cost of a new edge is %s" % pp(c1)[:200], (c1,))
    ck.require(st.is_to(u), "prim-edge-to", where, "the new vertex is connected to %s" % pp(u)[:200], (u,))
    # the start vertex
    start = None
    for q, d in picks:
        if d is None:
            fs = FS(q.facts)
            c = [f for f in q.facts if f.op == "eq0" and v in subterms(f)]
            if len(c) != 1:
                ck.require(False, "prim-skip", where, "a vertex is chosen without adding an edge (facts %s)" % [pp(f)[:120] for f in q.facts], q.facts)
                return
            s = add(c[0].a[0], v) if v not in subterms(add(c[0].a[0], v)) else sub(v, c[0].a[0])
            start = s
    pf = FS(p.facts)
    if start is None:
        ck.ob("undecided", "prim-start", where, "no start vertex recognised")
    else:
        ck.require(pf(contains(EX, start)) is False, "prim-start", where, "the start vertex %s may be excluded" % pp(start)[:150], (start,) + tuple(p.facts))
        if start.op == "first":
            k = T("k", "prim_s")
            cond = subst_bv(start.a[1], k)
            ck.require(cond is nt(contains(EX, k)) and (start.a[0].op == "inf" or start.a[0] in ds), "prim-start", where, "the tree starts with the first vertex with %s" % pp(cond)[:150], (start,))
        st.initial(ck, where, L, start, EX, ds)
    # what each round does
    for q, d in picks:
        st.round(ck, where, q, L, G, ds)
    # when it ends
    for q in L.exits:
        fs = FS(q.facts)
        done = st.exhausted(fs, q.facts)
        if not done and L.N is not None:
            done = any(fs(le(x, L.K)) is True for x in ds)
        if not done:
            short = L.N is not None and fs(nt(lt(L.K, L.N))) is True
            if short:
                ck.require(any(cdiff(L.N, x) is not None and cdiff(L.N, x) >= 0 for x in ds), "prim-rounds", where, "there are only %s rounds" % pp(L.N)[:100], (L.N,))
            else:
                ck.require(False, "prim-exit", where, "the search for tree edges can end early (facts %s)" % [pp(f)[:150] for f in q.facts], q.facts)
        else:
            ck.ob("ok", "prim-exit", where)


def two_pushes(a2, A):
    """a2 = A with one edge pushed at each of two places -> ((i, edge), (j, edge))"""
    if a2.op != "upd" or a2.a[0].op != "upd" or a2.a[0].a[0] is not A:
        return None
    o = a2.a[0]
    i, x = o.a[1], o.a[2]
    j, y = a2.a[1], a2.a[2]
    if x.op != "push" or y.op != "push" or x.a[0] is not idx(A, i):
        return None
    if y.a[0] is not idx(o, j) and y.a[0] is not idx(A, j):
        return None
    return (i, x.a[1]), (j, y.a[1])


def one_push(a2, A):
    return a2.op == "upd" and a2.a[0] is A and a2.a[2].op == "push"


def inner(q, pred):
    """loops of an iteration which rewrite a state variable"""
    out = []
    for l in loops(q.ev):
        L = l.x["loop"]
        for key, ph in L.phi.items():
            if any(pred(getpath(b.st.mem[key[0]], key[1]), ph) for b in L.backs):
                out.append((l, key, ph))
    return out


def weight(G, v, k):
    return [idx2(m, a, b) for m in (G, fld(G, 0)) for a, b in ((v, k), (k, v))]


class VS:
    def __init__(self, v, L):
        self.v = v
        self.bad = self.und = None
        kind, N, ini, tie, body = v.a
        self.k = k = T("k", "prim_k")
        cs = uncases(subst_bv(body, k))
        self.L = L
        if kind != "min":
            self.bad = "the next vertex is the one with the largest cost"
            return
        if len(cs) != 1:
            self.und = "several kinds of candidates"
            return
        cond, pay = cs[0]
        self.key = pay[0]
        self.cond = cond
        ph = {x for x in subterms(self.key) if x.op == "phi" and x in set(L.phi.values())}
        if len(ph) != 1:
            self.und = "the cost of a candidate is %s" % pp(self.key)[:150]
            return
        self.D = ph.pop()
        self.dk = [kk for kk, x in L.phi.items() if x is self.D][0]
        # candidates are exactly the unused vertices
        used = [c for c in cond if c.op == "not"]
        other = [c for c in cond if c.op != "not" and not (c.op == "flt_" and INF in c.a)]
        if len(used) != 1 or other:
            if not cond:
                self.bad = "vertices already in the tree are chosen again"
            elif other and not hazy(*cond) and not used:
                self.bad = "the candidates are the vertices with %s" % [pp(c)[:100] for c in cond]
            else:
                self.und = "the candidates are the vertices with %s" % [pp(c)[:100] for c in cond]
            return
        self.usedt = used[0].a[0]
        if N is not length(self.D) and not (cdiff(N, length(self.D)) == 0):
            i0 = L.init[self.dk]
            if N.op == "len" or N in (length(i0),):
                return
            self.bad = None
            self.und = "the candidates are the first %s ones" % pp(N)[:100]

    def at(self, t, k, m):
        return subst(t, dict(m, **{}) | {self.k: k})

    def is_cost(self, c):
        return c.op == "argopt" and same_scan(c, self.v) and payload(c, self.k) is self.key

    def is_to(self, u):
        if u.op != "argopt" or not same_scan(u, self.v):
            return False
        self.to = payload(u, self.k)
        return self.to is not self.k and self.to is not None and self.D in subterms(self.to)

    def initial(self, ck, where, L, start, EX, ds):
        x = L.init[self.dk]
        seen_ex = False
        okstart = False
        n = 0
        while x.op in ("upd", "scatter") and n < 6:
            n += 1
            if x.op == "upd":
                c = self.at(self.key, x.a[1], {self.D: x})
                if x.a[1] is start and c is not INF and not hazy(c):
                    okstart = True
                x = x.a[0]
            else:
                N, lamb = x.a[1], x.a[2]
                b = T("k", "prim_b")
                cs = uncases(subst_bv(lamb, b))
                if N is length(EX) and len(cs) == 1 and cs[0][1][0] is idx(EX, b):
                    seen_ex = True
                else:
                    ck.ob("undecided", "prim-excluded", where, "initialised by %s" % pp(x)[:200])
                    return
                x = x.a[0]
        if x.op != "rep":
            ck.ob("undecided", "prim-initial", where, "the candidates start as %s" % pp(x)[:200])
            return
        base = x
        k = T("k", "prim_i")
        c0 = self.at(self.key, k, {self.D: base})
        u0 = self.at(self.usedt, k, {self.D: base})
        ck.require(c0 is INF, "prim-initial", where, "vertices without a known edge start with the cost %s" % pp(c0)[:100], (c0,))
        ck.require(u0 is FALSE, "prim-initial", where, "vertices start as used: %s" % pp(u0)[:100], (u0,))
        ck.require(okstart, "prim-start-cost", where, "the start vertex is not prepared with a finite cost: %s" % pp(L.init[self.dk])[:200], (L.init[self.dk],))
        if not seen_ex:
            ck.require(False, "prim-excluded", where, "the excluded vertices are not marked: %s" % pp(L.init[self.dk])[:200], (L.init[self.dk],))
        else:
            ini = L.init[self.dk]
            ck.require(excluded_used(self, ini, EX), "prim-excluded", where, "the excluded vertices are not marked as used: %s" % pp(ini)[:300], (ini,))

    def round(self, ck, where, q, L, G, ds):
        """the chosen vertex is marked, and its edges are offered to all vertices"""
        ins = inner(q, lambda v, ph: v.op == "upd" and v.a[0] is ph and self.like(ph, v))
        if len(ins) != 1:
            end = getpath(q.st.mem[self.dk[0]], self.dk[1])
            if not ins and not any(x.op == "loopval" for x in subterms(end)) and not hazy(end):
                ck.require(False, "prim-relax", where, "the edges of a new vertex are never considered", ())
            else:
                ck.ob("undecided", "prim-relax", where, "%d loops update the candidates" % len(ins))
            return
        l2, key2, ph2 = ins[0]
        L2 = l2.x["loop"]
        K = L2.K
        # where does the vertex get marked?
        end = unclose(getpath(q.st.mem[self.dk[0]], self.dk[1]), l2)
        i2 = L2.init[key2]
        m1 = self.at(self.usedt, self.v, {self.D: i2})
        m2 = self.at(self.usedt, self.v, {self.D: subst(end, {ph2: i2})})
        ck.require(m1 is TRUE or m2 is TRUE, "prim-mark", where, "the vertex which joins the tree is not marked: %s" % pp(i2)[:200], (i2, end))
        if L2.N is None:
            ck.ob("undecided", "prim-relax-all", where, "the number of candidates looked at is not known")
        else:
            ok_ = enough(L2.N, ds, ph2)
            ck.require(ok_, "prim-relax-all", where, "only %s vertices are offered the edges of the new vertex" % pp(L2.N)[:100], (L2.N,))
        for x in L2.exits:
            if L2.N is not None and FS(x.facts)(nt(lt(K, L2.N))) is not True:
                ck.require(False, "prim-relax-all", where, "the update can end early under %s" % [pp(f)[:100] for f in x.facts], x.facts)
        for b in L2.backs:
            nv = getpath(b.st.mem[key2[0]], key2[1])
            fs = FS(b.facts)
            old = self.at(self.key, K, {self.D: ph2})
            used = self.at(self.usedt, K, {self.D: ph2})
            ws = weight(G, self.v, K)
            if nv is ph2:
                worse = any(fs(flt(w, old)) is False or fs(flt(old, w)) is True for w in ws)
                skip = fs(used) is True or fs(ieq(K, self.v)) is True or fs(self.at(self.usedt, K, {self.D: i2})) is True or worse_inf(fs, ws)
                ck.require(worse or skip, "prim-relax-kept", where, "a cheaper edge from the new vertex is ignored (facts %s)" % [pp(f)[:150] for f in b.facts], b.facts)
                continue
            if not (nv.op == "upd" and nv.a[0] is ph2 and nv.a[1] is K):
                ck.require(False, "prim-relax-index", where, "the candidates become %s" % pp(nv)[:300], (nv,))
                continue
            c = self.at(self.key, K, {self.D: nv})
            t = self.at(self.to, K, {self.D: nv})
            us = self.at(self.usedt, K, {self.D: nv})
            ck.require(c in ws or (c.op == "fmin2" and old in c.a and any(w in c.a for w in ws)), "prim-relax-cost", where, "the candidate cost becomes %s" % pp(c)[:200], (c,))
            ck.require(t is self.v, "prim-relax-to", where, "the candidate edge leads to %s and not to the new vertex" % pp(t)[:200], (t,))
            ck.require(us is used or us is self.at(self.usedt, K, {self.D: i2}), "prim-relax-used", where, "the update changes which vertices are in the tree: %s" % pp(us)[:100], (us,))
            if c in ws:
                ck.require(fs(flt(c, old)) is True or fs(flt(old, c)) is False, "prim-relax-better", where, "a candidate edge is replaced although the new one is not cheaper (facts %s)" % [pp(f)[:150] for f in b.facts], b.facts)

    def like(self, ph, v):
        return True if v.a[0] is ph and (self.at(self.key, v.a[1], {self.D: v}) is not self.at(self.key, v.a[1], {self.D: ph})) else False

    def exhausted(self, fs, facts):
        mine = lambda x: x.op == "argopt" and same_scan(x, self.v)
        return any(f.op == "not" and f.a[0].op == "exists" or is_inf_test(f, mine) for f in facts)


def is_inf_test(f, mine):
    """the fact says that a cost chosen by `mine` is infinite (costs are not negative)"""
    if f.op == "or":
        return all(is_inf_test(x, mine) for x in f.a)
    g = f.a[0] if f.op == "not" else f
    neg = f.op == "not"
    inf = [x for x in g.a if isinstance(x, Term) and (x is INF or x is fneg(INF))]
    if g.op in ("feq", "flt_") and inf and any(isinstance(x, Term) and mine(x) for x in g.a):
        return (g.op == "feq") != neg
    return False


def worse_inf(fs, ws):
    return any(fs(flt(w, INF)) is False for w in ws)


def excluded_used(s, ini, EX):
    """after the initialisation the entries named by EX are used"""
    x = ini
    after = {}
    while x.op in ("upd", "scatter"):
        if x.op == "scatter":
            b = T("k", "prim_b")
            cs = uncases(subst_bv(x.a[2], b))
            val = cs[0][1][1]
            # the new value of element EX[b]
            k = idx(EX, b)
            y = upd(x.a[0], k, val)
            u = s.at(s.usedt, k, {s.D: y})
            return u is TRUE
        x = x.a[0]
    return False


class PQ:
    """candidate costs in a priority queue"""

    def __init__(self, v, L):
        self.v = v
        self.L = L
        self.bad = self.und = None
        q = v.a[0].a[0] if v.a[0].op == "pqtop" else None
        if q is None or q not in L.phi.values():
            self.und = "the queue is %s" % pp(v)[:150]
            return
        self.Q = q
        self.qk = [kk for kk, x in L.phi.items() if x is q][0]

    def is_cost(self, c):
        return unwrap(T("pqprio", self.v.a[0]), c)

    def is_to(self, u):
        self.C = u.a[0] if u.op == "idx" and u.a[1] is self.v else None
        if self.C is not None and self.C in self.L.phi.values():
            self.ckey = [kk for kk, x in self.L.phi.items() if x is self.C][0]
            return True
        return False

    def initial(self, ck, where, L, start, EX, ds):
        x = L.init[self.qk]
        # a loop which removes the excluded vertices may stand before
        pre = None
        k = T("k", "prim_i")
        if x.op == "loopval":
            # generic summary of the loop over EX
            inits = [y for y in x.a[2].a if y.op.startswith("pq")]
            rem = [y for y in subterms(x.a[3]) if y.op == "pqrem"]
            b = T("k", "prim_b")
            okr = x.a[1] is length(EX) and any(y.a[1].op == "idx" and y.a[1].a[0] is EX for y in rem)
            ck.require(okr, "prim-excluded", where, "the excluded vertices stay in the queue", (x.a[1],))
            if len(inits) != 1:
                ck.ob("undecided", "prim-initial", where, "the queue starts as %s" % pp(x)[:200])
                return
            x = inits[0]
        elif any(y.op == "pqrem" for y in subterms(x)):
            ck.ob("undecided", "prim-excluded", where, "the queue starts as %s" % pp(x)[:200])
            return
        else:
            ck.require(False, "prim-excluded", where, "the excluded vertices stay in the queue: %s" % pp(x)[:200], (x,))
        okstart = False
        if x.op == "pqset" and x.a[1] is start:
            okstart = not any(y is INF for y in subterms(x.a[2])) and not hazy(x.a[2])
            x = x.a[0]
        ck.require(okstart, "prim-start-cost", where, "the start vertex does not come first: %s" % pp(x)[:200], (x,))
        if x.op == "pq" and x.a[0].op == "map":
            it = subst_bv(x.a[0].a[1], k)
            n = x.a[0].a[0]
            ck.require(fld(it, 0) is k and INF in subterms(fld(it, 1)), "prim-initial", where, "the queue starts with the entries %s" % pp(it)[:150], (it,))
            ck.require(any(cdiff(n, d) is not None and cdiff(n, d) >= 0 for d in ds), "prim-initial", where, "the queue starts with %s vertices" % pp(n)[:100], (n,))
        else:
            ck.ob("undecided", "prim-initial", where, "the queue starts as %s" % pp(x)[:200])

    def round(self, ck, where, q, L, G, ds):
        ins = inner(q, lambda v, ph: v.op == "pqset" and v.a[0] is ph)
        if len(ins) != 1:
            end = getpath(q.st.mem[self.qk[0]], self.qk[1])
            if not ins and not hazy(end):
                ck.require(False, "prim-relax", where, "the edges of a new vertex are never considered", ())
            else:
                ck.ob("undecided", "prim-relax", where, "%d loops update the queue" % len(ins))
            return
        l2, key2, ph2 = ins[0]
        L2 = l2.x["loop"]
        K = L2.K
        i2 = L2.init[key2]
        ck.require(i2.op == "pqrem" and i2.a[0] is self.Q and i2.a[1] is self.v, "prim-mark", where, "the vertex which joins the tree stays in the queue: %s" % pp(i2)[:200], (i2,))
        ck2 = [(kk, x) for kk, x in L2.phi.items() if kk == self.ckey]
        if L2.N is None:
            ck.ob("undecided", "prim-relax-all", where, "the number of candidates looked at is not known")
        else:
            ok_ = enough(L2.N, ds, ph2)
            ck.require(ok_, "prim-relax-all", where, "only %s vertices are offered the edges of the new vertex" % pp(L2.N)[:100], (L2.N,))
        for x in L2.exits:
            if L2.N is not None and FS(x.facts)(nt(lt(K, L2.N))) is not True:
                ck.require(False, "prim-relax-all", where, "the update can end early under %s" % [pp(f)[:100] for f in x.facts], x.facts)
        for b in L2.backs:
            nv = getpath(b.st.mem[key2[0]], key2[1])
            cv = getpath(b.st.mem[self.ckey[0]], self.ckey[1]) if ck2 else None
            cph = ck2[0][1] if ck2 else None
            fs = FS(b.facts)
            ws = weight(G, self.v, K)
            old = oldcost(ph2, K)
            if nv is ph2:
                worse = any(fs(flt(w, old)) is False or fs(flt(old, w)) is True for w in ws)
                gone = fs(T("pqhas", ph2, K)) is False or any(f.op == "idx" and f.a[1] is K for f in b.facts) or fs(ieq(K, self.v)) is True
                ck.require(worse or gone, "prim-relax-kept", where, "a cheaper edge from the new vertex is ignored (facts %s)" % [pp(f)[:150] for f in b.facts], b.facts)
                ck.require(cv is cph, "prim-relax-to", where, "the connection changes without the cost: %s" % pp(cv)[:200], (cv,))
                continue
            if not (nv.op == "pqset" and nv.a[0] is ph2 and nv.a[1] is K):
                ck.require(False, "prim-relax-index", where, "the queue becomes %s" % pp(nv)[:300], (nv,))
                continue
            ck.require(any(unwrap_is(nv.a[2], w) for w in ws), "prim-relax-cost", where, "the candidate cost becomes %s" % pp(nv.a[2])[:200], (nv.a[2],))
            okc = cv is not None and cv.op == "upd" and cv.a[0] is cph and cv.a[1] is K and cv.a[2] is self.v
            ck.require(okc, "prim-relax-to", where, "the connection becomes %s" % (pp(cv)[:200] if cv is not None else "unchanged"), (cv,) if cv is not None else ())
            ck.require(any(fs(flt(w, old)) is True or fs(flt(old, w)) is False for w in ws), "prim-relax-better", where, "a candidate is replaced although the new edge is not cheaper (facts %s)" % [pp(f)[:150] for f in b.facts], b.facts)

    def exhausted(self, fs, facts):
        return any(f.op == "not" and f.a[0].op == "pqnonempty" or is_inf_test(f, self.is_cost) for f in facts)


def enough(N, ds, ph):
    if N.op == "imin":
        return all(enough(x, ds, ph) for x in N.a)
    return any(cdiff(N, d) is not None and cdiff(N, d) >= 0 for d in ds) or N is length(ph)


def oldcost(q, k):
    return fld(fld(T("pqget", q, k), 0), 0)


def unwrap(prio, c):
    """c is the f64 inside the priority"""
    return c is fld(fld(prio, 0), 0)


def unwrap_is(p, w):
    while p.op == "agg" and len(p.a) == 3:
        p = p.a[2]
    return p is w


# ---------------------------------------------------------------- countermodels
class Queue:
    """a priority queue: item -> priority"""

    def __init__(self, d):
        self.d = d

    def top(self):
        if not self.d:
            raise SM.Undef("empty queue")
        return max(self.d, key=lambda k: (self.rank(self.d[k]), -k))

    def rank(self, p):
        s = 1
        while isinstance(p, SM.A) and len(p.f) == 1:
            s = -s if p.v == "rev" else s
            p = p.f[0]
        if not isinstance(p, (int, float)):
            raise SM.Hazy("priority")
        return s * p


class PrimEv(SM.Ev):
    def o_agg(self, t, kind, variant, *f):
        if isinstance(kind, str) and kind.split("::")[-1].split("<")[0] == "Reverse":
            return SM.A("rev", *[self.val(x) for x in f])
        return super().o_agg(t, kind, variant, *f)

    def queue(self, t):
        q = self.val(t)
        if not isinstance(q, Queue):
            raise SM.Hazy("queue")
        return q

    def o_pq(self, t, s): return Queue({x.f[0]: x.f[1] for x in self.seq(s)})
    def o_pqtop(self, t, q): return self.queue(q).top()
    def o_pqnonempty(self, t, q): return bool(self.queue(q).d)
    def o_pqhas(self, t, q, k): return self.val(k) in self.queue(q).d
    def o_pqitem(self, t, x): return self.val(x)

    def o_pqprio(self, t, x):
        if x.op != "pqtop":
            raise SM.Hazy("priority")
        q = self.queue(x.a[0])
        return q.d[q.top()]

    def o_pqget(self, t, q, k):
        d = self.queue(q).d
        k = self.val(k)
        if k not in d:
            raise SM.Undef("not in the queue")
        return d[k]

    def o_pqrem(self, t, q, k):
        d, k = self.queue(q).d, self.val(k)
        return Queue({a: b for a, b in d.items() if a != k})

    def o_len(self, t, s):
        v = self.val(s)
        return len(v.d) if isinstance(v, Queue) else super().o_len(t, s)

    o_setlen = o_len

    def o_idx2(self, t, m, i, j):
        v = self.val(m)
        v = v.f[0] if isinstance(v, SM.A) and len(v.f) == 1 else v
        i, j = self.val(i), self.val(j)
        if isinstance(v, SM.M) and v.r and i >= len(v.r):
            # an access through a pointer: the matrix is stored column by column
            i, j = i % len(v.r), j + i // len(v.r)
        return self.at(self.at(v.r if isinstance(v, SM.M) else v, i), j)

    def o_pqset(self, t, q, k, p):
        d, k = self.queue(q).d, self.val(k)
        if k not in d:
            raise SM.Hazy("set")
        return Queue(dict(d, **{}) | {k: self.val(p)})


def graphs_for_prim(consts, floats):
    for n in (1, 2, 3, 4):
        for w in range(4 if n > 2 else 2):
            rows = RS.weights_for(n, (0, 1, 2, 4)[w])
            for l in range(n + 1):
                if n == 4 and l > 1 and w > 1:
                    continue
                for ex in itertools.combinations(range(n), l):
                    yield rows, ex[::-1] if w % 2 else ex
    yield RS.weights_for(4, 0), (2, 2, 2, 0)
    for w in (6, 7, 8):
        for n in (3, 4, 5):
            for ex in ((), (0,), (n - 1, 1)):
                yield RS.weights_for(n, w), ex
    # edges of infinite weight, also such that the graph falls apart
    for n in (2, 3, 4, 5):
        for es in (((0, 1),), ((0, 2), (1, 2)), ((0, 1), (0, 2), (0, 3), (0, 4)), ((0, 2), (0, 3), (1, 2), (1, 3))):
            rows = RS.weights_for(n, 0)
            for i, j in es:
                if max(i, j) < n:
                    rows[i][j] = rows[j][i] = math.inf
            for ex in ((), (1,)) if n > 2 else ((),):
                yield rows, ex
    for n in sorted({5, 6} | {c + d for c in consts for d in (0, 1, 2) if 6 < c + d < 16}):
        some = [()] + [tuple((x * 5 + 2) % n for x in range(l)) if n % 5 else tuple(range(l)) for l in (1, 2, n // 2 + 1, n // 2 + 2, n - 1)]
        for w in (1, 0, 4) if n < 7 else (1,):
            for ex in sorted(set(some)):
                if len(set(ex)) == len(ex) and (w == 1 or len(ex) != 2):
                    yield RS.weights_for(n, w), ex
    for c in sorted(c for c in consts if 14 <= c < 68)[-3:]:
        # cheap edges between vertices whose numbers are far apart
        n = c + 3
        pos = {v: 2 * v if 2 * v < n else 2 * (n - 1 - v) + 1 for v in range(n)}
        yield [[abs(pos[i] - pos[j]) * (1.0 + min(i, j) / 256) for j in range(n)] for i in range(n)], tuple(range(2, n - 2))
    for f in sorted(floats):
        if math.isfinite(f) and 0 < abs(f) < 1e12:
            for n in (3, 4):
                yield [[0.0 if i == j else f + (-0.5, 0.0, 0.5, 1.5)[(i + j + i * j) % 4] for j in range(n)] for i in range(n)], ()


def tree_of(v, n):
    """the edge lists of a graph value"""
    while isinstance(v, SM.A) and len(v.f) == 1:
        v = v.f[0]
    if not isinstance(v, tuple):
        raise SM.Hazy("graph")
    out = []
    for x in v:
        while isinstance(x, SM.A) and len(x.f) == 1:
            x = x.f[0]
        if not isinstance(x, tuple) or not all(isinstance(y, SM.A) and len(y.f) == 2 for y in x):
            raise SM.Hazy("vertex")
        out.append([(y.f[0], y.f[1]) for y in x])
    return out


def wrong_tree(lists, rows, ex):
    """why the edge lists are no minimum spanning tree of the vertices not in ex, or None"""
    n = len(rows)
    left = [v for v in range(n) if v not in ex]
    if not left and not lists:
        return None
    parts = []
    for v in left:
        near = [q for q in parts if any(rows[v][u] < math.inf for u in q)]
        parts = [q for q in parts if q not in near] + [sorted(sum(near, [v]))]
    if len(parts) > 1:
        # only what can be reached from the start
        ws = [wrong_tree(lists, rows, sorted(set(range(n)) - set(q))) for q in sorted(parts)]
        return None if None in ws else ws[0]
    if len(lists) != n:
        return "it has %d vertices" % len(lists)
    es = sorted((min(a, b), max(a, b)) for a in range(n) for b, c in lists[a])
    for a in range(n):
        for b, c in lists[a]:
            if not 0 <= b < n:
                return "there is an edge from %d to %s" % (a, b)
            if a in ex or b in ex:
                return "the edge %d-%d uses an excluded vertex" % (a, b)
            if abs(c - rows[a][b]) > 1e-9:
                return "the edge %d-%d has the cost %g" % (a, b, c)
            if sum(1 for x, y in lists[b] if x == a) != sum(1 for x, y in lists[a] if x == b):
                return "the edge %d-%d is not stored in both directions" % (a, b)
    und = sum(len(l) for l in lists) / 2
    if und != len(left) - 1:
        return "it has %g edges for %d vertices" % (und, len(left))
    seen, todo = set(left[:1]), left[:1]
    while todo:
        for b, c in lists[todo.pop()]:
            if b not in seen:
                seen.add(b)
                todo.append(b)
    if seen != set(left):
        return "it does not connect %s" % left
    w = sum(c for l in lists for b, c in l) / 2
    best = RS.mst_weight(rows, set(ex))
    if abs(w - best) > 1e-9:
        return "its weight is %g instead of %g" % (w, best)
    return None


def models_of(paths):
    """-> (countermodel text or None, number of models, hazy)"""
    if paths is None:
        return None, 0, "not analysed"
    G, EX = T("sym", "*p0"), T("sym", "*p1")
    n, hz = 0, None
    floats = set()
    consts = RS.consts_of(paths, floats)
    for rows, ex in graphs_for_prim(consts, floats):
        env = {G: SM.A(0, SM.M(rows)), EX: ex}
        r = SM.outcome(paths, env, lambda p, e: e.val(p.ret), None, PrimEv, len(rows) + 4)
        if r[0] == "hazy":
            hz = r[1]
            continue
        n += 1
        if r[0] == "none":
            return "for the matrix %s without %s there is no result" % (rows, list(ex)), n, hz
        try:
            w = wrong_tree(tree_of(r[1], len(rows)), rows, ex)
        except SM.Hazy as x:
            hz = "%s" % x
            continue
        if w:
            return "for the matrix %s without %s the tree is wrong: %s" % (rows, list(ex), w), n, hz
    return None, n, hz
