"""Rules for the brute force solvers and the permutation successor."""
from lib import *
from terms import _poly as terms_poly, exists as EXISTS

BRUTE = ("naive_solver", "first_improved_solver")


def identity(t, G):
    """is t the sequence 0,1,..,dim-1 ?"""
    if t.op == "map" and t.a[0] in (dim(G), dim(fld(G, 0))):
        k = T("k", "id_i")
        return subst_bv(t.a[1], k) is k
    if t.op == "range":
        return t.a[0] is I(0) and t.a[1] in (dim(G), dim(fld(G, 0)))
    return False


def evals(ev):
    return [x for x in ev if x.kind == "call" and last(x.name.split("::<")[0]) == "evaluate_circle"]


def step_of(new, old):
    """new = old stepped by next_permutation from position s on -> (s, call) or None"""
    if new.op == "out" and new.a[0].op == "call" and new.a[0].a[0] == "next_permutation" and new.a[0].a[1] is old:
        return I(0), new.a[0]
    if new.op == "updsub" and new.a[0] is old:
        o = new.a[3]
        if o.op == "out" and o.a[0].op == "call" and o.a[0].a[0] == "next_permutation":
            s = o.a[0].a[1]
            if s.op == "sub" and s.a[0] is old and s.a[1] is new.a[1] and s.a[2] is new.a[2]:
                return new.a[1], o.a[0], new.a[2]
    return None


def brute(ck):
    for s in BRUTE:
        bs = bodies("default", s)
        ck.require(bool(bs), "anchor", "solvers::exact::" + s, "the public solver is gone")
        for b in bs:
            one(ck, b)


def one(ck, body):
    where = nice(body)
    e, paths, why = run("brute", lambda: engine("default", own={body["id"]}), body)
    ck.engines.append(e)
    if paths is None:
        ck.ob("undecided", "brute-analysis", where, why)
        return
    G = T("sym", "*p0")
    for p in paths:
        if FS(p.facts).dead:
            continue
        lp = []
        for l in loops(p.ev):
            L = l.x["loop"]
            steps = {}
            for key, ph in L.phi.items():
                vs = [getpath(q.st.mem[key[0]], key[1]) for q in L.backs]
                if any(step_of(v, ph) for v in vs):
                    steps[key] = vs
            if steps:
                lp.append((l, steps))
        if not lp:
            if p.ret.op == "agg" and p.ret.a[0] == "tuple" and fld(p.ret, 0) is INF:
                continue
            nop = not any(x.kind == "call" and x.name == "next_permutation" for x in walk(p.ev))
            if nop and not any(True for l in loops(p.ev) if l.x["loop"].N is None) and not hazy(p.ret, *p.facts):
                small = any(FS(p.facts)(le(d, I(2))) for d in (dim(G), dim(fld(G, 0))))
                if small:
                    continue
            ck.ob("undecided", "brute-loop", where, "no loop over permutations found on a path")
            continue
        for l, steps in lp:
            loop(ck, where, G, p, l, steps)


def loop(ck, where, G, p, l, steps):
    L = l.x["loop"]
    if len(steps) != 1:
        ck.ob("undecided", "brute-loop", where, "several variables are stepped")
        return
    key, vs = next(iter(steps.items()))
    ph = L.phi[key]
    starts = []
    calls = []
    for v in vs:
        s = step_of(v, ph)
        if s is None:
            if v is ph:
                ck.require(False, "permutation-step", where, "an iteration does not move on to the next permutation")
            else:
                ck.ob("undecided", "permutation-step", where, "the permutation becomes %s" % pp(v)[:200])
            return
        starts.append(s[0])
        calls.append(s[1])
        if len(s) == 3:
            ck.require(any(s[2] is x for x in (dim(G), dim(fld(G, 0)), length(ph))) or s[2] is length(L.init[key]), "permutation-range", where,
                       "only the positions up to %s are permuted" % pp(s[2])[:100], (s[2],))
        ck.require(s[0] in (I(0), I(1)), "permutation-range", where, "the positions before %s are never permuted" % pp(s[0])[:100], (s[0],))
    init = L.init[key]
    ck.require(identity(init, G), "permutation-start", where, "the enumeration starts with %s, not with the sorted sequence of all vertices" % pp(init)[:200], (init,))
    # the loop ends only when there is no further permutation
    flags = []
    for k, f in L.phi.items():
        if L.init[k] is TRUE and all(getpath(q.st.mem[k[0]], k[1]) in calls for q in L.backs):
            flags.append(f)
    done_exits = [q for q in L.exits if any(FS(q.facts)(f) is False for f in flags)]
    live_exits = [q for q in L.exits if q not in done_exits]
    ck.require(bool(L.exits), "permutation-exit", where, "the enumeration never ends")
    for q in live_exits:
        fin = [x for x in q.ev if x.kind == "call" and x.name == "next_permutation"]
        qf = FS(q.facts)
        neg_ = any(qf(c) is False for c in calls) or any(qf(x.ret) is False for x in fin)
        if L.N is not None:
            ck.ob("undecided", "permutation-exit", where, "the enumeration counts to %s" % pp(L.N)[:100])
            continue
        ck.require(neg_, "permutation-exit", where, "the enumeration can end although there are further permutations (facts %s)" % [pp(f)[:150] for f in q.facts], q.facts)
    # every permutation is evaluated
    ev = T("call", "evaluate_circle", G, ph)

    def evaluated(evs, what):
        return [x for x in evs if x.args[0] in (G, fld(G, 0)) and x.args[1] is what]
    caseA = all(evaluated(evals(walk(q.ev)), ph) for q in L.backs + live_exits)
    nxt = [getpath(q.st.mem[key[0]], key[1]) for q in L.backs]
    caseB = all(evaluated(evals(walk(q.ev)), v) for q, v in zip(L.backs, nxt))
    before = p.ev[:p.ev.index(l)] if l in p.ev else ()
    if not caseA:
        if caseB:
            got = evaluated(evals(walk(before)), init)
            ck.require(bool(got), "permutation-evaluated", where, "the first permutation is never evaluated")
            if not got:
                return
        else:
            anyev = [x for q in L.backs + L.exits for x in evals(walk(q.ev))]
            bad = [q for q in L.backs + live_exits if not evaluated(evals(walk(q.ev)), ph)]
            fac = bad[0].facts if bad else ()
            odd = [x.args[1] for x in anyev if x.args[1] is not ph]
            inl = not anyev
            if inl:
                ck.ob("undecided", "permutation-evaluated", where, "the cost of a permutation is not computed by evaluate_circle")
                return
            ck.require(False, "permutation-evaluated", where, "a permutation may be left out: it is not evaluated under %s" % [pp(f)[:150] for f in fac], tuple(fac) + tuple(odd))
            return
    else:
        ck.ob("ok", "permutation-evaluated", where)
    # the incumbent
    cur = [(q, ph if caseA else getpath(q.st.mem[key[0]], key[1])) for q in L.backs]
    costs = [k for k in L.phi if k != key and any(_mentions_eval(getpath(q.st.mem[k[0]], k[1])) for q in L.backs)]
    if len(costs) != 1:
        if not costs:
            ck.require(False, "best-cost", where, "the cost of the best permutation is never kept")
        else:
            ck.ob("undecided", "best-cost", where, "%d variables hold evaluated costs" % len(costs))
        return
    ck_ = costs[0]
    B = L.phi[ck_]
    Bv = B

    def costof(q, k):
        return getpath(q.st.mem[k[0]], k[1])
    if L.init[ck_].op in ("tup", "adt"):
        ck.ob("undecided", "best-cost", where, "the best tour is kept as %s" % pp(L.init[ck_])[:100])
        return
    tours = [k for k in L.phi if k not in (key, ck_)]
    i0 = L.init[ck_]
    okinit = i0 is INF or any(i0 is x.ret for x in evals(walk(before)) if x.args[1] is init)
    ck.require(okinit, "best-start", where, "the best cost starts as %s" % pp(i0)[:100], (i0,))
    tour = None
    for q, x in cur:
        c = costof(q, ck_)
        E1 = [y.ret for y in evaluated(evals(walk(q.ev)), x)]
        if c is B:
            worse = any(FS(q.facts)(flt(t, B)) is False for t in E1)
            ck.require(worse, "best-kept", where, "a permutation is dropped although it may be better (facts %s)" % [pp(f)[:150] for f in q.facts], q.facts)
            for k in tours:
                v = costof(q, k)
                if k[1:] == ck_[1:] or v is L.phi[k]:
                    continue
                if v is x:
                    ck.require(False, "best-tour", where, "the stored permutation changes without its cost")
        else:
            mn = c.op == "fmin2" and B in c.a and any(t in c.a for t in E1)
            ck.require(c in E1 or mn, "best-cost", where, "the best cost becomes %s" % pp(c)[:200], (c,))
            if c in E1:
                ck.require(FS(q.facts)(flt(c, B)) is True, "best-strict", where, "the best permutation is replaced without being strictly better (facts %s)" % [pp(f)[:150] for f in q.facts], q.facts)
            upd = [k for k in tours if costof(q, k) is x]
            ck.require(len(upd) >= 1, "best-tour", where, "the best cost is updated, but the permutation stored with it is %s" % [pp(costof(q, k))[:80] for k in tours],
                       tuple(costof(q, k) for k in tours))
            if upd:
                tour = upd[0]
    # the result
    r = unclose(p.ret, l)
    if not (r.op == "agg" and r.a[0] == "tuple"):
        ck.ob("undecided", "brute-result", where, "the result is %s" % pp(r)[:200])
        return
    rc, rt = fld(r, 0), fld(r, 1)
    TP = L.phi.get(tour) if tour else None
    if TP is None and rc is B:
        ck.ob("undecided", "brute-result", where, "the result is %s" % pp(r)[:200])
        return
    good = (rc is B and rt is TP) or (rc.op == "call" and rc.a[0] == "evaluate_circle" and rc.a[2] is rt)
    if rc.op == "call" and rc.a[0] == "evaluate_circle":
        # the permutation of the last round is better than the best before
        q = l.x["exit"]
    ck.require(good, "brute-result", where, "the result is (%s, %s)" % (pp(rc)[:150], pp(rt)[:150]), (rc, rt))


def _mentions_eval(t):
    return any(x.op == "call" and x.a[0] == "evaluate_circle" for x in subterms(t))


# ---------------------------------------------------------------- next_permutation
def scan(t):
    """t = c0 + s*first(N, lambda k. C) -> (c0, s, N, pred) with pred(pos) the condition at position pos"""
    c, d = terms_poly(t)
    fs_ = [(m[0], k) for m, k in d.items() if len(m) == 1 and m[0].op == "first"]
    if len(fs_) != 1:
        return None
    f, s = fs_[0]
    if s not in (1, -1):
        return None
    c0 = sub(t, f) if s == 1 else add(t, f)
    N, lam = f.a[0], f.a[1]

    def pred(pos):
        k = sub(pos, c0) if s == 1 else sub(c0, pos)
        return subst_bv(lam, k)
    return c0, s, N, pred, f


def successor(ck):
    bs = bodies("default", "next_permutation")
    ck.require(bool(bs), "anchor", "solvers::exact::next_permutation", "the public function is gone")
    use = [b for b in bs if "usize" in b["args"]]
    if bs and not use:
        ck.ob("undecided", "successor", "solvers::exact::next_permutation", "no instance for usize")
    for b in use:
        succ_one(ck, b)


def succ_one(ck, body):
    where = nice(body)
    e, paths, why = run("succ", lambda: engine("default", own={body["id"]}), body)
    ck.engines.append(e)
    if paths is None:
        ck.ob("undecided", "successor", where, why)
        return
    S = T("sym", "*p0")
    n = length(S)
    root = T("vroot", T("sym", "p0"))
    k = T("k", "np_k")
    found = 0
    # the pivot: last position whose right neighbour is larger
    asc = exists_term(sub(n, I(1)), lambda b: lt(idx(S, sub(sub(n, b), I(2))), idx(S, sub(sub(n, b), I(1)))))
    for p in paths:
        fs = FS(p.facts)
        if fs.dead:
            continue
        st = p.st.mem.get(root, S)
        if fs(asc) is False and fs(ge0(sub(n, I(1)))) is not False and any(x.op == "max0" for f in p.facts for x in subterms(f)):
            # no ascent: loop ran to the end, len >= 1
            if p.ret is TRUE:
                continue  # infeasible: contradicts len >= 1
        if p.ret is FALSE:
            ck.require(st is S, "successor-last", where, "the slice is changed although there is no further permutation: %s" % pp(st)[:200], (st,))
            none = fs(asc) is False or fs(le(n, I(1))) is True
            if not none:
                ex = [f for f in p.facts if any(x.op in ("exists", "first", "last", "forall") for x in subterms(f))]
                bad = None
                for f in p.facts:
                    if f.op == "not" and f.a[0].op == "exists":
                        bad = f
                if bad is not None and _same_scan(bad.a[0], asc) is False:
                    ck.require(False, "successor-last", where, "the enumeration ends under %s" % pp(bad)[:200], (bad,))
                elif not hazy(*p.facts) and all(subterms(f) <= subterms(n) | {f, f.a[0]} or all(x is S or x.op in ("len", "lin", "int", "ge0", "eq0", "not") or x in subterms(S) for x in subterms(f)) for f in p.facts):
                    ck.require(False, "successor-last", where, "the enumeration ends early under %s" % [pp(f)[:100] for f in p.facts])
                else:
                    ck.ob("undecided", "successor-last", where, "false is returned under %s" % [pp(f)[:150] for f in p.facts])
            else:
                ck.ob("ok", "successor-last", where)
            continue
        if p.ret is not TRUE:
            ck.ob("undecided", "successor", where, "the result is %s" % pp(p.ret)[:200])
            continue
        found += 1
        if st is S:
            ck.require(False, "successor-step", where, "true is returned without a change")
            continue
        # suffix reversed after one swap
        if st.op == "swap" and st.a[0].op == "updsub":
            ck.ob("undecided", "successor-step", where, "reversed before the swap")
            continue
        if st.op == "swap":
            ck.require(False, "successor-suffix", where, "the suffix behind the pivot is not reversed", (st,))
            continue
        if not (st.op == "updsub" and st.a[0].op == "swap" and st.a[0].a[0] is S):
            ck.ob("undecided", "successor-step", where, "the slice becomes %s" % pp(st)[:300])
            continue
        sw, lo, hi, new = st.a
        a, b = sw.a[1], sw.a[2]
        sa, sb = scan(a), scan(b)
        if sa is not None and sb is not None and sa[4] in subterms(sb[4]):
            pass
        elif sa is not None and sb is not None and sb[4] in subterms(sa[4]):
            a, b, sa, sb = b, a, sb, sa
        elif sa is None or sb is None:
            ck.ob("undecided", "successor-step", where, "swap of %s and %s" % (pp(a)[:150], pp(b)[:150]))
            continue
        pos = T("k", "np_pos")
        c0, s, N, pred, f = sa
        bad = hazy(a, b, lo, hi)
        tm = (a, b, lo, hi)
        if s == -1:
            ck.require(pred(pos) is lt(idx(S, pos), idx(S, add(pos, I(1)))), "successor-pivot", where, "the pivot is the last position with %s" % pp(pred(pos))[:200], tm)
            ck.require(c0 is sub(n, I(2)), "successor-pivot-range", where, "the search for the pivot starts at %s" % pp(c0)[:100], tm)
        else:
            ck.require(False, "successor-pivot", where, "the pivot is searched for from the left", tm)
        c0, s, N, pred, f = sb
        if s == -1:
            ck.require(pred(pos) is lt(idx(S, a), idx(S, pos)), "successor-exchange", where, "the pivot is exchanged with the last position with %s" % pp(pred(pos))[:200], tm)
            ck.require(c0 is sub(n, I(1)), "successor-exchange-range", where, "the search for the exchange starts at %s" % pp(c0)[:100], tm)
        else:
            ck.ob("undecided", "successor-exchange", where, "searched from the left")
        rv = T("rev", subseq(sw, lo, hi))
        ck.require(lo is add(a, I(1)) and hi is n, "successor-suffix", where, "the reversed part is %s..%s" % (pp(lo)[:100], pp(hi)[:100]), tm)
        ck.require(new is rv or new.op == "sorted", "successor-suffix", where, "the suffix becomes %s" % pp(new)[:200], (new,))
        ck.require(fs(exists_of(sa[4])) is not None, "successor-found", where, "the pivot is used without having been found", p.facts)
    if not found and any(p.ret.op != "bool" and p.ret not in (TRUE, FALSE) for p in paths):
        return
    ck.require(found > 0, "successor-step", where, "no path steps to the next permutation")


def exists_of(f):
    k = T("k", "ex_k")
    return EXISTS(f.a[0], [subst_bv(f.a[1], k)], k)


def subseq(s, lo, hi):
    return T("sub", s, lo, hi)


def exists_term(N, fn):
    k = T("k", "ex_k")
    return EXISTS(N, [fn(k)], k)


def _same_scan(a, b):
    if a is b:
        return True
    return None if hazy(a) else False
