"""Christofides' algorithm: multigraph, Eulerian circuit, shortcuts, matching."""
import itertools
import math
from lib import *
from terms import uncases
import small as SM
import rules_step as RS
from small import A as AG, S as ST, M as MT
from rules_data import verdict, analyse, P0, total, sizes, sym as symmat, namat, graph as graphval

MODES = {"0": "SEQ", "1": "PAR", "2": "MPI"}


def instances(ck, config, name):
    bs = [b for b in bodies(config, name) if not b["args"] or b["args"][0].strip('"') in (MODES if config == "mpi" else ("0", "1"))]
    ck.require(bool(bs), "anchor", name, "the public function is gone")
    return bs


def modelcheck(ck, rule, where, models, step, what):
    """step(env) -> (ok, text) | None if it cannot be evaluated; a definite failure is a violation"""
    n, hz = 0, None
    for env in models:
        try:
            r = step(env)
        except SM.Hazy as ex:
            hz = str(ex)
            continue
        except SM.Undef:
            continue
        if r is None:
            continue
        n += 1
        if not r[0]:
            ck.ob("viol", rule, where, "%s: %s" % (what, r[1]))
            return
    ck.ob("undecided", rule, where, "%s: unrecognised form, no counterexample in %d small models%s" % (what, n, " (%s)" % hz[:100] if hz else ""))


# ---------------------------------------------------------------- the algorithm
def generic(ck, config):
    for b in instances(ck, config, "christofides_generic"):
        where = nice(b)
        ps = analyse(ck, config, b, "christofides")
        if ps is None:
            continue
        if not ps:
            ck.ob("viol", "christofides", where, "does not return")
            continue
        for p in ps:
            one(ck, where, p, b)
        if len(ps) > 1 and not total(ps):
            ck.ob("undecided", "christofides", where, "%d paths" % len(ps))


def one(ck, where, p, b):
    ret = p.ret
    if ret.op != "agg" or len(ret.a) != 4:
        ck.ob("undecided", "cost-of-tour", where, "returns %s" % pp(ret)[:100])
        return
    cost, tour = ret.a[2], ret.a[3]
    g = fld(P0, 0)
    cost_of_tour(ck, where, cost, tour, g)
    # the loops
    outer = [e for e in loops(p.ev) if e.x["loop"].N is None and any(i.x["loop"].N is None for q in e.x["loop"].backs for i in loops(q.ev))]
    E = None
    if len(outer) != 1:
        ck.ob("undecided", "euler", where, "%d nested loops without a bound" % len(outer))
    else:
        E = euler(ck, where, p, outer[0])
    if E is None:
        cands = [t for t in subterms(tour) if t.op == "loopval" and t.a[1].op == "kx"]
        E = max(cands, key=lambda t: len(pp(t))) if cands else None
    if E is None:
        ck.ob("undecided", "shortcut", where, "no Eulerian circuit found in the result")
    else:
        shortcut(ck, where, tour, E)
    # what the algorithm is made of
    msts = {t for t in subterms(ret) if t.op == "call" and t.a[0] == "MST"}
    dyns = {t for t in subterms(ret) if t.op == "call" and t.a[0] == "dyn"}
    ck.require(bool(msts) and all(t.a[1] is P0 and t.a[2].op == "seq0" for t in msts), "tree-of-graph", where,
               "the spanning tree is %s" % [pp(t)[:80] for t in msts], tuple(msts))
    ck.require(bool(dyns) and len(msts) == 1 and all(t.a[1] is T("sym", "p1") and t.a[2] in msts and t.a[3] is P0 for t in dyns), "matching-of-tree", where,
               "the matching is %s" % [pp(t)[:120] for t in dyns], tuple(dyns))


def cost_of_tour(ck, where, cost, tour, g):
    n = length(tour)
    k = T("k", "cw")
    want = fsum(sub(n, I(1)), [((), (idx2(g, idx(tour, k), idx(tour, add(k, I(1)))),))], k)
    if tour.op == "push":
        b = tour.a[0]
        n = length(b)
        wants = [fsum(n, [((), (idx2(g, idx(b, k), nx),))], k) for nx in (idx(tour, add(k, I(1))),)]
        wants += [fsum(n, [((), (idx2(g, nx, idx(b, k)),))], k) for nx in (idx(tour, add(k, I(1))),)]
        forms_ = wants
    else:
        forms_ = []
    forms = [want] + forms_ + [T("call", "evaluate_path", P0, tour), T("call", "evaluate_path", g, tour)]
    if cost in forms:
        ck.ob("ok", "cost-of-tour", where)
        return
    # the tour as an unknown sequence s + [s[0]]
    S_ = T("sym", "the tour")
    c = subst(cost, {tour: S_})
    if tour.op == "push":
        c = subst(c, {tour.a[0]: T("trunc", S_, sub(length(S_), I(1)))})
    env0 = []
    for d in (2, 3, 4, 7):
        m = symmat(d)
        for s in itertools.permutations(range(d)) if d < 5 else [tuple(range(d)), tuple(range(d))[::-1]]:
            env0.append((m, s + s[:1]))
    for d in near(c):
        s = tuple((x * 29 + 3) % d if d % 29 else x for x in range(d))
        env0 += [(symmat(d), q + q[:1]) for q in (s, tuple(range(d)))]

    def step(x):
        m, s = x

        def ep(_, q):
            return float(sum(m[a][b] for a, b in zip(q, q[1:])))

        def ec(_, q):
            return ep(_, tuple(q) + tuple(q[:1]))
        e = SM.Ev({P0: namat(m), S_: s}, {"evaluate_path": ep, "evaluate_circle": ec})
        v = e.val(c)
        w = ep(None, s)
        return SM.close(v, w), "for the tour %s with weights %s the cost is %s instead of %s" % (s, m, v, w)
    modelcheck(ck, "cost-of-tour", where, env0, step, "the reported cost")


def near(t):
    """sizes around the constants in t"""
    return sorted({c + d for c in RS.consts_in([t]) for d in (0, 1, 2) if c + d > 4})[:12]


# ---------------------------------------------------------------- shortcuts
def shortcut(ck, where, tour, E):
    """the tour is the first visits of the circuit, closed"""
    s = T("sym", "the circuit")
    t = subst(tour, {E: s})
    if any(x.op == "loopval" and x.a[1].op == "kx" for x in subterms(t)):
        ck.ob("undecided", "shortcut", where, "the tour also depends on %s" % pp(t)[:100])
        return
    if t.op == "push" and t.a[1] in (idx(t.a[0], I(0)), idx(s, I(0))) and first_visits(t.a[0], s):
        ck.ob("ok", "shortcut", where)
        return
    walks = []
    for d in range(1, 5):
        for n in range(1, 7):
            for w in itertools.product(range(d), repeat=n):
                if w[0] == w[-1] and set(w) == set(range(d)) and (n < 6 or d == 4):
                    walks.append((d, w))
    for d in near(t):
        w = tuple(range(d))
        walks.insert(0, (d, w + w[d // 2:d // 2 + 1] + w[1:d:3] + w[::-1]))
        walks.insert(0, (d, w[::-1] + w[1:d:2] + w[-1:]))
    walks = walks[:600] + [(9, (0, 8, 3, 8, 7, 6, 1, 2, 4, 5, 4, 2, 0))]

    def step(x):
        d, w = x
        e = SM.Ev({s: w, P0: namat(symmat(d))}, {"dyn": lambda *a: (), "MST": lambda *a: graphval([[] for _ in range(d)])})
        v = e.val(t)
        want = tuple(dict.fromkeys(w))
        want += want[:1]
        return v == want, "the circuit %s becomes %s instead of %s" % (w, v, want)
    modelcheck(ck, "shortcut", where, walks, step, "the tour made from the circuit")


def first_visits(t, s):
    """is t the sequence of the first occurrences in s?"""
    n = length(s)
    if t.op == "collect" and t.a[0] is n:
        k = T("k", "fv")
        cs = uncases(subst_bv(t.a[1], k))
        if len(cs) != 1 or len(cs[0][0]) != 1 or cs[0][1][0] is not idx(s, k):
            return False
        c = cs[0][0][0]
        # c is mark j of element k after a loop over s
        mark = None
        if c.op == "fld" and c.a[0].op == "idx":
            mark, lv = c.a[1], c.a[0]
        elif c.op == "idx":
            lv = c
        else:
            return False
        if lv.a[1] is not k or lv.a[0].op != "loopval":
            return False
        L = lv.a[0]
        return marks(L, s, mark)
    if t.op == "loopval" and t.a[1] is n:
        j = t.a[0]
        k = T("k", "fv")
        lj = lvof(t, j)
        if t.a[2].a[j].op != "seq0":
            return False
        cs = uncases(subst_bv(t.a[3], k))
        new = [c for c in cs if c[1][j] is not lj]
        old = [c for c in cs if c[1][j] is lj]
        if len(new) != 1 or not old:
            return False
        x = idx(s, k)
        if new[0][1][j] is not push(lj, x):
            return False
        return seen_rule(t, new[0], old, x, k)
    return False


def seen_rule(L, new, old, x, k):
    """new is taken iff x has not been seen; seen elements are recorded"""
    for v in range(len(L.a[2].a)):
        lv = lvof(L, v)
        ini = L.a[2].a[v]
        if ini.op == "rep" and ini.a[0] is FALSE:
            test, rec = nt(idx(lv, x)), upd(lv, x, TRUE)
        elif ini.op == "map0" or ini.op == "setof" or (ini.op == "seq0"):
            test, rec = None, None
            for f in (T("maphas", lv, x), contains(lv, x)):
                if nt(f) in new[0]:
                    test = nt(f)
            rec = new[1][v] if new[1][v] in (push(lv, x), T("setins", lv, x)) else None
            if test is None or rec is None:
                continue
        elif ini.op == "rep" and ini.a[0] is TRUE:
            test, rec = idx(lv, x), upd(lv, x, FALSE)
        else:
            continue
        if set(new[0]) != {test} or new[1][v] is not rec:
            continue
        if len(old) == 1 and set(old[0][0]) == {nt(test)} and old[0][1][v] in (lv, rec):
            return True
    return False


def marks(L, s, mark):
    """after the loop L over s, element k is marked iff s[k] occurs there for the first time"""
    n = length(s)
    j = L.a[0]
    lj = lvof(L, j)
    if L.a[1] is not n:
        return False
    k = T("k", "mk")
    ini = L.a[2].a[j]
    i0 = idx(ini, k)
    if (fld(i0, mark) if mark is not None else i0) is not FALSE:
        return False
    # components of the marks which never change
    cs = uncases(subst_bv(L.a[3], k))
    m = {}
    if mark is not None:
        for c in cs:
            x = c[1][j]
            if x is lj:
                continue
            if not (x.op == "upd" and x.a[0] is lj and x.a[1] is k):
                return False
        comp = fld(idx(lj, k), 1 - mark)
        m[comp] = fld(i0, 1 - mark)
    cs = [(tuple(subst(c, m) for c in cc), tuple(subst(v, m) for v in vv)) for cc, vv in cs]
    new = [c for c in cs if c[1][j] is not lj]
    old = [c for c in cs if c[1][j] is lj]
    if len(new) != 1 or not old:
        return False
    w = new[0][1][j]
    if w.op != "upd" or w.a[0] is not lj or w.a[1] is not k:
        return False
    v = fld(w.a[2], mark) if mark is not None else w.a[2]
    if v is not TRUE:
        return False
    if mark is not None and fld(w.a[2], 1 - mark) not in (fld(i0, 1 - mark), fld(idx(lj, k), 1 - mark)):
        return False
    return seen_rule(L, new[0], old, idx(s, k), k)


# ---------------------------------------------------------------- the Eulerian circuit
def way(ck, where, L, init, q, e2):
    """one way through the loop which splices circles into the circuit"""
    L2 = e2.x["loop"]
    post = {ph: getpath(q.st.mem[k[0]], k[1]) for k, ph in L.phi.items()}
    post = {ph: unclose(v, e2) for ph, v in post.items()}
    if not L2.backs or any(len(x.facts) == 0 for x in L2.backs):
        ck.ob("undecided", "euler", where, "inner loop")
        return None
    posts2 = [(b, {ph: getpath(b.st.mem[k[0]], k[1]) for k, ph in L2.phi.items()}) for b in L2.backs]
    init2 = {ph: L2.init[k] for k, ph in L2.phi.items()}

    def role(posts, test):
        r = [ph for ph in posts[0] if any(any(test(ph, x) for x in subterms(pb[ph])) for pb in posts)]
        return r[0] if len(r) == 1 else None
    p2 = [pb for b, pb in posts2]
    M2 = role(p2, lambda ph, x: x.op == "upd2" and x.a[0] is ph)
    D2 = role(p2, lambda ph, x: x.op == "upd" and x.a[0] is ph)
    C2 = role(p2, lambda ph, x: x.op == "push" and x.a[0] is ph)
    rest = [ph for ph in p2[0] if ph not in (M2, D2, C2)]
    if M2 is None or C2 is None or len(rest) > 1:
        ck.ob("undecided", "euler", where, "state of the inner loop: %s" % [pp(x) for x in p2[0]])
        return None
    V2 = rest[0] if rest else idx(C2, sub(length(C2), I(1)))
    # roles outside
    M1 = [ph for ph in init if init2[M2] is ph]
    cyc = [ph for ph in init if ph not in M1 and any(x is C2 for x in subterms(post[ph]))]
    if len(M1) != 1 or len(cyc) != 1:
        ck.ob("undecided", "euler", where, "state of the loop: %s" % [pp(x) for x in init])
        return None
    M1, cyc = M1[0], cyc[0]
    D1 = [ph for ph in init if D2 is not None and init2[D2] is ph]
    D1 = D1[0] if D1 else None
    deg = D1
    n2 = dim(M1)
    # (1) inner loop: starts at a vertex of the circuit
    v0 = subst(V2, {V2: init2.get(V2, V2)}) if V2 in init2 else subst(V2, init2)
    # the start: position P in the circuit
    if not (v0.op == "idx" and v0.a[0] is cyc and init2[C2] in (push(SEQ0, v0),)):
        ck.ob("viol" if not hazy(v0, init2[C2]) and init2[C2].op == "push" and v0 is not init2[C2].a[1] else "undecided", "euler-start", where,
              "the new circle begins with %s and its search at %s" % (pp(init2[C2])[:80], pp(v0)[:80]))
        return None
    ck.ob("ok", "euler-start", where)
    P = v0.a[1]
    # (2) splice
    want = [cat_(cat_(subseq(cyc, I(0), add(P, I(1))), subseq(C2, I(1), length(C2))), subseq(cyc, add(P, I(1)), length(cyc))),
            cat_(cat_(subseq(cyc, I(0), P), C2), subseq(cyc, add(P, I(1)), length(cyc))),
            cat_(cat_(subseq(cyc, I(0), P), subseq(C2, I(0), sub(length(C2), I(1)))), subseq(cyc, P, length(cyc)))]
    got = post[cyc]
    facts = [unclose(x, e2) for x in q.facts]
    if flatcat(got) in [flatcat(w) for w in want]:
        ck.ob("ok", "euler-splice", where)
    else:
        def step(x):
            c, i, d = x
            m = [[0] * 8 for _ in range(8)]
            m[c[i]][7] = m[7][c[i]] = 2
            env = state(mg(m), L, init, M1, deg)
            env.update({cyc: c, C2: d, M2: mg([[0] * 8] * 8), V2: d[-1]})
            if V2.op == "idx":
                env.pop(V2)
            if D2 is not None:
                env[D2] = (0,) * 8
            kk = [y for y in subterms(length(C2)) if y.op == "k"]
            if len(kk) == 1 and length(C2) is add(kk[0], I(1)):
                env[kk[0]] = len(d) - 1
            ev = SM.Ev(env)
            if ev.val(P) != i or not ev.conds([f for f in within(facts, set(env))]):
                return None
            v = ev.val(got)
            w = c[:i] + d + c[i + 1:]
            return v == w, "the circle %s inserted into %s at position %d gives %s instead of %s" % (d, c, i, v, w)
        mods = [((0, 1, 2, 0), 1, (1, 3, 4, 1)), ((0, 1, 0), 0, (0, 2, 0)), ((0, 1, 2, 0), 2, (2, 3, 2)), ((0,), 0, (0, 1, 2, 0)), ((0, 1, 0), 1, (1, 2, 3, 1)),
                ((0, 1, 2, 1, 0), 1, (1, 3, 1)), ((0, 1, 2, 1, 0), 2, (2, 4, 3, 2)), ((0, 1, 2, 0), 0, (0, 5, 0)), ((0, 1, 2, 0), 3, (0, 5, 0)),
                ((0, 1, 2, 3, 4, 5, 0), 5, (5, 6, 5)), ((0, 1, 2, 3, 4, 5, 0), 4, (4, 6, 4)), ((0, 1, 2, 1, 3, 1, 4, 0), 6, (4, 5, 6, 4)),
                ((0, 6, 5, 4, 3, 2, 1, 0), 3, (4, 1, 2, 4)), ((0, 1, 2, 1, 0), 3, (1, 3, 1))]
        modelcheck(ck, "euler-splice", where, mods, step, "the circuit with the new circle")
    # (3) state handed on
    good = post.get(M1) is M2 and (D1 is None or post.get(D1) is D2)
    ck.require(good, "euler-state", where, "the multigraph or the degrees after the search of a circle are not kept", (post.get(M1, UNIT),))
    # the search goes on only from a vertex with edges left
    k = T("k", "eu")
    f = FS(q.facts)
    cont = [nt(ieq(idx(deg, v0), I(0)))] if deg is not None else []
    cont.append(exists(n2, [nt(ieq(fld(idx2(M1, v0, k), 1), I(0)))], k))
    okc = any(f(c) is True for c in cont)
    ck.ob("ok" if okc else "undecided", "euler-continue", where, "" if okc else "cannot see that the vertex chosen has edges left")
    # (5) one step of the circle
    circle(ck, where, L, L2, posts2, M2, D2, C2, V2, init[M1], D1 and init[D1], M1, D1)
    return M1, cyc, D1


def state(m, L, init, M1, deg):
    """the multigraph, its size and its degrees"""
    d = len(m.r)
    env = {P0: namat(symmat(d)), M1: m, dim(M1): d, dim(init[M1]): d}
    if deg is not None:
        env.update({deg: degs(m), length(deg): d, length(init[deg]): d})
    env = {k: v for k, v in env.items() if k.op != "int"}
    return env


def euler(ck, where, p, e):
    L = e.x["loop"]
    init = {ph: L.init[k] for k, ph in L.phi.items()}
    ways = [(q, [i for i in loops(q.ev) if i.x["loop"].N is None]) for q in L.backs]
    if not ways or any(len(i) != 1 for q, i in ways):
        ck.ob("undecided", "euler", where, "%d ways through the loop, %s inner loops" % (len(L.backs), [len(i) for q, i in ways]))
        return None
    same = None
    for q, (e2,) in ways:
        r = way(ck, where, L, init, q, e2)
        if r is None or (same is not None and r != same):
            if r is not None:
                ck.ob("undecided", "euler", where, "the ways through the loop disagree")
            return None
        same = r
    M1, cyc, D1 = same
    deg = D1
    n2 = dim(M1)
    # (4) the circuit is complete only if no vertex in it has edges left
    k = T("k", "eu")
    exits = [x for x in L.exits]
    for x in exits:
        f = FS(x.facts)
        okx = any(f(c) is False for c in leftover(cyc, M1, deg, k))
        if okx:
            ck.ob("ok", "euler-complete", where)
            continue
        conds = conj([unq for unq in x.facts])

        def step(m, conds=conds):
            cv, mm = m
            ev = SM.Ev({**state(mm, L, init, M1, deg), cyc: cv})
            if not ev.val(conds):
                return None
            left = [v for v in cv if degs(mm)[v]]
            return not left, "with the circuit %s the search ends although the vertices %s have edges left (%s)" % (cv, left, counts(mm))
        modelcheck(ck, "euler-complete", where, circuits([conds]), step, "the end of the search")
    # (6) the initial state
    iv = init[cyc]
    one_ = iv.op == "push" and iv.a[0] is SEQ0 or (iv.op == "agg" and iv.a[0] == "array" and len(iv.a) == 3)
    if one_ or length(iv) is I(1):
        ck.ob("ok", "euler-init", where)
    else:
        ck.ob("viol" if not hazy(iv) and const_int(length(iv)) is not None else "undecided", "euler-init", where, "the circuit begins as %s" % pp(iv)[:100])
    multigraph(ck, where, init[M1])
    if D1 is not None:
        degree(ck, where, init[D1], init[M1])
    fin = e.x["exit"].final.get(cyc) if hasattr(e.x["exit"], "final") else None
    return fin


SEQ0 = T("seq0")


def cat_(a, b):
    return EE.cat(a, b)


def flatcat(t):
    """parts of a concatenation"""
    if t.op == "cat":
        return flatcat(t.a[0]) + flatcat(t.a[1])
    if t.op == "sub" and t.a[1] is t.a[2]:
        return ()
    return (t,)


def within(facts, phis):
    """the facts about the state of this loop"""
    return [f for f in facts if any(t in phis for t in subterms(f))]


def leftover(cyc, M, deg, k):
    n = length(cyc)
    v = idx(cyc, k)
    D = dim(M)
    j = T("k", "ej")
    r = []
    has_edge = exists(D, [nt(ieq(fld(idx2(M, v, j), 1), I(0)))], j)
    r.append(exists(n, [has_edge], k))
    if deg is not None:
        inr = lt(v, length(deg))
        for c in (nt(ieq(idx(deg, v), I(0))), lt(I(0), idx(deg, v))):
            r += [exists(n, [c], k), exists(n, [inr, c], k), exists(length(deg), [nt(ieq(idx(deg, k), I(0)))], k)]
    return r


def counts(m):
    return [[x.f[1] for x in r] for r in m.r]


def degs(m):
    return tuple(sum(x.f[1] for x in r) for r in m.r)


def mg(rows):
    return MT([[ST(float((i + j) % 3), c) for j, c in enumerate(r)] for i, r in enumerate(rows)])


def multigraphs():
    for d in (5, 7):
        for i in range(d):
            m = [[0] * d for _ in range(d)]
            for a, b, c in ((i, (i + 1) % d, 2), (i, (i + 3) % d, 1), ((i + 1) % d, (i + 3) % d, 1)):
                m[a][b] = m[b][a] = c
            yield mg(m)
            m = [[0] * d for _ in range(d)]
            m[i][(i + 1) % d] = m[(i + 1) % d][i] = 2
            yield mg(m)
    for d, top in ((2, 3), (3, 3), (4, 2)):
        prs = list(itertools.combinations(range(d), 2))
        for cs in itertools.product(range(top), repeat=len(prs)):
            m = [[0] * d for _ in range(d)]
            for (i, j), c in zip(prs, cs):
                m[i][j] = m[j][i] = c
            yield mg(m)


def tops(terms):
    from rules_step import consts_in
    return sorted({c + e for c in consts_in(terms) for e in (0, 1)})[:12]


def even_graphs(terms=()):
    """every vertex has an even degree, no edge is there more than twice: what is left between two circles"""
    for m in multigraphs():
        if all(x % 2 == 0 for x in degs(m)):
            yield m
            if 2 < len(m.r) < 5:
                for cost in (math.inf, 1e300, 0.5):
                    yield MT([[ST(cost, x.f[1]) for x in r] for r in m.r])
    for c in tops(terms):
        d = c // 2 + 2
        for mid in (0, d - 1):
            m = [[0] * d for _ in range(d)]
            for v in range(d):
                if v != mid:
                    m[v][mid] = m[mid][v] = 2
            yield mg(m)


def walks(terms=()):
    """(what is left, where the walk is, the way it went): at the start, or after some steps"""
    for m in even_graphs(terms):
        d = len(m.r)
        few = range(d) if d < 6 else (0, d - 1)
        for v in few:
            yield m, v, (v,)
        for v in few:
            for w in few:
                if m.r[v][w].f[1]:
                    rows = [list(r) for r in m.r]
                    for a, b in ((v, w), (w, v)):
                        rows[a][b] = ST(rows[a][b].f[0], rows[a][b].f[1] - 1)
                    yield MT(rows), w, (v, w)


def circuits(terms=()):
    for m in even_graphs(terms):
        d = len(m.r)
        for c in ((0,), (0, 1, 0), (0, d - 1, 1, 0), tuple(range(d)) + (0,), tuple(range(d))[::-1] + tuple(range(1, d)), tuple(range(d)) + tuple(range(d - 1))[::-1], tuple(x for v in range(1, d) for x in (0, v)) + (0,)):
            yield c, m


def circle(ck, where, L0, L, posts, M, D, C, V, iM, iD, M1, D1):
    """one step along an edge which is left; both directions of the edge are used up"""
    n = dim(M)
    inner = set(L.phi.values())
    k = T("k", "ci")
    left = exists(n, [nt(ieq(fld(idx2(M, V, k), 1), I(0)))], k)
    n0 = dim(L.init[[kk for kk, ph in L.phi.items() if ph is M][0]])

    def here(mm, v, c):
        d = len(mm.r)
        e = {P0: namat(symmat(d)), M: mm, V: v, C: c, n0: d, dim(M1): d, dim(iM): d}
        if D is not None:
            e.update({D: degs(mm), length(D1): d, length(iD): d})
        if V.op == "idx":
            e.pop(V)
        return {k_: v_ for k_, v_ in e.items() if k_.op != "int"}

    for x in L.exits:
        f = FS(x.facts)
        n0 = dim(L.init[[kk for kk, ph in L.phi.items() if ph is M][0]])
        none = any(f(exists(nn, [cc], k)) is False for nn in (n, n0)
                   for cc in (nt(ieq(fld(idx2(M, V, k), 1), I(0))), lt(I(0), fld(idx2(M, V, k), 1))))
        if none or (D is not None and f(ieq(idx(D, V), I(0))) is True):
            ck.ob("ok", "circle-end", where)
            continue
        conds = conj(within(x.facts, inner))

        def step(m, conds=conds):
            ev = env_of(m)
            if not ev.val(conds):
                return None
            mm, v, c = m
            return not any(r.f[1] for r in mm.r[v]), "the circle ends at vertex %d although it has edges left (%s)" % (v, counts(mm))
        def env_of(m):
            mm, v, c = m
            return SM.Ev(here(mm, v, c))
        modelcheck(ck, "circle-end", where, walks([conds]), step, "the end of the circle")
    n0 = dim(L.init[[kk for kk, ph in L.phi.items() if ph is M][0]])
    good = True
    for b, pb in posts:
        newV = pb[V] if V in pb else subst(V, pb)
        w = newV
        f = FS(b.facts)
        dec = lambda m, i, j: upd2(m, i, j, setfld(idx2(m, i, j), 1, sub(fld(idx2(m, i, j), 1), I(1))))
        one = lambda s, i: upd(s, i, sub(idx(s, i), I(1)))
        okM = pb[M] in (dec(dec(M, V, w), w, V), dec(dec(M, w, V), V, w))
        okD = D is None or pb[D] in (one(one(D, V), w), one(one(D, w), V))
        okC = pb[C] is push(C, w)
        okE = f(ieq(fld(idx2(M, V, w), 1), I(0))) is False or f(ieq(fld(idx2(M, w, V), 1), I(0))) is False
        good = good and okM and okD and okC and okE
    if good:
        ck.ob("ok", "circle-step", where)
        return

    def step(m):
        mm, v, c = m
        e = here(mm, v, c)
        if not any(r.f[1] for r in mm.r[v]):
            return None
        hz = None
        for b, pb in posts:
            ev = SM.Ev(dict(e))
            if not ev.conds(within(b.facts, inner)):
                continue
            out = {ph: ev.val(t) for ph, t in pb.items()}
            w = out[V] if V in out else out[C][-1]
            st = "at vertex %d of %s the step goes to %s" % (v, counts(mm), w)
            if out[C] != c + (w,):
                return False, st + ", but the circle becomes %s" % (out[C],)
            if not mm.r[v][w].f[1]:
                return False, st + " along an edge which is not there"
            rows = [list(r) for r in counts(mm)]
            rows[v][w] -= 1
            rows[w][v] -= 1
            if counts(out[M]) != rows:
                return False, st + " and leaves the edges %s instead of %s" % (counts(out[M]), rows)
            if D is not None:
                ds = tuple(map(sum, rows))
                if out[D] != ds:
                    return False, st + " and leaves the degrees %s instead of %s" % (out[D], ds)
            return True, ""
        return None
    ts = [t for b, pb in posts for t in list(pb.values()) + within(b.facts, inner)]
    modelcheck(ck, "circle-step", where, walks(ts), step, "a step of the circle")


def zeroed(m, es):
    m = [list(r) for r in m]
    for a, b in es:
        m[a][b] = m[b][a] = 0.0
    return m


def mm_models():
    """(graph matrix, tree as adjacency lists, matching)"""
    trees = {2: [[(0, 1)]], 3: [[(0, 1), (1, 2)], [(0, 1), (0, 2)], [(0, 2), (1, 2)]],
             4: [[(0, 1), (1, 2), (2, 3)], [(0, 1), (0, 2), (0, 3)], [(0, 3), (1, 3), (2, 1)], [(2, 0), (2, 1), (2, 3)]]}
    for d, ts in trees.items():
        for m, tr in [(symmat(d), tr) for tr in ts] + [(zeroed(symmat(d), tr[:1]), tr) for tr in ts]:
            g = [[] for _ in range(d)]
            for u, v in tr:
                g[u].append((v, m[u][v]))
                g[v].append((u, m[u][v]))
            odd = [v for v in range(d) if len(g[v]) % 2]
            for mt in ([tuple(zip(odd[::2], odd[1::2]))] + ([((odd[0], odd[3]), (odd[2], odd[1]))] if len(odd) == 4 else []) + [tuple((b, a) for a, b in zip(odd[::2], odd[1::2]))]):
                yield m, g, mt


def multigraph(ck, where, M0):
    """the multigraph counts the edges of the tree once and those of the matching once more, in both directions"""
    tree = [t for t in subterms(M0) if t.op == "call" and t.a[0] == "MST"]
    mat = [t for t in subterms(M0) if t.op == "call" and t.a[0] == "dyn"]
    if len(tree) == 1 and len(mat) == 1 and built(M0, tree[0], mat[0]):
        ck.ob("ok", "multigraph", where)
        return

    def step(x):
        m, g, mt = x
        ev = SM.Ev({P0: namat(m), T("sym", "p1"): None}, {"MST": lambda *a: graphval(g), "dyn": lambda *a: tuple(tuple(y) for y in mt)})
        v = ev.val(M0)
        rows = [[0] * len(m) for _ in m]
        for u, l in enumerate(g):
            for w, c in l:
                rows[u][w] += 1
        for a, b in mt:
            rows[a][b] += 1
            rows[b][a] += 1
        return counts(v) == rows, "the tree %s and the matching %s give the multigraph %s instead of %s" % (g, mt, counts(v), rows)
    modelcheck(ck, "multigraph", where, mm_models(), step, "the union of tree and matching")


OLD = T("sym", "old entry")


def built(t, tree, mat):
    """mat(..(c, 0)) + one loop over the tree's edges writing (_, 1) + one loop over the matching adding one in both directions"""
    # the outermost loop: matching
    if t.op != "loopval" or t.a[0] != 0 or len(t.a[2].a) != 1 or t.a[1] is not length(mat):
        return False
    k = T("k", "bm")
    cs = uncases(subst_bv(t.a[3], k))
    if len(cs) != 1 or cs[0][0]:
        return False
    lv = lvof(t, 0)
    x = idx(mat, k)
    i, j = idx(x, I(0)), idx(x, I(1))
    inc = lambda m, a, b: upd2(m, a, b, setfld(idx2(m, a, b), 1, add(fld(idx2(m, a, b), 1), I(1))))
    if cs[0][1][0] not in (inc(inc(lv, i, j), j, i), inc(inc(lv, j, i), i, j)):
        return False
    t = t.a[2].a[0]
    vs = fld(tree, 0)
    if t.op != "loopval" or t.a[0] != 0 or len(t.a[2].a) != 1:
        return False
    base = t.a[2].a[0]
    n = t.a[1]
    lim = {length(vs), dim(base), dim(fld(P0, 0)), dim(P0)}
    if n.op == "imin":
        if not set(n.a) <= lim:
            return False
    elif n not in lim:
        return False
    cs = uncases(subst_bv(t.a[3], k))
    if len(cs) != 1 or cs[0][0]:
        return False
    w = cs[0][1][0]
    es = fld(idx(vs, k), 0)
    if w.op != "scatter2" or w.a[0] is not lv or w.a[1] is not length(es):
        return False
    l = T("k", "bl")
    c2 = uncases(subst_bv(w.a[2], l))
    if len(c2) != 1 or c2[0][0]:
        return False
    to = fld(idx(es, l), 0)
    pl = c2[0][1]
    seen = set()
    for a in range(0, len(pl), 3):
        if fld(pl[a + 2], 1) is not I(1):
            return False
        if (pl[a], pl[a + 1]) not in ((k, to), (to, k)):
            return False
        seen.add((pl[a], pl[a + 1]))
    a, b = T("k", "ba"), T("k", "bb")
    return bool(seen) and fld(idx2(base, a, b), 1) is I(0)


def degree(ck, where, D, M):
    n = dim(M)
    k, l = T("k", "dv"), T("k", "dw")
    at = idx(D, k)
    forms = [isum(n, [((), (fld(idx2(M, k, l), 1),))], l), isum(n, [((), (fld(idx2(M, l, k), 1),))], l)]
    if length(D) is n and at in forms:
        ck.ob("ok", "degrees", where)
        return
    MS = T("sym", "multigraph")
    d = subst(D, {M: MS, n: dim(MS)})

    def step(m):
        ev = SM.Ev({MS: m})
        v = ev.val(d)
        return v == degs(m), "the degrees of %s are %s" % (counts(m), v)
    modelcheck(ck, "degrees", where, multigraphs(), step, "the initial degrees")


# ---------------------------------------------------------------- which vertices are matched
def entry(ck, config):
    """christofides hands out a matching of exactly the vertices with odd degree"""
    P = prog(config)
    for b in instances(ck, config, "christofides"):
        where = nice(b)
        ps = analyse(ck, config, b, "entry")
        if ps is None:
            continue
        for p in ps:
            r = p.ret
            if r.op != "call" or not r.a[0].startswith("christofides_generic"):
                ck.ob("undecided", "entry", where, "returns %s" % pp(r)[:100])
                continue
            ck.require(r.a[1] is P0, "entry-graph", where, "Christofides runs on %s" % pp(r.a[1])[:80], (r.a[1],))
            m = r.a[0].split("::<")[-1].strip(">")
            if b["args"]:
                ck.require(m == b["args"][0].strip('"'), "entry-mode", where, "mode %s runs mode %s" % (b["args"][0], m))
            f = r.a[2]
            bid = f.a[0] if f.op == "fn" and isinstance(f.a[0], str) else (f.a[0].a[0] if f.op == "fn" else None)
            off = 0
            if f.op == "agg" and isinstance(f.a[0], str) and f.a[0].startswith("closure:") and len(f.a) == 2:
                bid, off = f.a[0][8:], 1
            fb = P.bodies.get(bid)
            if fb is None:
                ck.ob("undecided", "entry", where, "matching computed by %s" % pp(f)[:80])
                continue
            computer(ck, config, fb, off)


def star(d, mid):
    return [[(j, 1.0) for j in range(d) if j != mid] if i == mid else [(mid, 1.0)] for i in range(d)]


def computer(ck, config, b, off=0):
    where = nice(b)
    ps = analyse(ck, config, b, "odd-vertices")
    if ps is None:
        return
    ck.require(bool(ps), "odd-vertices", where, "the matching is never computed")
    T0, G = T("sym", "*p%d" % off), T("sym", "*p%d" % (off + 1))
    vs = fld(T0, 0)
    k = T("k", "od")
    odd = T("collect", length(vs), lam(cases_([((ieq(rem(length(fld(idx(vs, k), 0)), I(2)), I(1)),), (k,))]), k))
    odd2 = T("collect", length(vs), lam(cases_([((nt(ieq(rem(length(fld(idx(vs, k), 0)), I(2)), I(0))),), (k,))]), k))
    for p in ps:
        r = p.ret
        if r.op != "call" or not r.a[0].startswith("approx_min_cost_matching"):
            ck.ob("undecided", "odd-vertices", where, "returns %s" % pp(r)[:120])
            continue
        ck.require(r.a[1] is G, "matching-graph", where, "the matching is optimised on %s" % pp(r.a[1])[:80], (r.a[1],))
        if b["args"]:
            ck.require(r.a[0].split("::<")[-1].strip(">") == b["args"][0].strip('"'), "matching-mode", where, "mode %s runs %s" % (b["args"][0], r.a[0]))
        v = r.a[2]
        if v in (odd, odd2):
            ck.ob("ok", "odd-vertices", where)
            continue

        def step(x):
            m, g, mt = x
            ev = SM.Ev({T0: graphval(g), G: namat(m)})
            if not ev.conds(p.facts):
                return None
            s = ev.val(v)
            want = [i for i, l in enumerate(g) if len(l) % 2]
            return sorted(s) == want, "of the tree %s the vertices %s are matched instead of %s" % (g, s, want)
        path = [[(j, 1.0) for j in (i - 1, i + 1) if 0 <= j < 9] for i in range(9)]
        trees = [path] + [star(d, mid) for d in list(range(4, 14)) + [c + 1 for c in tops([v])] for mid in {0, 1, d // 2, d - 1}]
        more = [(symmat(len(g)), g, ()) for g in trees]
        modelcheck(ck, "odd-vertices", where, list(mm_models()) + more, step, "the vertices to be matched")


def cases_(cs):
    return cases(cs)


# ---------------------------------------------------------------- the matching
class Unproved(Exception):
    def __init__(self, text, definite=False):
        self.text, self.definite = text, definite


PERM = ("shuffled", "rev", "swap", "sorted", "sort")


def permuted(t, base):
    """t is a rearrangement of base"""
    while t is not base:
        if t.op in PERM:
            t = t.a[0]
        else:
            return False
    return True


def matching(ck, config):
    for b in instances(ck, config, "approx_min_cost_matching"):
        where = nice(b)
        ps = analyse(ck, config, b, "matching")
        if ps is None:
            continue
        ck.require(bool(ps), "matching", where, "does not return")
        for p in ps:
            r = p.ret
            if r.op == "out" and r.a[0].op == "call" and r.a[0].a[0].startswith("mpi_improve_matching"):
                # what the ranks make of it is the business of mpi_improve
                ck.require(r.a[0].a[1] is P0, "matching-graph", where, "the ranks optimise on %s" % pp(r.a[0].a[1])[:80], (r.a[0].a[1],))
                r = r.a[0].a[2]
            try:
                pairing(ck, config, where, r, FS(p.facts), {}, p)
            except Unproved as ex:
                bad = None if ex.definite else imperfect(r, p)
                ck.ob("viol" if ex.definite or bad else "undecided", "perfect", where, bad or ex.text)
            else:
                ck.ob("ok", "perfect", where)


def imperfect(t, p):
    """a model in which the matching is none"""
    for n in (2, 4, 6, 10, 14, 20):
        for tries in (0, 1, 3, 5):
            for vs in (tuple(range(n)), tuple(range(n))[::-1]) + (((0, 2), (2, 1), (3, 5), (5, 2)) if n == 2 else ((6, 1, 4, 0), (2, 3, 6, 7)) if n == 4 else ()):
                m = symmat(max(vs) + 1)
                ev = SM.Ev({P0: namat(m), T("sym", "p1"): vs, T("sym", "p2"): tries})
                try:
                    if not ev.conds(p.facts):
                        continue
                    v = ev.val(t)
                except (SM.Hazy, SM.Undef):
                    continue
                if sorted(x for e in v for x in e) != sorted(vs) or any(len(e) != 2 for e in v):
                    return "the vertices %s are matched as %s" % (vs, v)
    return None


def pairing(ck, config, where, t, fs, env, p):
    """t is a matching of all the vertices given"""
    if t.op == "map":
        # pairs cut out of a rearrangement of the vertices
        k = T("k", "pr")
        e = subst_bv(t.a[1], k)
        V = T("sym", "p1")
        a, b = idx(e, I(0)), idx(e, I(1))
        if t.a[0] not in (div(length(V), I(2)), div(add(length(V), I(1)), I(2))):     # there is an even number of vertices
            raise Unproved("the first matching has %s edges" % pp(t.a[0])[:60], not hazy(t.a[0]))
        if a.op == "idx" and b.op == "idx" and a.a[0] is b.a[0] and permuted(a.a[0], V):
            h = div(length(V), I(2))
            if {a.a[1], b.a[1]} in ({mulc(k, 2), add(mulc(k, 2), I(1))}, {k, add(k, h)}):
                return
            if a.a[1] is b.a[1]:
                raise Unproved("an edge joins a vertex with itself", True)
            two_by_two(a.a[1], b.a[1], k)
        raise Unproved("the first matching is %s" % pp(t)[:150])
    if t.op in PERM:
        return pairing(ck, config, where, t.a[0], fs, env, p)
    if t.op == "loopval":
        key = ("done", t)
        if key in env:
            return
        i = t.a[0]
        pairing(ck, config, where, t.a[2].a[i], fs, env, p)
        k = T("k", "it%d" % t.a[3].id)
        cs = uncases(subst_bv(t.a[3], k))
        facts = list(fs.st.facts) + [ge0(k)]
        if t.a[1].op != "kx":
            facts.append(lt(k, t.a[1]))
        step(ck, config, where, t, i, k, cs, facts, env, p)
        env[key] = True
        return
    if t.op == "lv":
        return
    if t.op == "out" or t.op == "call":
        raise Unproved("result of %s" % pp(t)[:100])
    raise Unproved("the matching becomes %s" % pp(t)[:150], False)


def two_by_two(x, y, k):
    """do the index pairs (x(k), y(k)) for k < n/2 use every index below 2(n/2) once? refuted on small n"""
    for h in (1, 2, 3, 5):
        got = []
        try:
            for v in range(h):
                e = SM.Ev({k: v})
                got += [e.val(x), e.val(y)]
        except (SM.Hazy, SM.Undef):
            return
        if sorted(got) != list(range(2 * h)):
            raise Unproved("the first edges of %d vertices use the positions %s" % (2 * h, got), True)


def chain(t):
    """base and the indices written to"""
    ix = []
    while t.op in ("upd", "swap"):
        ix += [t.a[1]] if t.op == "upd" else [t.a[1], t.a[2]]
        t = t.a[0]
    return t, ix


def step(ck, config, where, L, i, k, cs, facts, env, p):
    lv = lvof(L, i)
    exact = True
    todo = []
    for conds, vals in cs:
        f = FS(facts + list(conds))
        if f.dead:
            continue
        v = vals[i]
        if v is lv:
            todo.append((conds, f, lv, [], v))
            continue
        base, ix = chain(v)
        if base is not lv and not (base.op in PERM + ("loopval",)):
            raise Unproved("a step turns the matching into %s" % pp(v)[:150], False)
        if base is not lv:
            if ix:
                raise Unproved("a step turns the matching into %s" % pp(v)[:150])
            x = base
            while x.op in PERM:
                x = x.a[0]
            if x is not lv:
                pairing(ck, config, where, x, f, env, p)
            continue
        todo.append((conds, f, base, list(dict.fromkeys(ix)), v))
    if not any(ix for _, _, _, ix, _ in todo):
        return
    ixs = list(dict.fromkeys(x for _, _, _, ix, _ in todo for x in ix))
    if len(ixs) != 2:
        raise Unproved("a step changes the edges at %s" % [pp(x) for x in ixs])
    a, b = ixs
    f0 = FS(facts)
    if f0(ieq(a, b)) is not False:
        raise Unproved("the edges %s and %s may be the same" % (pp(a), pp(b)))
    n = length(lv)
    # positions exist; the edges of different rounds are different when run in parallel
    base_len = L.a[2].a[i]
    while base_len.op in PERM:
        base_len = base_len.a[0]
    N = length(base_len)
    for x in (a, b):
        inr = f0(lt(x, N))
        if inr is not True and L.a[1] is div(N, I(2)):
            d = sub(sub(N, I(1)), x)
            inr = x in (mulc(k, 2), add(mulc(k, 2), I(1))) or None
            if inr is None:
                wit = outside(x, k)
                if wit:
                    raise Unproved("the edge at position %s is changed, which is none of the pair" % pp(x), True)
        if inr is not True:
            raise Unproved("position %s may be out of range" % pp(x))
    A_, B_ = idx(lv, a), idx(lv, b)
    X = [idx(A_, I(0)), idx(A_, I(1)), idx(B_, I(0)), idx(B_, I(1))]
    G = fld(P0, 0)
    names = [T("sym", "v%d" % q) for q in range(4)]
    W = {}
    m = {}
    for q in range(4):
        for r in range(4):
            if q != r:
                w = T("sym", "w%d%d" % (min(q, r), max(q, r)))
                m[idx2(G, X[q], X[r])] = w
                W[(min(q, r), max(q, r))] = w
    sums = {}
    for n_, (e1, e2) in enumerate((((0, 1), (2, 3)), ((0, 2), (1, 3)), ((0, 3), (1, 2)))):
        sums[fadd(W[e1], W[e2])] = T("sym", "s%d" % n_)
    plan = []
    for conds, f, base, ix, v in todo:
        new = [idx(idx(v, a), I(0)), idx(idx(v, a), I(1)), idx(idx(v, b), I(0)), idx(idx(v, b), I(1))]
        if any(x not in X for x in new):
            bad = [x for x in new if x not in X]
            raise Unproved("an edge gets the vertex %s" % pp(bad[0])[:80], False)
        if len(set(new)) != 4:
            raise Unproved("the vertices %s lie on two edges (%s)" % ([pp(x)[-20:] for x in new], [pp(c)[:60] for c in conds]), True)
        o = [X.index(x) for x in new]
        pair = {frozenset(o[:2]), frozenset(o[2:])}
        which = 0 if frozenset((0, 1)) in pair else 1 if frozenset((0, 2)) in pair else 2
        cc = [subst(subst(c, m), sums) for c in conds]
        plan.append((cc, which, conds))
    # every condition is about the three sums: all orders of them decide
    rest = {x for cc, _, _ in plan for c in cc for x in leaves(c)}
    S3 = [T("sym", "s%d" % q) for q in range(3)]
    if rest <= set(S3):
        for vals in itertools.product((0.0, 1.0, 2.0), repeat=3):
            ev = SM.Ev(dict(zip(S3, vals)))
            hit = [w for cc, w, _ in plan if ev.conds(cc)]
            if not hit:
                raise Unproved("the step is not defined for pairings of cost %s" % (vals,), True)
            for w in hit:
                if vals[w] > min(vals):
                    raise Unproved("two edges are replaced by a pairing of cost %s although the three pairings cost %s" % (vals[w], vals), True)
        ck.ob("ok", "cheapest-pairing", where)
        return
    ws = sorted(W.values(), key=pp)
    und = "conditions on %s" % [pp(x)[:60] for x in rest][:4]
    for vals in itertools.product((0.0, 1.0, 3.0), repeat=6):
        e0 = dict(zip(ws, vals))
        get = lambda a_, b_: e0[W[(a_, b_)]]
        s = [get(0, 1) + get(2, 3), get(0, 2) + get(1, 3), get(0, 3) + get(1, 2)]
        e0.update(zip(S3, s))
        ev = SM.Ev(e0)
        try:
            hit = [w for cc, w, _ in plan if ev.conds(cc)]
        except (SM.Hazy, SM.Undef):
            continue
        for w in hit[:1]:
            if s[w] > min(s):
                raise Unproved("two edges are replaced by a pairing of cost %s although the three pairings cost %s" % (s[w], s), True)
        if not hit:
            raise Unproved("the step is not defined for pairings of cost %s" % (s,), True)
    ck.ob("undecided", "cheapest-pairing", where, und)


def outside(x, k):
    try:
        vals = [SM.Ev({k: v}).val(x) for v in range(4)]
    except (SM.Hazy, SM.Undef):
        return False
    return any(v not in (2 * q, 2 * q + 1) for q, v in enumerate(vals))


def leaves(c):
    out = set()

    def rec(t):
        if t.op in ("flt", "int", "true", "false", "inf"):
            if t.op == "flt" and len(t.a) == 2:
                rec(t.a[0]), rec(t.a[1])
            return
        if t.op in ("and", "or", "not", "flt_", "feq", "fadd", "fmul", "conj", "fmin2", "fmax2"):
            for x in t.a:
                rec(x)
            return
        out.add(t)
    rec(c)
    return out
