"""Rules for the exact solvers (sequential, threaded)."""
from lib import *
import small as SM
import rules_step as RS

SOLS = {"default": ["second_improved_solver", "third_improved_solver", "fourth_improved_solver", "fifth_improved_solver",
                    "sixth_improved_solver", "threaded_solver"],
        "mpi": ["static_mpi_solver", "dynamic_mpi_solver"]}

VEC = "std::vec::Vec<usize>"
SOL = "(f64, std::vec::Vec<usize>)"


def role(body):
    """parameter positions of a recursive search function by type, or None"""
    r = {}
    tys = [t for t, n in body["locals"][1:1 + body["arg_count"]]]
    for i, t in enumerate(tys):
        if t in ("&mut " + VEC, "&mut [usize]"):
            r.setdefault("prefix", []).append(i)
        elif t == "&mut " + SOL:
            r.setdefault("best", []).append(i)
        elif t == "f64":
            r.setdefault("f", []).append(i)
        elif t.startswith("&") and "Matrix" in t:
            r.setdefault("graph", []).append(i)
    if any(len(r.get(k, ())) != 1 for k in ("prefix", "best", "graph")) or not r.get("f"):
        return None
    return dict(prefix=r["prefix"][0], best=r["best"][0], graph=r["graph"][0], f=r["f"])


def wt(m, i, j):
    return idx2(m, i, j)


def weights(g, i, j):
    """the accepted terms for the weight of an edge of the (symmetric) matrix behind reference content g"""
    out = []
    for m in (g, fld(g, 0)):
        out += [wt(m, i, j), wt(m, j, i)]
    return out


def dims(g):
    return [dim(g), dim(fld(g, 0)), length(fld(g, 0))]


def rec_handler(prefix_pos):
    def h(eng, st, body, vals, deep, fid, span, argtys, retty):
        name = body["path"].replace("walky::", "", 1)
        callt = T("call", name, *deep)
        st = st.copy()
        muts = []
        for n, (v, ty) in enumerate(zip(vals, argtys)):
            if ty.startswith("&mut") and v.op in ("ref", "ptr"):
                if n == prefix_pos:
                    continue  # induction hypothesis: restored (checked at every return)
                post = T("out", callt, n)
                eng.store(st, v, post)
                muts.append((n, deep[n], post))
        st.ev = st.ev + (Ev("rec", name, deep, callt, st.facts, span, body=body["id"], vals=tuple(vals), muts=tuple(muts), fid=fid),)
        return [(st, UNIT if retty == "()" else callt)]
    return h


def find_recs(ck, config):
    """[(solver body, rec body)]; reports a lost anchor"""
    P = prog(config)
    out = []
    for s in SOLS[config]:
        bs = bodies(config, s)
        ck.require(bool(bs), "anchor", "solvers::exact::" + s, "the public solver is gone")
        for b in bs:
            hs = recursive_heads(P, b["id"])
            if not hs:
                ck.ob("undecided", "anchor-recursion", nice(b), "no recursive search function is reachable any more")
            for h in hs:
                if (h, s) not in [(x[1]["id"], x[0]) for x in out]:
                    out.append((s, P.bodies[h], b))
    return out


def prefix_ok(ck, p, r, body, P0):
    pr = T("vroot", T("sym", "p%d" % r["prefix"]))
    return p.st.mem.get(pr)


def search(ck, config, cats):
    """the recursive search functions.  cats: which groups of obligations to add"""
    done = set()
    n = 0
    for s, body, solver in find_recs(ck, config):
        if body["id"] in done:
            continue
        done.add(body["id"])
        n += one_search(ck, config, body, cats)
    return n


class StepCk:
    """A normal form which is not recognised is no violation by itself: the models of the step decide"""
    LOCAL = {"prefix-restored", "rec-graph", "search-roles", "search-analysis", "partial-cost", "cache-key"}

    def __init__(self, ck, step):
        self.ck, self.step = ck, step
        self.failed = False

    def require(self, cond, rule, where, detail, terms=(), key=None):
        if cond or rule in self.LOCAL:
            return self.ck.require(cond, rule, where, detail, terms, key)
        self.failed = True
        return self.ob("undecided", rule, where, detail, key)

    def ob(self, status, rule, where, detail="", key=None):
        if status == "undecided":
            o = self.step()
            if not o.bad:
                detail += " (%d states without a countermodel%s)" % (o.n, ", not evaluated: " + o.hazy if o.hazy else "")
        return self.ck.ob(status, rule, where, detail, key)


_steps = {}


def one_search(ck, config, body, cats):
    where = nice(body)
    r = role(body)
    if r is None:
        ck.ob("undecided", "search-roles", where, "parameters not recognised: %s" % [t for t, _ in body["locals"][1:1 + body["arg_count"]]])
        return 0
    e, paths, why = run("bnb" + config, lambda: engine(config, own={body["id"]}, handler=rec_handler(r["prefix"])), body,
                        pre=[le(length(T("sym", "*p%d" % r["prefix"])), d) for d in dims(T("sym", "*p%d" % r["graph"]))])
    ck.engines.append(e)
    if paths is None:
        ck.ob("undecided", "search-analysis", where, why)
        return 0
    name = lambda i: T("sym", "*p%d" % i)
    G, P0, R0 = name(r["graph"]), name(r["prefix"]), name(r["best"])
    proot = T("vroot", T("sym", "p%d" % r["prefix"]))
    rroot = T("vroot", T("sym", "p%d" % r["best"]))

    def need(cat, cond, rule, detail, terms=(), key=None):
        if cat in cats:
            ck.require(cond, rule, where, detail, terms, key)
        return cond
    # which float parameter is the cost: the one which is not handed on unchanged
    recs = [ev for p in paths for ev in walk(p.ev) if ev.kind == "rec" and ev.x["body"] == body["id"]]
    if not recs:
        ck.ob("undecided", "search-analysis", where, "no recursive call on any path")
        return 0
    cost = [i for i in r["f"] if any(ev.args[i] is not T("sym", "p%d" % i) for ev in recs)]
    if len(cost) != 1:
        ck.ob("undecided" if len(r["f"]) > 1 else "viol", "partial-cost", where,
              "no float parameter accumulates the cost of the prefix", key="partial-cost") if "cost" in cats else None
        return 0
    cost = cost[0]
    C = T("sym", "p%d" % cost)
    bounds = [T("sym", "p%d" % i) for i in r["f"] if i != cost]
    n = 0

    def step():
        k = (config, body["id"])
        if k not in _steps:
            _steps[k] = RS.check(body, paths, r, cost, G, P0, R0, bounds)
        return _steps[k]
    o = step()
    for c in sorted(cats):
        if c in o.bad:
            ck.ob("viol", "step-" + c, where, o.bad[c], "step-" + c)
        elif o.n:
            ck.ob("ok", "step-" + c, where)
    ck = StepCk(ck, step)
    guards = facts_of(paths)
    for p in paths:
        n += 1
        fs = FS(p.facts)
        lenP = length(P0)
        full = None
        for d in dims(G):
            full = fs(ieq(lenP, d)) if full is None else full
        # (a) the prefix is handed back as it was
        for x in walk(p.ev):
            if x.kind == "cache":
                cache_event(ck, need, where, x, P0, G, guards)
        now = p.st.mem.get(proot)
        need("cover", now is P0, "prefix-restored", "at a return the prefix is %s instead of what the caller passed" % pp(now)[:300], (now,))
        prec = [ev for ev in walk(p.ev) if ev.kind == "rec" and ev.x["body"] == body["id"]]
        best = p.st.mem.get(rroot)
        if not prec:
            # a leaf: no recursion on this path
            if full is not True:
                # the search ends without a complete tour
                fl = [f for f in p.facts if "flt_" in (f.op, f.a[0].op if f.op == "not" else "")]
                if [x for x in p.ev if x.kind == "loop"] and any(x.x["loop"].backs for x in loops(p.ev)):
                    pass
                if fl:
                    okk, det = prune_ok(fl, P0, None, C, G, bounds, R0, None)
                    if okk is None:
                        ck.ob("undecided", "leaf", where, "path ends early under %s" % det)
                    else:
                        need("cover", okk, "leaf-complete", "the search stops at an incomplete prefix: %s" % det, tuple(fl))
                else:
                    need("cover", full is not None and False, "leaf-complete", "a path without recursive call is taken when the prefix has not visited every vertex (facts %s)" % [pp(f)[:80] for f in p.facts], p.facts)
                continue
            lastP, firstP = idx(P0, sub(lenP, I(1))), idx(P0, I(0))
            totals = [fadd(C, w) for w in weights(G, lastP, firstP)]
            if best is R0:
                skip = [t for t in totals if fs(flt(t, fld(R0, 0))) is False] or [t for t in totals for b in bounds if fs(flt(t, b)) is False]
                fl = [f for f in p.facts if f.op in ("flt_", "not", "feq")]
                need("incumbent", bool(skip), "leaf-update", "a complete tour is dropped although it is not known to be no better than the best one (facts %s)" % [pp(f)[:200] for f in p.facts], p.facts, key="leaf-drop")
            else:
                c1, t1 = fld(best, 0), fld(best, 1)
                need("incumbent", t1 is P0, "leaf-update", "the stored tour is %s and not the prefix" % pp(t1)[:200], (t1,), key="leaf-tour")
                need("cost", c1 in totals, "leaf-cost", "the stored cost is %s and not (partial cost + closing edge)" % pp(c1)[:300], (c1,), key="leaf-cost")
                strict = any(fs(flt(t, fld(R0, 0))) for t in [c1])
                need("incumbent", strict, "leaf-strict", "the best tour is replaced without being strictly improved (facts %s)" % [pp(f)[:200] for f in p.facts], tuple(p.facts), key="leaf-strict")
            continue
        # a branching path
        need("cover", full is False, "leaf-reached", "recursion is not excluded for a complete prefix", p.facts)
        # the best tour changes only in the recursion (or not at all)
        lps = [l for l in loops(p.ev) if any(x.kind == "rec" for q in l.x["loop"].backs for x in walk(q.ev))]
        direct = [x for x in p.ev if x.kind == "rec"]
        if direct or len(lps) != 1:
            ck.ob("undecided", "branching", where, "branching is not one loop over candidates")
            continue
        one_branch(ck, need, where, body, r, p, lps[0], fs, C, cost, G, P0, R0, bounds, rroot)
    return 1


def cache_event(ck, need, where, x, P0, G, facts):
    m, k, val = x.args[:3]
    pv = [t for t in subterms(k) | subterms(val) if t.op == "push" and t.a[0] is P0]
    if len(pv) != 1:
        need("prune", False, "cache-insert", "a bound is stored under the key %s, which does not identify the prefix" % pp(k)[:200], (k, val))
        return
    o, d = lb_ok(T("cached", m, k, val), P0, pv[0].a[1], G)
    w = key_collision(k, P0, pv[0].a[1], facts) if not o else None
    if w:
        need("prune", False, "cache-key", "%s: the key is %s" % (w, pp(k)[:200]))
    elif o is None:
        ck.ob("undecided", "cache-insert", where, d)
    else:
        need("prune", o, "cache-insert", d)


def one_branch(ck, need, where, body, r, p, lev, fs0, C, cost, G, P0, R0, bounds, rroot):
    L = lev.x["loop"]
    K, N = L.K, L.N
    # every iteration visits one vertex; find it from the recursive calls
    vs = set()
    for q in L.backs:
        for x in q.ev:
            if x.kind == "rec":
                a = x.args[r["prefix"]]
                vs.add(a.a[1] if a.op == "push" and a.a[0] is P0 else None)
    if None in vs or len(vs) != 1:
        bad = [x.args[r["prefix"]] for q in L.backs for x in q.ev if x.kind == "rec"]
        need("cover", False, "branch-prefix", "a recursive call gets the prefix %s" % pp(bad[0])[:300], tuple(bad))
        return
    v = vs.pop()
    # coverage of the domain
    good = None
    full_range = False
    cand = None
    if N is None:
        ck.ob("undecided", "branch-domain", where, "the number of iterations of the branching loop is not known")
    else:
        for d in dims(G):
            if N is d and v is K:
                full_range = True
            if N is d and v is sub(sub(N, I(1)), K):
                full_range = True
        if not full_range:
            ok_, det = filtered_domain(N, K, v, G, P0)
            if ok_ is None:
                ck.ob("undecided", "branch-domain", where, det)
            else:
                need("cover", ok_, "branch-domain", det, (N, v))
        else:
            need("cover", True, "branch-domain", "")
    # no early exit
    for q in L.exits:
        ex = holds(q.facts, nt(lt(K, N))) if N is not None else True
        need("cover", ex is True, "branch-exit", "the branching loop can be left before every candidate was tried (facts %s)" % [pp(f)[:120] for f in q.facts], q.facts)
    bphi = None
    for k, ph in L.phi.items():
        if k[0] is rroot and not k[1]:
            bphi = ph
    for q in L.backs:
        qf = FS(tuple(p.facts) + tuple(q.facts))
        rec = [x for x in q.ev if x.kind == "rec"]
        deep_rec = [x for x in walk(q.ev) if x.kind == "rec"]
        if len(deep_rec) != len(rec):
            ck.ob("undecided", "branching", where, "recursion inside an inner loop")
            continue
        if len(rec) > 1:
            # redundant but harmless for the result; only each call is judged
            pass
        seen = qf(contains(P0, v))
        cl = collected(v, K, N) if N is not None else None
        if seen is None and cl is not None:
            x = cl[1][0][1][0] if cl[1] else None
            if x is not None and all(implies(conj(list(c)), nt(contains(P0, p_[0])))[0] for c, p_ in cl[1]):
                seen = False
        if not rec:
            if seen is True:
                need("cover", True, "branch-skip", "")
                continue
            fl = [f for f in q.facts if f.op == "flt_" or (f.op == "not" and f.a[0].op == "flt_")]
            # only facts about the search, not those of loops before
            okk, det = prune_ok(fl, P0, v, C, G, bounds, R0, bphi)
            if okk is None:
                ck.ob("undecided", "prune", where, det)
            elif okk:
                need("prune", True, "prune", "")
                need("cover", True, "branch-skip", "")
            elif fl:
                need("prune", False, "prune", det, tuple(fl))
            else:
                need("cover", False, "branch-skip", "an unvisited vertex is skipped (facts %s)" % [pp(f)[:120] for f in q.facts], tuple(q.facts))
            continue
        # the vertex must be unvisited (otherwise tours are no permutations)
        if full_range or cl is not None:
            need("cover", seen is False, "branch-unvisited", "a recursive call is made for a vertex which may be in the prefix already", ())
        for x in rec:
            # graph, bound and result handed on
            for i in (r["graph"],):
                need("cover", x.args[i] is G, "rec-graph", "the recursive call gets another graph: %s" % pp(x.args[i])[:200], (x.args[i],))
            for b in bounds:
                i = int(b.a[0][1:])
                if x.args[i] is not b:
                    ck.ob("undecided", "rec-bound", where, "the global bound is changed on the way down")
            c = x.args[cost]
            lenP = length(P0)
            empty = qf(ieq(lenP, I(0)))
            lastP = idx(P0, sub(lenP, I(1)))
            withe = [fadd(C, w) for w in weights(G, lastP, v)]
            if empty is True:
                need("cost", c is C, "rec-cost", "the partial cost of a one vertex prefix is %s" % pp(c)[:200], (c,), key="rec-cost-first")
            elif empty is False:
                need("cost", c in withe, "rec-cost", "the partial cost handed on is %s, not (cost + weight of the edge to the new vertex)" % pp(c)[:300], (c,), key="rec-cost-edge")
            else:
                need("cost", c in withe or c is C and False, "rec-cost", "the partial cost handed on is %s, not (cost + weight of the edge to the new vertex)" % pp(c)[:300], (c,), key="rec-cost-edge")
            ba = x.args[r["best"]]
            if bphi is not None and ba is not bphi and not (ba.op == "out"):
                ck.ob("undecided", "rec-best", where, "the best tour handed on is %s" % pp(ba)[:200])


def filtered_domain(N, K, v, G, P0):
    """branching over a collected list of the unvisited vertices"""
    d = dims(G)
    cl = collected(v, K, N)
    if cl is not None:
        M, cs, i = cl
        if M in d and len({p[0] for c, p in cs}) == 1:
            x = cs[0][1][0]
            if x is i or x is sub(sub(M, I(1)), i):
                r, w = implies(nt(contains(P0, x)), dnf_term(cs))
                if r is False:
                    return False, "the list of candidates leaves out unvisited vertices (%s)" % w
                if r is True:
                    return True, ""
        return None, "candidate list %s" % pp(v.a[0])[:200]
    for c in d:
        diff = cdiff(c, N)
        if diff is not None:
            return False, "the branching loop runs over %s candidates %s instead of all vertices" % (pp(N), pp(v)[:100])
    if K not in sub(v, K).free and not hazy(N, v):
        return False, "the branching loop tries only the vertices %s with K < %s" % (pp(v)[:100], pp(N)[:100])
    return None, "the branching loop takes %s for K < %s" % (pp(v)[:100], pp(N)[:100])


def collected(v, K, N):
    """v = collect(M, cases)[K] (also reversed) -> (M, cases, index symbol)"""
    if v.op != "idx":
        return None
    s = v.a[0]
    i = v.a[1]
    while s.op == "rev":
        s = s.a[0]
    if s.op != "collect" or length(v.a[0]) is not N or i not in (K, sub(sub(N, I(1)), K)):
        return None
    x = T("k", "coll_i")
    return s.a[0], uncases(subst_bv(s.a[1], x)), x


def key_ok(k, Pv):
    """does the cache key identify the whole new prefix (as a sequence or as a set)?"""
    def whole(x):
        if x is Pv:
            return True
        if x.op in ("sorted", "permuted", "setof", "hset", "rev") and x.a and isinstance(x.a[0], Term):
            return whole(x.a[0])
        return False
    if whole(k):
        return True
    if k.op in ("hfin", "cast") and isinstance(k.a[0], Term):
        return key_ok(k.a[0], Pv)
    if k.op == "hash":
        if whole(k.a[1]):
            return True
        r = key_ok(k.a[0], Pv) if k.a[0].op == "hash" else False
        return r
    if k.op in ("len", "lin", "idx", "sub", "int"):
        return False
    return None if hazy(k) or Pv in subterms(k) else False


def facts_of(paths):
    out = []
    for p in paths:
        out += p.facts
        for x in walk(p.ev):
            L = x.x.get("loop")
            if L is not None:
                out += [f for q in list(L.backs) + list(L.exits) for f in q.facts]
    return out


def key_collision(k, P0, v, facts):
    """two prefixes of different vertices which share a key"""
    mine = subterms(k)
    guarded = any(3 <= abs(t.a[0]) for f in facts for t in subterms(f) if t.op in ("int", "lin") and t not in mine)
    lens = sorted({1, 2, 3} | {c + d for c in RS.consts_in([k]) if not guarded for d in (-1, 0, 1, 2) if 0 < c + d <= 40})
    for l in lens:
        n = l + 3
        for base in (list(range(l)), [(x * 7 + 3) % n for x in range(n)][:l] if n % 7 else list(range(l))[::-1]):
            ps = [base] + [base[:x] + [n - 1] + base[x + 1:] for x in range(l) if n - 1 not in base]
            seen = {}
            for p in ps:
                try:
                    key = RS.StepEv({P0: tuple(p[:-1]), v: p[-1]}, {}).val(k)
                    old = seen.setdefault(key, p)
                except (SM.Hazy, SM.Undef, TypeError):
                    return None
                if set(old) != set(p):
                    return "the prefixes %s and %s share a cached bound" % (old, p)
    return None


def lb_ok(t, P0, v, G):
    """admissibility of one lower bound term -> (True|False|None, detail)"""
    Pv = push(P0, v) if v is not None else P0
    if t.op == "cached":
        # value of a cache entry: the key must be derived from the whole new prefix, and nothing else may be stored under it
        m, k, val = t.a
        o = key_ok(k, Pv)
        if not o:
            return o, "a cached bound is looked up with the key %s" % pp(k)[:200]
        return lb_ok(val, P0, v, G)
    if t.op == "mapget":
        o = key_ok(t.a[1], Pv)
        if not o:
            return o, "a cached bound is looked up with the key %s" % pp(t.a[1])[:200]
        return True, ""  # what is stored is judged at the insertions
    if t.op == "fmul" and t.a[0].op == "flt":
        c, w = float(t.a[0].a[0]), t.a[1]
    else:
        c, w = 1.0, t
    if w.op == "call" and w.a[0] == "directed_edge_weight" and w.a[1].op == "call" and w.a[1].a[0] == "MST":
        g, ex = w.a[1].a[1], w.a[1].a[2]
        if g is not G:
            return (None if hazy(g) else False), "the spanning tree is computed for another graph"
        if c > 0.5:
            return False, "the spanning tree is counted with the factor %g: every edge is stored in both directions, so it is %g times the MST weight" % (c, 2 * c)
        if ex in (Pv, P0):
            return True, ""
        return (None if hazy(ex) else False), "the spanning tree excludes %s" % pp(ex)[:200]
    if w.op == "fsum":
        return nn_ok(c, w, Pv, v, G)
    return None, "bound %s" % pp(t)[:200]


def nn_ok(c, w, Pv, v, G):
    """sum over the unvisited vertices of their cheapest possible incoming edge"""
    if c > 1.0:
        return False, "the nearest neighbour sum is counted %g times" % c
    N, l = w.a
    if N not in dims(G):
        return None, "sum over %s" % pp(N)[:100]
    i = T("k", "nn_i")
    for cond, (val,) in uncases(subst_bv(l, i)):
        r, wit = implies(conj([x for x in cond if not _feqinf(x)]), nt(contains(Pv, i)))
        if r is None:
            return None, wit
        if not r:
            return False, "the nearest neighbour sum also counts visited vertices (%s)" % wit
        a = val
        if a.op == "argopt" and a.a[0] != "min":
            return False, "the bound sums up the most expensive edges"
        if a.op != "argopt":
            return None, "summand %s" % pp(val)[:200]
        if a.a[1] not in dims(G):
            return None, "minimum over %s" % pp(a.a[1])[:100]
        j = T("k", "nn_j")
        cs = uncases(subst_bv(a.a[4], j))
        for cc, (key, item) in cs:
            if key not in weights(G, i, j) or item not in weights(G, i, j):
                return None, "nearest neighbour key %s" % pp(key)[:200]
        required = conj([nt(ieq(i, j)), disj([nt(contains(Pv, j)), ieq(j, v)])]) if v is not None else nt(ieq(i, j))
        r, wit = implies(required, dnf_term(cs))
        if r is None:
            return None, wit
        if not r:
            return False, "the nearest neighbour minimum leaves out a vertex the tour may come from (%s), so it is no lower bound" % wit
    return True, ""


def _feqinf(x):
    if x.op == "not":
        x = x.a[0]
    return x.op in ("feq", "flt_") and (INF in x.a)


def prune_ok(fl, P0, v, C, G, bounds, R0, bphi):
    """is one of the float comparisons a justified prune? -> (True|False|None, detail)"""
    bests = [fld(R0, 0)] + ([fld(bphi, 0)] if bphi is not None else []) + list(bounds)

    def isbest(t):
        if t in bests:
            return True
        if t.op == "fmin2":
            return all(isbest(x) for x in t.a)
        if t.op == "fld" and t.a[1] == 0 and t.a[0].op == "out":
            return True
        return False
    why = []
    und = False
    for f in fl:
        neg_ = f.op == "not"
        a, b = (f.a[0].a if neg_ else f.a)
        # f:  a < b   or   !(a < b)
        if not neg_ and isbest(a):
            S = b
        elif neg_ and isbest(b):
            S = a
        elif not neg_ and isbest(b):
            if _mentions(a, C):
                why.append("a branch is cut although its cost is below the best known one (%s)" % pp(f)[:200])
            continue
        elif neg_ and isbest(a):
            if _mentions(b, C):
                why.append("a branch is cut although its cost does not exceed the best known one (%s)" % pp(f)[:200])
            continue
        else:
            if _mentions(a, C) or _mentions(b, C):
                und = True
                why.append("comparison %s" % pp(f)[:200])
            continue
        if not _mentions(S, C) and isbest(S):
            continue
        scale = 1.0
        while S.op == "fmul" and S.a[0].op == "flt":
            scale *= float(S.a[0].a[0])
            S = S.a[1]
        if scale > 1.0 and S.op == "fadd":
            why.append("the cost compared with the best one is scaled by %g" % scale)
            continue
        if scale > 1.0:
            S = fmul(F(scale), S)
        parts = sum_parts(S)
        rest = list(parts)
        if C in rest:
            rest.remove(C)
        if v is not None:
            lastP = idx(P0, sub(length(P0), I(1)))
            for w in weights(G, lastP, v):
                if w in rest:
                    rest.remove(w)
                    break
        if len(rest) == 0:
            return True, ""
        if len(rest) > 1:
            if any(x.op in ("fneg",) for x in rest) or hazy(*rest):
                und = True
                why.append("bound %s" % [pp(x)[:100] for x in rest])
            else:
                why.append("the bound adds %s to the partial cost" % [pp(x)[:150] for x in rest])
            continue
        o, d = lb_ok(rest[0], P0, v, G)
        if o:
            return True, ""
        if o is None and not (rest[0].op == "idx2"):
            und = True
            why.append(d)
        else:
            why.append("inadmissible bound: %s" % (d or pp(rest[0])[:200]))
    if und:
        return None, "; ".join(why)
    return False, "; ".join(why) or "nothing justifies leaving out this vertex"


def _mentions(t, C):
    return C in subterms(t)


# ---------------------------------------------------------------- roots
def roots(ck, config, cats):
    """the calls which start a search"""
    P = prog(config)
    n = 0
    for s, rec, solver in find_recs(ck, config):
        r = role(rec)
        if r is None:
            continue
        if s in ("threaded_solver", "static_mpi_solver", "dynamic_mpi_solver"):
            continue
        where = nice(solver)

        def extra(b, rid=rec["id"]):
            return "SEARCH" if b["id"] == rid else None
        e, paths, why = run("root" + rec["id"], lambda: engine(config, own={solver["id"]}, extra=extra), solver)
        ck.engines.append(e)
        if paths is None:
            ck.ob("undecided", "root-analysis", where, why)
            continue
        n += 1
        G = T("sym", "*p0")
        for p in paths:
            calls = [x for x in walk(p.ev) if x.kind in ("call", "rec") and x.x.get("body") == rec["id"]]
            if len(calls) != 1 or calls[0] not in p.ev:
                ck.ob("undecided", "root-call", where, "%d search calls on a path" % len(calls))
                continue
            c = calls[0]
            if "cover" in cats:
                ck.require(c.args[r["prefix"]] is SEQ0, "root-prefix", where, "the search starts with the prefix %s" % pp(c.args[r["prefix"]]), (c.args[r["prefix"]],))
                ck.require(c.args[r["graph"]] is G, "root-graph", where, "the search gets %s" % pp(c.args[r["graph"]])[:100], (c.args[r["graph"]],))
            b = c.args[r["best"]]
            if "incumbent" in cats:
                ck.require(fld(b, 0) is INF, "root-best", where, "the search starts with the best cost %s" % pp(fld(b, 0))[:100], (fld(b, 0),))
                out = T("out", c.ret, r["best"])
                ck.require(p.ret is out or p.ret is tup(fld(out, 0), fld(out, 1)), "root-result", where, "the solver returns %s and not the result of the search" % pp(p.ret)[:200], (p.ret,))
            if "cost" in cats:
                for i in r["f"][:1]:
                    ck.require(c.args[i] is F0, "root-cost", where, "the empty prefix starts with the cost %s" % pp(c.args[i]), (c.args[i],))
    return n
