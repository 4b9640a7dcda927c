"""Rules for the parallel exact solvers: every prefix is searched, the results are merged without loss."""
from lib import *
from rules_exact import role, dims, SOL
import small as SM
import math

SEQ = {"second_improved_solver", "third_improved_solver", "fourth_improved_solver", "fifth_improved_solver", "sixth_improved_solver",
       "first_improved_solver", "naive_solver"}
CATS = {"cover", "incumbent", "cost"}
# which of the categories a rule belongs to
CAT = {"par-search-cost": "cost"}
INC = {"par-merge", "par-result", "par-search-best", "par-search-bound", "par-join", "par-lock", "par-messages", "par-roles", "par-collectives"}


class Ctx:
    """records obligations of the categories asked for"""

    def __init__(self, ck, cats, where):
        self.ck, self.cats, self.where = ck, cats, where
        self.und = False

    def cat(self, rule):
        return CAT.get(rule) or ("incumbent" if rule in INC else "cover")

    def ob(self, status, rule, detail=""):
        if status == "undecided":
            self.und = True
        if self.cat(rule) in self.cats:
            self.ck.ob(status, rule, self.where, detail[:500])
        return status == "ok"

    def require(self, cond, rule, detail, *terms):
        if cond:
            return self.ob("ok", rule)
        return self.ob("undecided" if any(hazy(t) for t in terms) else "viol", rule, detail)


def search_engine(config, solver):
    P = prog(config)
    heads = set(recursive_heads(P, solver["id"]))
    e = engine(config, own={solver["id"]}, extra=lambda b: "SEARCH" if b["id"] in heads else None)
    e.heads = heads
    return e


def analyse(ck, config, solver):
    e, paths, why = run("par" + config, lambda: search_engine(config, solver), solver)
    ck.engines.append(e)
    if paths is None:
        ck.ob("undecided", "par-analysis", nice(solver), why)
        return None, None
    return e, [p for p in paths if not FS(p.facts).dead]


def is_call(t, name):
    return t.op == "call" and t.a[0] == name


def unfin(t, e):
    m = {}
    for ph, c in getattr(e.x["exit"], "final", {}).items():
        if isinstance(c, Term) and c.op not in ("int", "sym", "seq0", "agg", "true", "false", "lin", "len", "flt", "inf") and c is not ph:
            m.setdefault(c, ph)
    return subst(t, m) if m else t


def leaf_vals(L, q):
    return {ph: getpath(q.st.mem[lf[0]], lf[1]) for lf, ph in L.phi.items()}


# ------------------------------------------------------------------ uniqueness of the vertices of a prefix
def unique_models(n):
    """all patterns of equality of n vertices"""
    out = []
    for v in itertools.product(range(n), repeat=n):
        # restricted growth strings
        if all(v[i] <= max(v[:i], default=-1) + 1 for i in range(n)):
            out.append(v)
    return out


def constants(facts):
    out = set()
    for f in facts:
        for t in subterms(f):
            if t.op == "int":
                out.add(abs(t.a[0]))
            elif t.op == "lin":
                out.add(abs(t.a[0]))
    return {int(c) for c in out if c < 1 << 20}


def models(G, n, facts, entry=()):
    """prefixes of n vertices of small graphs, and of graphs whose size is near a constant in the conditions: (environment, prefix)"""
    D = dims(G)
    cs = {c + k for c in constants(facts) for k in (-2, -1, 0, 1, 2)}
    ds = {n, n + 1, n + 2} | {c for c in cs if c > n + 2 and any(x in D for f in facts for x in subterms(f))}
    ds |= {max(c for c in cs) + 2} if cs and max(cs) > n else set()
    out = []
    for d in sorted(ds):
        env = {x: d for x in D}
        try:
            if not SM.Ev(dict(env)).conds([f for f in entry if any(x in D for x in subterms(f)) and not any(x.op == "mpi" for x in subterms(f))]):
                continue
        except (SM.Hazy, SM.Undef):
            pass
        pool = range(d) if d <= n + 2 and d <= 6 else sorted(({0, 1, d - 2, d - 1} | {c for c in cs if c > 1}) & set(range(d)))[:7]
        out += [(env, v) for v in itertools.product(pool, repeat=n)]
    return out


# ------------------------------------------------------------------ min-merge
def better(cand, old, fs):
    return fs(flt(cand, old))


def nothing(r, fs):
    """does the path know that the search found no tour?"""
    return fs(flt(fld(r, 0), INF)) is False or fs(feq(fld(r, 0), INF)) is True or fs(eq0(length(fld(r, 1)))) is True


def merged(cx, new, old, cand, facts, what, r=None):
    """new (pair) is the cheaper of old and cand?"""
    fs = FS(facts)
    took = new[0] is cand[0] and new[1] is cand[1]
    kept = new[0] is old[0] and new[1] is old[1]
    b = better(cand[0], old[0], fs)
    if took and b is True or kept and b is False or kept and r is not None and nothing(r, fs):
        return cx.ob("ok", "par-merge")
    if hazy(*new) or hazy(*old):
        bad = merge_model(new, old, cand, facts, r)
        if bad:
            return cx.ob("viol", "par-merge", "%s: %s" % (what, bad))
        return cx.ob("undecided", "par-merge", "%s: %s" % (what, pp(tup(*new))[:200]))
    if took and b is False:
        return cx.ob("viol", "par-merge", "%s: a worse result replaces the best one" % what)
    if kept and b is True:
        return cx.ob("viol", "par-merge", "%s: a better result is not kept" % what)
    bad = merge_model(new, old, cand, facts, r)
    if bad:
        return cx.ob("viol", "par-merge", "%s: %s" % (what, bad))
    cmp = any(x.op in ("flt_", "feq") and (old[0] in x.a or cand[0] in x.a) for f in fs.st.facts for x in subterms(f))
    if took and not cmp:
        return cx.ob("viol", "par-merge", "%s: replaced without comparing the costs" % what)
    if took and any(x.op in ("flt_", "feq") and cand[0] in x.a for f in fs.st.facts for x in subterms(f)) and \
            not any(x.op in ("flt_", "feq") and old[0] in x.a for f in fs.st.facts for x in subterms(f)):
        return cx.ob("viol", "par-merge", "%s: replaced after a comparison with something else: %s" % (what, "; ".join(pp(f) for f in fs.st.facts if cand[0] in set(subterms(f)))[:300]))
    if kept and not cmp:
        return cx.ob("viol", "par-merge", "%s: the result of a search is dropped without comparing it" % what)
    if not took and not kept and all(x in (cand[0], old[0]) for x in new[:1]) and all(x in (cand[1], old[1]) for x in new[1:]):
        return cx.ob("viol", "par-merge", "%s: the cost and the tour come from different results" % what)
    return cx.ob("undecided", "par-merge", "%s: %s under %s" % (what, pp(tup(*new))[:150], "; ".join(pp(f) for f in fs.st.facts[-2:])[:150]))


def merge_model(new, old, cand, facts, r=None):
    """small numbers for which the cheaper of old and cand is not what is kept (a text), or None.
    The second components are the tours (or the ranks of those who know them)."""
    atoms = {old[0], old[1], cand[0], cand[1]} | ({r} if r is not None else set())
    if len(atoms) < 4 or any(len(x.a) == 0 for x in (cand[0],)) or any(a.op in ("int", "flt", "inf") for a in (old[0], cand[0])):
        return None
    about = [f for f in facts if any(x in atoms for x in subterms(f))]
    if new[0] in (old[0], cand[0]) and new[1] in (old[1], cand[1]) and (new[0] is old[0]) == (new[1] is old[1]) and new[0] is not new[1]:
        return None       # one of both: the conditions are looked at
    rank = cand[1].op == "fld" and cand[1].a[0].op == "recv"
    for c0, o0 in itertools.product((0.5, 1.0, 2.5, 4.0, math.inf), repeat=2):
        for c1, o1 in ((3, 1), (1, 3), (2, 5)):
            if not rank:
                c1, o1 = (1,) * c1, (2,) * o1
                c1 = () if c0 == math.inf else c1
            env = {old[0]: o0, old[1]: o1, cand[0]: c0, cand[1]: c1}
            if r is not None:
                env[r] = SM.S(c0, c1)
            try:
                if not SM.Ev(dict(env)).conds(about):
                    continue
                e = SM.Ev(dict(env))
                got = e.val(new[0]), e.val(new[1])
            except (SM.Hazy, SM.Undef, TypeError):
                continue
            # both were possible only with equal costs
            want = [(c0, c1)] if c0 < o0 else [(o0, o1)] if o0 < c0 else [(c0, c1), (o0, o1)]
            if c0 == math.inf and o0 == math.inf:
                continue
            if got not in want:
                return "with the best cost %s of %s and the result %s of %s, (%s of %s) is kept" % (o0, o1 if rank else "an old tour", c0, c1 if rank else "a new one", got[0], got[1] if rank else "the %s tour" % ("new" if got[1] == c1 else "old"))
    return None


def nothing_pair(pr, fs):
    return fs(flt(pr[0], INF)) is False or fs(feq(pr[0], INF)) is True or fs(eq0(length(pr[1]))) is True


def pair(t):
    return fld(t, 0), fld(t, 1)


# ------------------------------------------------------------------ one search call
def search_call(cx, e, G, c, cur, seeds):
    """the arguments of a search; seeds: accepted initial best pairs (terms of their cost) -> out term of the best pair"""
    P = e.prog
    r = role(P.bodies[c.x["body"]])
    if r is None:
        cx.ob("undecided", "par-search-args", "parameters of %s not recognised" % c.x["body"])
        return None
    cx.require(c.args[r["graph"]] is G, "par-search-graph", "the search gets another graph: %s" % pp(c.args[r["graph"]])[:100], c.args[r["graph"]])
    a = c.args[r["prefix"]]
    cost = c.args[r["f"][0]]
    want = T("call", "evaluate_path", G, cur)
    if cost is want:
        cx.ob("ok", "par-search-cost")
    elif cost.op == "flt" or cost is F0 or is_call(cost, "evaluate_circle") or is_call(cost, "evaluate_path"):
        cx.ob("viol", "par-search-cost", "the search of the prefix %s starts with the cost %s" % (pp(cur), pp(cost)))
    else:
        cx.ob("undecided", "par-search-cost", pp(cost)[:200])
    b = c.args[r["best"]]
    if fld(b, 0) is INF or b in seeds or fld(b, 0) in [fld(s, 0) for s in seeds]:
        cx.ob("ok", "par-search-best")
    elif fld(b, 0).op == "flt":
        cx.ob("viol", "par-search-best", "the search starts with the best cost %s" % pp(fld(b, 0)))
    else:
        cx.ob("undecided", "par-search-best", pp(b)[:200])
    return T("out", c.ret, r["best"]), r


# ------------------------------------------------------------------ a loop over a piece of the prefixes
def kept(t, full):
    """does the term hold (some of) the vertices of one of the prefixes?"""
    while t.op == "sub" and (const_int(t.a[2]) or 0) > (const_int(t.a[1]) if const_int(t.a[1]) is not None else 1 << 30):
        t = t.a[0]
    return t in full


def prefix_loop(cx, e, G, ev, plen, chunk, q, shared=None):
    """checks the loop event ev -> list of (path, search event, result term) or None"""
    L = ev.x["loop"]
    D = dims(G)
    lo, hi = fld(chunk, 0), fld(chunk, 1)
    phis = frozenset(L.phi.values())

    def und(s, rule="par-prefix-loop"):
        cx.ob("undecided", rule, s)
        return None
    C = X = None
    inits = {ph: L.init[lf] for lf, ph in L.phi.items()}
    vals = [leaf_vals(L, b) for b in L.backs]
    gn = [x.ret for b in L.backs + L.exits for x in walk(b.ev) if x.kind == "call" and x.name == "get_next_value"]
    if not gn:
        return und("no successor of a prefix is computed in the loop")
    for ph in L.phi.values():
        if vals and all(v[ph].op == "out" and is_call(v[ph].a[0], "get_next_value") and v[ph].a[0].a[1] is ph for v in vals):
            C = ph
    for ph in L.phi.values():
        if vals and all(is_call(v[ph], "get_next_value") for v in vals) and ph is not C:
            X = ph
    m = {}
    if C is not None:
        cur = C
        if X is not None:
            m[fld(dc(X, 1), 0)] = C
    elif X is not None:
        cur = fld(dc(X, 1), 0)
    else:
        moved = [ph for ph in L.phi.values() if any(v[ph].op == "out" and is_call(v[ph].a[0], "get_next_value") and v[ph].a[0].a[1] is ph for v in vals)]
        if len(moved) == 1 and inits[moved[0]] is lo and any(v[moved[0]] is moved[0] for v in vals):
            return cx.ob("viol", "par-advance", "a round of the loop does not go on to the next prefix")
        return und("no cursor over the prefixes found")
    g = T("call", "get_next_value", cur, D[0])
    gs = {T("call", "get_next_value", cur, d) for d in D}
    basis = {x.a[2] for x in gn}
    if not basis <= set(D):
        bad = [b for b in basis if b not in D]
        return cx.ob("viol", "par-basis", "the prefixes are numbers to the base %s, not to the number of vertices" % pp(bad[0])) and None if not any(hazy(b) for b in bad) else und("base %s" % pp(bad[0]))
    cx.ob("ok", "par-basis")
    norm = lambda t: subst(t, m) if m else t
    mg = {x: g for x in gs if x is not g}
    # --- start
    ini = inits[C] if C is not None else None
    if X is not None:
        xi = inits[X]
        if xi.op == "agg" and len(xi.a) == 3 and xi.a[1] == 1 and (ini is None or xi.a[2] is ini):
            ini = xi.a[2]
        elif is_call(xi, "get_next_value") and xi.a[1] is lo:
            return cx.ob("viol", "par-first-prefix", "the loop starts with the successor of the first prefix of the piece") and None
        else:
            return und("start %s" % pp(xi)[:100])
    pre = [x for x in q.ev[:q.ev.index(ev)] if x.kind == "call" and x.name == "SEARCH"]
    if pre:
        return und("a prefix is searched before the loop")
    if not cx.require(ini is lo, "par-start", "the loop starts with %s, not with the first prefix of the piece" % pp(ini)[:150], ini):
        return None
    ends = {eqv(hi, cur), eqv(cur, hi)}
    gnone = {nt(isvar(x, 1)) for x in gs} | {isvar(x, 0) for x in gs}
    gsome = {isvar(x, 1) for x in gs}
    skip = lambda f: f in ends or nt(f) in ends or f in gnone or f in gsome or X is not None and f in (isvar(X, 1), nt(isvar(X, 0)))

    def known(fs_, v, env={}):
        """the truth of the facts for the prefix v: True, False or None"""
        try:
            return SM.Ev({cur: v, T("len", cur): len(v), **env}).conds(fs_)
        except (SM.Hazy, SM.Undef):
            return None

    entry = set(L.entry.facts)
    cls = []   # (path, facts, search event)
    for p in L.backs + L.exits:
        facts = [norm(f) for f in p.facts]
        fs = FS(facts)
        if fs.dead:
            continue
        stop = any(f in ends for f in facts) or X is not None and (nt(isvar(X, 1)) in facts or isvar(X, 0) in facts)
        se = [x for x in walk(p.ev) if x.kind == "call" and x.name == "SEARCH"]
        if any(x not in p.ev for x in se):
            return und("a search in an inner loop")
        back = p in L.backs
        if stop:
            if back:
                return und("a round after the end of the piece")
            if se:
                return cx.ob("viol", "par-end", "the prefix behind the end of the piece is searched") and None
            continue
        if len(se) > 1:
            return und("several searches in one round")
        s = se[0] if se else None
        if s is not None:
            r = role(e.prog.bodies[s.x["body"]])
            if r is None:
                return und("parameters of the search")
            a = norm(s.args[r["prefix"]])
            if a is not cur:
                if a in [fld(dc(x, 1), 0) for x in gs] + [T("out", x, 0) for x in gs]:
                    if not any(True for f in facts if f in ends):
                        return cx.ob("viol", "par-first-prefix", "the first prefix of the piece is never searched: each round searches the successor of its prefix") and None
                if back and a.op == "cat" and a.a[1] is cur and a.a[0] in phis and inits[a.a[0]] is SEQ0 and kept(norm(leaf_vals(L, p)[a.a[0]]), (a, norm(T("out", s.ret, r["prefix"])))):
                    cx.ob("viol", "par-search-prefix", "the prefixes of earlier rounds stay in the prefix that is searched")
                    return None
                return und("the search gets the prefix %s" % pp(a)[:150])
        if back:
            v = leaf_vals(L, p)
            ok = True
            if C is not None and subst(norm(v[C]), mg) is not T("out", g, 0):
                ok = False
            if X is not None and subst(norm(v[X]), mg) is not g:
                ok = False
            if not ok:
                return und("next prefix %s" % pp(tup(*[norm(v[z]) for z in (C, X) if z is not None]))[:200])
            if X is None and not any(f in gsome for f in facts):
                return cx.ob("viol", "par-end", "the loop goes on after the largest prefix") and None if not any("get_next_value" in pp(f) for f in facts) else und("exhaustion")
        else:
            if not any(f in gnone for f in facts):
                rest = [f for f in facts if not skip(f)]
                for env, v in models(G, const_int(plen) or 3, rest, entry):
                    if known(rest, v, env) is True:
                        cx.ob("viol", "par-end", "the loop is left before the end of the piece, after a prefix like %s" % list(v))
                        return None
                return und("exit when %s" % "; ".join(pp(f) for f in facts)[:200])
        cls.append((p, facts, s))
    cx.ob("ok", "par-advance")
    # an exit at the end of the piece exists
    if not any(any(norm(f) in ends for f in p.facts) for p in L.exits):
        return cx.ob("viol", "par-end", "the loop does not stop at the end of its piece") and None if not hazy(*[f for p in L.exits for f in p.facts]) else und("no end of the piece")
    cx.ob("ok", "par-end")
    # --- each valid prefix is searched, no other one
    if const_int(plen) is None or not 1 <= const_int(plen) <= 5:
        return und("prefixes of length %s" % pp(plen))
    n = const_int(plen)
    befores = []
    for p, facts, s in cls:
        before = [norm(f) for f in s.facts if f not in entry] if s is not None else facts
        befores.append([f for f in before if not skip(f) and f not in entry])
    for env, v in models(G, n, {f for b in befores for f in b if cur in set(subterms(f)) or any(x in D for x in subterms(f))}, entry):
        hit = 0
        uniq = len(set(v)) == n
        for (p, facts, s), before in zip(cls, befores):
            k = known(before, v, env)
            if k is False:
                continue
            hit += 1
            if uniq and s is None:
                other = [f for f in before if known([f], v, env) is not True]
                if k is True or pruned(other, G, cur) is False:
                    cx.ob("viol", "par-every-prefix", "a prefix like %s is not searched%s" % (list(v), " when " + "; ".join(pp(f) for f in other)[:200] if other else ""))
                    return None
                if pruned(other, G, cur) is not True:
                    return und("a prefix is skipped when %s" % "; ".join(pp(f) for f in other)[:200])
            if not uniq and s is not None:
                if k is True:
                    cx.ob("viol", "par-valid-prefix", "a prefix like %s, which contains a vertex twice, is searched" % list(v))
                    return None
                return und("condition for searching a prefix: %s" % "; ".join(pp(f) for f in before if known([f], v, env) is None)[:200])
        if uniq and not hit:
            return und("no path for prefix %s" % list(v))
    cx.ob("ok", "par-every-prefix")
    cx.ob("ok", "par-valid-prefix")
    return [(p, facts, s, norm, cur) for p, facts, s in cls], norm, cur


def pruned(facts, G, cur):
    """do the conditions say that the prefix costs at least as much as a best tour?  True, False (no: it may cost less) or None"""
    c = T("call", "evaluate_path", G, cur)
    best = {x for f in facts for x in subterms(f) if x.op == "fld" and x.a[1] == 0 and x.a[0].op in ("locked", "phi") or x.op == "phi"}
    best = {x for x in best if x not in set(subterms(c)) and not any(x is not y and x in set(subterms(y)) for y in best)}
    if not facts or len(best) != 1 or not any(c in set(subterms(f)) for f in facts):
        return None
    y = best.pop()
    ok = True
    for cv, bv in ((1.0, 1.25), (1.0, 1.75), (1.0, 3.0), (3.0, 3.5), (2.0, 2.0), (2.0, 1.0)):
        try:
            t = SM.Ev({c: cv, y: bv}).conds(facts)
        except (SM.Hazy, SM.Undef):
            return None
        if t and cv < bv:
            ok = False
    return ok


def chunk_args(cx, G, call, W, K, facts, what, outer=None):
    """the piece call belongs to worker K of W"""
    _, plen, basis, n, k = call.a
    ok = True
    if basis not in dims(G):
        ok = cx.require(False, "par-piece", "the prefixes are split to the base %s" % pp(basis), basis)
    if n is not W:
        ok = cx.require(False, "par-piece", "the prefixes are split into %s pieces for %s workers" % (pp(n), pp(W)), n, W)
    if k is not K:
        ok = cx.require(False, "par-piece", "worker %s gets piece %s" % (pp(K), pp(k)), k, K)
    if ok:
        cx.ob("ok", "par-piece")
        # the contract of the split: more prefixes than workers, and prefixes that exist
        fs = FS(facts)
        d = dims(G)[0]
        alld = {x: T("sym", "dim!") for x in dims(G)}
        wn = subst(W, alld)
        f2 = [subst(f, alld) for f in facts]
        sym = T("sym", "dim!")
        lp = const_int(plen)
        if lp is not None:
            f2s = FS(f2)
            if f2s(ge0(sub(sub(sym, W), I(1)))) is True and f2s(ge0(sub(sym, plen))) is True and lp >= 1:
                return cx.ob("ok", "par-small")
            if f2s(ge0(sub(sym, plen))) is True and what == "rank":
                return cx.ob("ok", "par-small")   # the number of processes is chosen by the user: see DESIGN.md
            # a counterexample of a small instance
            for dv in range(1, 9):
                for wv in (1, 2, 3, 4, 8, 16, 32, 64, 128, 256):
                    if what == "rank" and dv >= lp:
                        continue
                    if dv >= lp and dv ** lp > wv:
                        continue
                    env = {sym: dv, W: wv}
                    e_ = SM.Ev(env)
                    try:
                        if e_.conds([subst(f, alld) for f in (facts if outer is None else outer)]):
                            return cx.ob("viol", "par-small", "with %d vertices and %d workers the prefixes of length %d are split: %s" % (
                                dv, wv, lp, "there are none without repetition" if dv < lp else "there are fewer than workers"))
                    except (SM.Hazy, SM.Undef):
                        pass
        cx.ob("undecided", "par-small", "; ".join(pp(f) for f in facts)[:200])
    return ok


# ------------------------------------------------------------------ threads
def threaded(ck, config="default", cats=CATS):
    bs = bodies(config, "threaded_solver")
    ck.require(bool(bs), "anchor", "solvers::exact::threaded_solver", "the public solver is gone")
    for b in bs:
        thread1(ck, config, b, cats)


def sequential(cx, p, G):
    t = p.ret
    if t.op == "call" and t.a[0] in SEQ and t.a[1:] == (G,):
        return cx.ob("ok", "par-sequential")
    return False


def thread1(ck, config, body, cats):
    e, paths = analyse(ck, config, body)
    if paths is None:
        return
    cx = Ctx(ck, cats, nice(body))
    G = T("sym", "*p0")
    npar = 0
    for p in paths:
        if sequential(cx, p, G):
            continue
        if p.ret.op == "call" and p.ret.a[0] in SEQ:
            cx.ob("viol", "par-sequential", "another graph is solved: %s" % pp(p.ret)[:200])
            continue
        npar += 1
        thread_path(cx, e, G, p)
    if paths and not npar:
        cx.ob("undecided", "par-threads", "no path with threads")


def spawning(p):
    """loops which start threads: [(loop event, back path, events of the thread)]"""
    out = []
    for l in loops(p.ev):
        for q in l.x["loop"].backs:
            for i, x in enumerate(q.ev):
                if x.kind == "spawn":
                    out.append((l, q))
                    break
            else:
                if l.kind == "par":
                    out.append((l, q))
    return out


def thread_path(cx, e, G, p):
    sp = spawning(p)
    sp = [(l, q) for l, q in sp if any(x.kind == "call" and x.name == "split_up_b_ary_number_into_n_chunks" for x in walk(q.ev))]
    if not sp:
        one = [x for x in walk(p.ev) if x.kind == "call" and x.name == "split_up_b_ary_number_into_n_chunks"]
        cx.ob("undecided", "par-threads", "no loop starting threads for the pieces found; result %s" % pp(p.ret)[:100])
        return
    l = sp[0][0]
    if any(x is not l for x, _ in sp):
        cx.ob("undecided", "par-threads", "several loops start threads")
        return
    Lo = l.x["loop"]
    # all rounds: the exit which is taken is the exhausted one
    if Lo.N is None or any(x not in Lo.exh for x in Lo.exits) or not Lo.exh:
        cx.ob("undecided", "par-threads", "the number of threads is not known")
        return
    # the threads have ended when the result is read
    i = p.ev.index(l)
    inscope = [x.kind for x in p.ev]
    if l.kind == "loop":
        opened = any(x.kind == "scope" for x in p.ev[:i])
        closed = any(x.kind == "scope_end" for x in p.ev[i:])
        if not (opened and closed):
            cx.ob("undecided", "par-join", "threads without a scope")
        else:
            cx.ob("ok", "par-join")
    seen = set()
    for _, q in sp:
        thread_round(cx, e, G, p, l, q, seen)


def thread_round(cx, e, G, p, l, q, seen):
    Lo = l.x["loop"]
    base = list(l.x["loop"].entry.facts) + list(q.facts)
    inner = [x for x in loops(q.ev) if any(y.kind == "call" and y.name == "get_next_value" for b in x.x["loop"].backs + x.x["loop"].exits for y in walk(b.ev))]
    ch = [x for x in q.ev if x.kind == "call" and x.name == "split_up_b_ary_number_into_n_chunks"]
    if len(inner) != 1 or len(ch) != 1:
        cx.ob("undecided", "par-threads", "%d pieces, %d loops over prefixes in a thread" % (len(ch), len(inner)))
        return
    chunk = ch[0].ret
    inner = inner[0]
    key = inner.x["loop"].uid
    if key in seen:
        return
    seen.add(key)
    k0 = chunk.a[4]
    W = Lo.N
    # the loop counts from 0: worker index is the number of the round
    if not chunk_args(cx, G, chunk, W, Lo.K, base, "thread", [f for f in Lo.entry.facts if not any(x.op == "phi" for x in subterms(f))]):
        return
    r = prefix_loop(cx, e, G, inner, chunk.a[1], chunk, q)
    if not r:
        return
    cls, norm, cur = r
    Li = inner.x["loop"]
    # --- what becomes of the results
    outs, direct = {}, []
    for pth, facts, s, _, _ in cls:
        if s is None:
            continue
        seeds = [norm(x.args[2]) for x in pth.ev[:pth.ev.index(s)] if x.kind == "lock"] + [ph for ph in Li.phi.values()]
        sr = search_call(cx, e, G, subst_event(s, norm), cur, seeds)
        if sr is None:
            return
        outs[id(pth)] = sr[0]
        direct.append([x for x in pth.ev[pth.ev.index(s):] if x.kind == "lock"])
    if not outs:
        cx.ob("undecided", "par-merge", "no search")
        return
    if not any(direct):
        # a best of the thread, merged into the shared one at its end
        best = local_best(cx, Li, cls, norm, outs)
        if best is None:
            return
        for l2, q2 in spawning(p):
            if l2 is not l or inner.x["loop"].uid not in [x.x["loop"].uid for x in loops(q2.ev)]:
                continue
            iv = [x for x in loops(q2.ev) if x.x["loop"].uid == Li.uid][0]
            i = q2.ev.index(iv)
            locks = [x for x in q2.ev[i:] if x.kind == "lock"]
            facts = [unfin(f, iv) for f in q2.facts]
            sh = [(lf, ph) for lf, ph in Lo.phi.items() if is_shared(Lo, lf)]
            if len(sh) != 1:
                cx.ob("undecided", "par-merge", "no unique shared best")
                return
            new = unfin(getpath(q2.st.mem[sh[0][0][0]], sh[0][0][1]), iv)
            if not locks:
                if new is sh[0][1] and not nothing_pair(best, FS(facts)):
                    cx.ob("viol", "par-merge", "the best result of a thread is not merged") if not hazy(*facts) else cx.ob("undecided", "par-merge", "end of a thread")
                continue
            merged(cx, pair(new), pair(unfin(locks[-1].args[2], iv)), best, facts, "shared best")
    else:
        for pth, facts, s, _, _ in cls:
            if s is None:
                continue
            out = outs[id(pth)]
            after = [x for x in pth.ev[pth.ev.index(s):] if x.kind == "lock"]
            if not after:
                if nothing(out, FS(facts)):
                    cx.ob("ok", "par-merge")
                elif not hazy(*facts):
                    cx.ob("viol", "par-merge", "the result of a search is not merged if %s" % "; ".join(pp(f) for f in facts[-2:])[:200])
                else:
                    cx.ob("undecided", "par-merge", "no lock after the search")
                continue
            place = after[-1].args[0]
            old = norm(after[-1].args[2])
            ph = content(Li, place)
            if ph is None:
                cx.ob("undecided", "par-merge", "content of the lock not found")
                continue
            lf = [x for x, y in Li.phi.items() if y is ph][0]
            new = norm(getpath(pth.st.mem[lf[0]], lf[1]))
            merged(cx, pair(new), pair(old), pair(out), facts, "shared best", out)
        # rounds without a search leave the shared best alone
        for pth, facts, s, _, _ in cls:
            if s is not None:
                continue
            for lf, ph in Li.phi.items():
                w = norm(getpath(pth.st.mem[lf[0]], lf[1]))
                if is_shared(Li, lf) and w is not ph and w.op != "locked":
                    cx.require(False, "par-merge", "a round without a search changes the best result to %s" % pp(w)[:150], w)
    # --- the result
    final_shared(cx, p, l, Lo)


def subst_event(s, norm):
    return Ev(s.kind, s.name, tuple(norm(a) if isinstance(a, Term) else a for a in s.args), norm(s.ret) if isinstance(s.ret, Term) else s.ret, s.facts, s.span, **s.x)


def is_shared(L, lf):
    return "arc(" in pp(lf[0]) or lf[0].op == "vroot" and lf[0].a[0].op == "arc"


def content(L, place):
    """the loop carried value behind the place of a lock"""
    for lf, ph in L.phi.items():
        root = lf[0]
        if place.op == "ref" and place.a[0] is root:
            return ph
        if any(x is root for x in subterms(place)):
            return ph
    return None


def carriers(L):
    """loop carried pairs which may hold a best cost with its tour: (cost, tour) terms with their leaves"""
    out = []
    inf = [(lf, ph) for lf, ph in L.phi.items() if L.init[lf] is INF]
    for lf, ph in L.phi.items():
        i = L.init[lf]
        if i.op == "agg" and len(i.a) == 4 and i.a[2] is INF:
            out.append(((fld(ph, 0), fld(ph, 1)), lambda v, ph=ph: pair(v[ph]), ph))
    for lf, ph in inf:
        mates = [(l2, p2) for l2, p2 in L.phi.items() if p2 is not ph and L.init[l2].op not in ("flt", "inf") and L.init[l2] is not INF
                 and l2[0] is lf[0] and l2[1][:-1] == lf[1][:-1]] or \
                [(l2, p2) for l2, p2 in L.phi.items() if p2 is not ph and (L.init[l2].op in ("seq0", "rep") or L.init[l2] is SEQ0)]
        for l2, p2 in mates:
            out.append(((ph, p2), lambda v, ph=ph, p2=p2: (v[ph], v[p2]), (ph, p2)))
    return out


def local_best(cx, L, cls, norm, outs):
    """the pair into which each search result is merged -> (cost, tour) terms or None.  outs: path -> result"""
    cand = []
    for old, get, key in carriers(L):
        hit = 0
        for pth, facts, s, _, _ in cls:
            if s is None:
                continue
            new = get({ph: norm(x) for ph, x in leaf_vals(L, pth).items()})
            o = outs[id(pth)]
            hit += (new[0] is fld(o, 0)) + (new[1] is fld(o, 1))
        if hit:
            cand.append((hit, old, get))
    if not cand:
        cx.ob("undecided", "par-merge", "no best result is kept in the loop")
        return None
    cand.sort(key=lambda x: -x[0])
    _, old, get = cand[0]
    for pth, facts, s, _, _ in cls:
        new = get({ph: norm(x) for ph, x in leaf_vals(L, pth).items()})
        if s is None:
            cx.require(new[0] is old[0] and new[1] is old[1], "par-merge", "a round without a search changes the best result to %s" % pp(tup(*new))[:200], *new)
            continue
        o = outs[id(pth)]
        if seeded_by(o) == old and new == pair(o):
            cx.ob("ok", "par-merge")   # the search itself only improves what it gets
            continue
        merged(cx, new, old, pair(o), facts, "best of the worker", o)
    return old


def seeded_by(o):
    """the pair a search started from"""
    c = o.a[0]
    b = c.a[1 + o.a[1]]
    return pair(b)


def final_shared(cx, p, l, Lo):
    t = unfin(p.ret, l)
    sh = [ph for lf, ph in Lo.phi.items() if is_shared(Lo, lf)]
    if len(sh) != 1:
        return cx.ob("undecided", "par-result", "no unique shared best")
    ph = sh[0]
    lf = [x for x, y in Lo.phi.items() if y is ph][0]
    ini = Lo.init[lf]
    cx.require(fld(ini, 0) is INF, "par-result", "the shared best starts with the cost %s" % pp(fld(ini, 0)), ini)
    if t is ph or t.op == "agg" and len(t.a) == 4 and t.a[2] is fld(ph, 0) and t.a[3] is fld(ph, 1) or t.op == "locked" and ph in set(subterms(t)):
        return cx.ob("ok", "par-result")
    if t.op == "locked":
        return cx.ob("ok", "par-result")
    return cx.require(False, "par-result", "the solver returns %s and not the shared best" % pp(t)[:200], t)


# ------------------------------------------------------------------ processes
RANK, SIZE = T("mpi", "rank"), T("mpi", "size")
ROOT = T("proc", I(0))
ANY = T("proc", T("named", "any_process"))
WORKERS = sub(SIZE, I(1))


def mpis(ev, name=None):
    return [x for x in ev if x.kind == "mpi" and x.name != "initialize" and (name is None or x.name == name)]


def msgtype(x):
    """the type of a message sent or received"""
    t = x.x.get("ty") or ""
    m = re.findall(r"MPICost\w+|\b[fui]\d+\b|\busize\b", str(t))
    return m[0] if m else None


def distributed(ck, config="mpi", cats=CATS):
    for name in ("static_mpi_solver", "static_mpi_solver_generic", "dynamic_mpi_solver"):
        bs = bodies(config, name)
        ck.require(bool(bs), "anchor", "solvers::exact::" + name, "the public solver is gone")
        if name == "static_mpi_solver_generic":
            continue      # analysed as part of static_mpi_solver, where the length of the prefixes is known
        for b in bs:
            process1(ck, config, b, cats)


def process1(ck, config, body, cats):
    e, paths = analyse(ck, config, body)
    if paths is None:
        return
    cx = Ctx(ck, cats, nice(body))
    G = T("sym", "*p0")
    if len(paths) == 1 and is_call(paths[0].ret, "static_mpi_solver_generic"):
        r = paths[0].ret
        cx.require(r.a[1] is G, "par-sequential", "another graph is solved: %s" % pp(r)[:200], r)
        n = const_int(r.a[2])
        return cx.require(n is not None and n >= 1, "par-sequential", "prefixes of length %s" % pp(r.a[2]), r.a[2])
    roots, workers = [], []
    for p in paths:
        fs = FS(p.facts)
        if p.ret.op == "call" and p.ret.a[0] in SEQ:
            if not sequential(cx, p, G):
                cx.ob("viol", "par-sequential", "another graph is solved: %s" % pp(p.ret)[:200])
            continue
        r = fs(eq0(RANK))
        if r is None:
            cx.ob("undecided", "par-roles", "a process which may or may not be the root: %s" % "; ".join(pp(f) for f in p.facts)[:200])
            return
        (roots if r else workers).append(p)
    if not roots or not workers:
        cx.ob("undecided", "par-roles", "%d paths of the root, %d of the workers" % (len(roots), len(workers)))
        return
    # a root and a worker take part in the same collective operations
    names = lambda p: [x.name for x in mpis(p.ev) if x.name in COLL]
    split = False
    for u in roots + workers:
        U = [f for f in u.facts if uniform(f)]
        other = [names(q) for q in (workers if u in roots else roots) if not FS(U + [f for f in q.facts if uniform(f)]).dead]
        if other and names(u) not in other:
            split = True
            cx.ob("viol", "par-collectives", "%s calls %s, the others call %s" % ("the root" if u in roots else "a worker", names(u), " or ".join(map(str, other))[:200]))
            break
    if not split and "incumbent" in cats:
        collectives(ck, "par-collectives", nice(body), paths)
    static = any(x.kind == "call" and x.name == "split_up_b_ary_number_into_n_chunks" for p in workers for x in p.ev)
    types = []
    seen = set()
    for p in workers:
        w = static_worker(cx, e, G, p, seen) if static else dynamic_worker(cx, e, G, p, seen)
        if w:
            types.append(w[1:])
            wrapup(cx, p, None, w[0])
    for p in roots:
        r = (static_root if static else dynamic_root)(cx, e, G, p)
        if r:
            wrapup(cx, p, r[0], None)
            for up, down in types:
                if None in (up, down) or None in r[1:]:
                    cx.ob("undecided", "par-messages", "types of the messages: %s, %s" % ((up, down), r[1:]))
                else:
                    cx.require((up, down) == r[1:], "par-messages", "workers send %s and receive %s, the root receives %s and sends %s" % (up, down, r[1], r[2]))


def wrapup(cx, p, winner, path):
    """the root tells all the winner, the winner tells all its tour; that is the result"""
    bs = mpis(p.ev, "broadcast_into")
    t = p.ret
    if len(bs) != 2 or not (t.op == "agg" and len(t.a) == 4):
        return cx.ob("undecided", "par-result", "%d broadcasts; result %s" % (len(bs), pp(t)[:150]))
    b1, b2 = bs[0].ret, bs[1].ret
    cx.require(b1.a[2] is ROOT, "par-result", "the winner is broadcast by %s" % pp(b1.a[2])[:100], b1.a[2])
    cx.require(b2.a[2] is T("proc", fld(b1, 1)), "par-result", "the tour is broadcast by %s, not by the winner" % pp(b2.a[2])[:100], b2.a[2])
    cx.require(t.a[2] is fld(b1, 0) and t.a[3] is b2, "par-result", "the result is %s, not the cost and the tour of the winner" % pp(t)[:200], t)
    if winner is not None:
        o = b1.a[3]
        c, r, ev = winner
        cx.require(unfin(fld(o, 0), ev) is c and unfin(fld(o, 1), ev) is r, "par-result", "the root broadcasts %s, not the best result reported" % pp(o)[:200], o)
    if path is not None:
        t_, ev = path
        o = unfin(b2.a[3], ev)
        cx.require(o is t_, "par-result", "a worker broadcasts %s, not the tour of its best result" % pp(o)[:200], o)


def report(cx, G, pth, s, facts, old, new, out, norm, reply):
    """the messages of a worker after a search: its best cost and its rank, then (static) the best cost of all"""
    ms = mpis(pth.ev[pth.ev.index(s):])
    if not ms and new[0] is old[0]:
        return True, None     # nothing new to tell
    if not ms or ms[0].name != "send":
        cx.ob("viol" if not ms else "undecided", "par-merge", "an improved result is not reported to the root")
        return False, None
    x = ms[0]
    m = norm(x.args[1])
    cx.require(x.args[0] is ROOT, "par-merge", "a result is reported to %s" % pp(x.args[0]), x.args[0])
    c = fld(m, 0)
    if c is old[0] and new[0] is fld(out, 0):
        cx.ob("viol", "par-merge", "the cost reported is the one before the improvement")
    else:
        cx.require(c is new[0] or c is fld(out, 0) or c is old[0] and better(fld(out, 0), old[0], FS(facts)) is False, "par-merge", "the cost reported is %s" % pp(c)[:200], c)
    cx.require(fld(m, 1) is RANK, "par-merge", "the rank reported is %s" % pp(fld(m, 1)), fld(m, 1))
    rest = ms[1:]
    if reply:
        if not cx.require(len(rest) == 1 and rest[0].name == "receive" and rest[0].args[0] is ROOT, "par-messages",
                          "after a report: %s" % ", ".join(y.name for y in rest)):
            return False, None
    else:
        if not cx.require(not rest, "par-messages", "after a report: %s" % ", ".join(y.name for y in rest)):
            return False, None
    return True, (rest[0].ret if rest else None)


def bound_ok(cx, r, s, norm, accept):
    """further float parameters of the search: bounds known from elsewhere"""
    for i in r["f"][1:]:
        b = norm(s.args[i])
        if b is INF or b in accept:
            cx.ob("ok", "par-search-bound")
        elif b.op == "flt":
            cx.ob("viol", "par-search-bound", "the search is bounded by %s" % pp(b))
        else:
            cx.require(False, "par-search-bound", "the search is bounded by %s, which is the cost of no tour" % pp(b)[:200], b)


def bounds_of(cx, L, got):
    """loop carried values which only hold INF or costs received"""
    out = set()
    for lf, ph in L.phi.items():
        vs = set()
        for q in L.backs:
            v = leaf_vals(L, q)[ph]
            vs |= set(v.a) if v.op == "fmin2" else {v}
        if L.init[lf] is INF and vs <= {ph} | got:
            out.add(ph)
    return out


def static_worker(cx, e, G, p, seen):
    ls = [x for x in p.ev if x.kind == "loop" and any(y.kind == "call" and y.name == "SEARCH" for b in x.x["loop"].backs for y in walk(b.ev))]
    ch = [x for x in p.ev if x.kind == "call" and x.name == "split_up_b_ary_number_into_n_chunks"]
    if len(ls) != 1 or len(ch) != 1:
        cx.ob("undecided", "par-roles", "%d loops with searches, %d pieces in a worker" % (len(ls), len(ch)))
        return None
    ev, chunk = ls[0], ch[0].ret
    L = ev.x["loop"]
    if not chunk_args(cx, G, chunk, WORKERS, sub(RANK, I(1)), list(L.entry.facts), "rank"):
        return None
    r = prefix_loop(cx, e, G, ev, chunk.a[1], chunk, p)
    if not r:
        return None
    cls, norm, cur = r
    outs, roles, got = {}, {}, set()
    for pth, facts, s, _, _ in cls:
        if s is not None:
            sr = search_call(cx, e, G, subst_event(s, norm), cur, list(L.phi.values()))
            if sr is None:
                return None
            outs[id(pth)], roles[id(pth)] = sr
            got |= {x.ret for x in mpis(pth.ev, "receive") if x.args[0] is ROOT}
    old = local_best(cx, L, cls, norm, outs)
    if old is None:
        return None
    get = [g for o, g, k in carriers(L) if o == old][0]
    ok = bounds_of(cx, L, got) | {old[0]}
    up, down = None, None
    for pth, facts, s, _, _ in cls:
        if s is None:
            cx.require(not mpis(pth.ev), "par-messages", "messages in a round without a search: %s" % ", ".join(y.name for y in mpis(pth.ev)))
            continue
        bound_ok(cx, roles[id(pth)], s, norm, ok)
        new = get({ph: norm(x) for ph, x in leaf_vals(L, pth).items()})
        good, _ = report(cx, G, pth, s, facts, old, new, outs[id(pth)], norm, True)
        if not good:
            return None
        for x in mpis(pth.ev):
            if x.name == "send":
                up = msgtype(x)
            if x.name == "receive":
                down = msgtype(x)
    i = p.ev.index(ev)
    before, after = [x for x in mpis(p.ev[:i]) if x.name in ("send", "receive")], [x for x in mpis(p.ev[i:]) if x.name in ("send", "receive")]
    if cx.require(not before and len(after) == 1 and after[0].name == "send" and after[0].args[0] is ROOT, "par-messages",
                  "the end of a worker is announced by %s" % ", ".join(x.name for x in before + after)):
        c = fld(after[0].args[1], 0)
        cx.require(c.op == "flt" and float(c.a[0]) < 0, "par-messages", "the end of a worker is announced by the cost %s" % pp(c), c)
        cx.require(msgtype(after[0]) == up, "par-messages", "messages of different types: %s and %s" % (up, msgtype(after[0])))
    return (old[1], ev), up, down


def received(pth):
    return [x.ret for x in mpis(pth.ev, "receive")]


def message(cx, L):
    """rounds of the root: [(path, message)] or None"""
    out = []
    for q in L.backs:
        rs = mpis(q.ev, "receive")
        if not cx.require(len(rs) == 1, "par-messages", "%d messages are received in a round of the root" % len(rs)):
            return None
        if not cx.require(rs[0].args[0] is ANY, "par-messages", "the root listens to %s only" % pp(rs[0].args[0]), rs[0].args[0]):
            return None
        out.append((q, rs[0]))
    return out


def root_loop(cx, p):
    ls = [x for x in p.ev if x.kind == "loop" and any(mpis(q.ev, "receive") for q in x.x["loop"].backs)]
    if len(ls) != 1:
        cx.ob("undecided", "par-roles", "%d loops with messages in the root" % len(ls))
        return None
    i = p.ev.index(ls[0])
    pp2 = [x for x in mpis(p.ev) if x.name in ("send", "receive")]
    if pp2:
        cx.ob("undecided", "par-messages", "messages of the root outside its loop")
        return None
    return ls[0]


def winner_of(cx, p, ev):
    """the loop carried cost and rank which the root broadcasts in the end"""
    L = ev.x["loop"]
    bs = mpis(p.ev, "broadcast_into")
    if not bs or bs[0].ret.a[2] is not ROOT:
        cx.ob("undecided", "par-result", "the winner is not broadcast by the root")
        return None
    o = bs[0].ret.a[3]
    w = unfin(fld(o, 0), ev), unfin(fld(o, 1), ev)
    inv = {ph: lf for lf, ph in L.phi.items()}
    for x, what in zip(w, ("cost", "rank")):
        if x not in inv:
            cx.ob("undecided" if hazy(x) or x.op not in ("int", "flt", "inf") else "viol", "par-result", "the %s which the root broadcasts is %s, not that of the best result reported" % (what, pp(x)[:150]))
            return None
    if not cx.require(L.init[inv[w[0]]] is INF, "par-merge", "the best cost of the root starts with %s" % pp(L.init[inv[w[0]]])[:100], L.init[inv[w[0]]]):
        return None
    return w


def counter(cx, L, rounds):
    """the loop carried number of workers that have finished"""
    c = [ph for lf, ph in L.phi.items() if any(leaf_vals(L, q)[ph] is add(ph, I(1)) for q, m in rounds)]
    c = [ph for ph in c if any(ge0(sub(add(ph, I(1)), SIZE)) is f or any(x is ph for x in subterms(f)) for x_ in L.exits for f in x_.facts)]
    if len(c) != 1:
        cx.ob("undecided", "par-messages", "%d candidates for the number of finished workers" % len(c))
        return None
    lf = [k for k, v in L.phi.items() if v is c[0]][0]
    if not cx.require(L.init[lf] is I(0), "par-messages", "the number of finished workers starts with %s" % pp(L.init[lf]), L.init[lf]):
        return None
    for x in L.exits:
        try:
            for fin in range(0, 4):
                for size in range(2, 6):
                    if fin <= size - 1 and SM.Ev({c[0]: fin, SIZE: size}).conds([f for f in x.facts if any(y is c[0] for y in subterms(f))]) and fin != size - 1:
                        cx.ob("viol", "par-messages", "the root stops listening when %d of %d workers have finished" % (fin, size - 1))
                        return None
        except (SM.Hazy, SM.Undef):
            cx.ob("undecided", "par-messages", "the root stops when %s" % "; ".join(pp(f) for f in x.facts)[:200])
            return None
    for q, _ in rounds:
        if FS(list(q.facts) + [eq0(sub(c[0], WORKERS))]).dead:
            continue
        cx.ob("viol" if not any(hazy(f) for f in q.facts) else "undecided", "par-messages", "the root listens on when all workers have finished")
        return None
    return c[0]


def told(facts, c):
    """the costs in a message with which a path is taken: -1 (the end of a worker), 0, 7 (reports)"""
    out = set()
    fs_ = [f for f in facts if c in set(subterms(f)) and not any(x.op == "phi" for x in subterms(f))]
    for v in (-1.0, 0.0, 7.0):
        try:
            if SM.Ev({c: v}).conds(fs_):
                out.add(v)
        except (SM.Hazy, SM.Undef):
            return None
    return out


def static_root(cx, e, G, p):
    ev = root_loop(cx, p)
    if ev is None:
        return None
    L = ev.x["loop"]
    rounds = message(cx, L)
    if rounds is None:
        return None
    w = winner_of(cx, p, ev)
    n = counter(cx, L, rounds) if w else None
    if n is None:
        return None
    up = down = None
    for q, m in rounds:
        up = msgtype(m)
        v = leaf_vals(L, q)
        c, r = fld(m.ret, 0), fld(m.ret, 1)
        kinds = told(q.facts, c)
        neg = None if kinds is None else kinds == {-1.0} if len(kinds) == 1 else False if -1.0 not in kinds else None
        if neg is None:
            if kinds is not None and (v[n] is add(n, I(1)) and (0.0 in kinds or 7.0 in kinds) or v[n] is n and -1.0 in kinds):
                cx.ob("viol", "par-messages", "a report of the cost %s is taken as the end of a worker" % max(kinds) if v[n] is not n else "the end of a worker is taken as a report")
                return None
            cx.ob("undecided", "par-messages", "reports and ends are not told apart by the sign of the cost: %s" % "; ".join(pp(f) for f in q.facts)[:200])
            return None
        sends = mpis(q.ev, "send")
        new = (v[w[0]], v[w[1]])
        if neg:
            cx.require(v[n] is add(n, I(1)), "par-messages", "the end of a worker is not counted: %s" % pp(v[n]), v[n])
            cx.require(not sends, "par-messages", "the root answers a worker that has finished")
            cx.require(new == w, "par-merge", "the end of a worker changes the best result to %s" % pp(tup(*new))[:200], *new)
            continue
        cx.require(v[n] is n, "par-messages", "a report is counted as the end of a worker: %s" % pp(v[n]), v[n])
        merged(cx, new, w, (c, r), q.facts, "best of the root")
        if not cx.require(len(sends) == 1, "par-messages", "%d answers to a report" % len(sends)):
            continue
        s = sends[0]
        down = msgtype(s)
        cx.require(s.args[0] is T("proc", r), "par-messages", "the answer goes to %s and not to the worker that reported" % pp(s.args[0])[:100], s.args[0])
        a = s.args[1]
        cx.require(a is new[0] or a is w[0] or a is c or a is INF, "par-search-bound", "the answer is %s, which is the cost of no tour" % pp(a)[:100], a)
    return (w[0], w[1], ev), up, down


def dynamic_worker(cx, e, G, p, seen):
    ls = [x for x in p.ev if x.kind == "loop" and any(y.kind == "call" and y.name == "SEARCH" for b in x.x["loop"].backs for y in walk(b.ev))]
    if len(ls) != 1:
        cx.ob("undecided", "par-roles", "%d loops with searches in a worker" % len(ls))
        return None
    ev = ls[0]
    L = ev.x["loop"]
    if L.uid in seen:
        pass
    i = p.ev.index(ev)
    # --- the first request
    up = down = None
    pre = [x for x in mpis(p.ev[:i]) if x.name in ("send", "receive")]
    if not cx.require(len(pre) == 1 and pre[0].name == "send" and pre[0].args[0] is ROOT, "par-messages", "before its first piece of work a worker does %s" % ", ".join(x.name for x in pre)):
        return None
    m = pre[0].args[1]
    up = msgtype(pre[0])
    cx.require(fld(m, 0) is INF, "par-merge", "the first request reports the cost %s" % pp(fld(m, 0)), fld(m, 0))
    cx.require(fld(m, 1) is RANK, "par-merge", "the first request reports the rank %s" % pp(fld(m, 1)), fld(m, 1))
    # --- the rounds
    cls, outs, roles = [], {}, {}
    cur = None
    for q in L.backs + L.exits:
        rs = [x for x in mpis(q.ev, "receive")]
        if len(rs) != 1 or rs[0].args[0] is not ROOT:
            if q in L.exits and not rs:
                cx.ob("undecided", "par-messages", "a worker stops without a message")
                return None
            cx.require(False, "par-messages", "a worker receives %d messages in a round" % len(rs))
            return None
        m = rs[0].ret
        down = msgtype(rs[0])
        ss = [x for x in walk(q.ev) if x.kind == "call" and x.name == "SEARCH"]
        if len(ss) > 1 or any(x not in q.ev for x in ss):
            cx.ob("undecided", "par-messages", "%d searches in a round" % len(ss))
            return None
        cls.append((q, q.facts, ss[0] if ss else None, m))
    ms = {m for _, _, _, m in cls}
    if len(ms) != 1:
        cx.ob("undecided", "par-messages", "different messages")
        return None
    m = ms.pop()
    cur = fld(m, 1)
    entry = set(L.entry.facts)
    D = dims(G)
    sels = [[f for f in (s.facts if s is not None else facts) if f not in entry and (cur in set(subterms(f)) or any(x in D for x in subterms(f)))] for q, facts, s, _ in cls]
    # the end of the work is told by zeros
    for env, v in models(G, 3, {f for x in sels for f in x}, entry) + [({}, (0, 0, 0))]:
        if len(set(v)) != 3 and v != (0, 0, 0):
            continue
        for (q, facts, s, _), sel in zip(cls, sels):
            try:
                k = SM.Ev({cur: v, T("len", cur): len(v), **env}).conds(sel)
            except (SM.Hazy, SM.Undef):
                if not env:
                    continue
                cx.ob("undecided", "par-every-prefix", "condition %s" % "; ".join(pp(f) for f in sel)[:200])
                return None
            if not k:
                continue
            stop = q in L.exits
            if len(set(v)) == 3 and (stop or s is None):
                cx.ob("viol", "par-every-prefix", "the prefix %s is not searched by the worker that gets it" % list(v))
                return None
            if len(set(v)) == 1 and not stop:
                cx.ob("viol", "par-messages", "a worker does not stop when there is no more work")
                return None
    cx.ob("ok", "par-every-prefix")
    ident = lambda t: t
    c4 = [(q, facts, s, ident, cur) for q, facts, s, _ in cls if q in L.backs]
    for q, facts, s, _, _ in c4:
        if s is None:
            continue
        r = role(e.prog.bodies[s.x["body"]])
        if r is None:
            cx.ob("undecided", "par-search-args", "parameters of %s" % s.x["body"])
            return None
        cx.require(s.args[r["prefix"]] is cur, "par-search-prefix", "the search gets %s and not the prefix received" % pp(s.args[r["prefix"]])[:150], s.args[r["prefix"]])
        sr = search_call(cx, e, G, s, cur, list(L.phi.values()))
        if sr is None:
            return None
        outs[id(q)], roles[id(q)] = sr
    old = local_best(cx, L, c4, ident, outs)
    if old is None:
        return None
    get = [g for o, g, k in carriers(L) if o == old][0]
    for q, facts, s, _, _ in c4:
        if s is None:
            continue
        bound_ok(cx, roles[id(q)], s, ident, {fld(m, 0), old[0]})
        new = get(leaf_vals(L, q))
        ms_ = mpis(q.ev[q.ev.index(s):])
        if not ms_:
            cx.ob("viol", "par-messages", "a worker does not ask for more work")
            return None
        good, _ = report(cx, G, q, s, facts, old, new, outs[id(q)], ident, False)
        if not good:
            return None
        for x in ms_:
            if x.name == "send":
                cx.require(msgtype(x) == up, "par-messages", "messages of different types: %s and %s" % (up, msgtype(x)))
    # after the loop (the message that ended it aside)
    rest = [x for x in mpis(p.ev[i + 1:]) if x.name == "send"]
    cx.require(not rest, "par-messages", "a worker sends a message after the end of the work")
    return (old[1], ev), up, down


def dynamic_root(cx, e, G, p):
    ev = root_loop(cx, p)
    if ev is None:
        return None
    L = ev.x["loop"]
    rounds = message(cx, L)
    if rounds is None:
        return None
    w = winner_of(cx, p, ev)
    n = counter(cx, L, rounds) if w else None
    if n is None:
        return None
    # --- the length of the prefixes
    D = dims(G)
    alld = {x: D[0] for x in D}
    ef = [subst(f, alld) for f in L.entry.facts]
    if FS(ef)(ge0(sub(D[0], I(3)))) is True:
        cx.ob("ok", "par-small")
    else:
        dv = None
        for d in (1, 2):
            try:
                if SM.Ev({D[0]: d, SIZE: 3, RANK: 0}).conds([f for f in ef if not hazy(f)]):
                    dv = d
            except (SM.Hazy, SM.Undef):
                pass
        cx.ob("undecided" if dv is None else "viol", "par-small", "a graph with %s vertices has no prefixes of length 3" % (dv or "few"))
    # --- the next prefix
    O = [(ph, L.init[lf]) for lf, ph in L.phi.items() if L.init[lf].op == "agg" and len(L.init[lf].a) == 3 and L.init[lf].a[1] == 1
         and L.init[lf].a[2].op == "agg" and L.init[lf].a[2].a[0] == "array"]
    if len(O) != 1:
        cx.ob("undecided", "par-start", "the next prefix of the root not found")
        return None
    O, ini = O[0]
    first = [const_int(x) for x in ini.a[2].a[2:]]
    if None in first:
        for d in (3, 4, 5):
            try:
                v = tuple(SM.Ev({x: d for x in D}).val(x) for x in ini.a[2].a[2:])
            except (SM.Hazy, SM.Undef):
                break
            if v != (0, 1, 2):
                cx.ob("viol", "par-start", "with %d vertices the first prefix handed out is %s" % (d, list(v)))
                return None
        cx.ob("undecided", "par-start", pp(ini))
        return None
    base = max(first + [len(first) - 1]) + 1
    skipped = [v for v in itertools.product(range(base), repeat=len(first)) if v < tuple(first) and len(set(v)) == len(v)]
    cx.require(not skipped and len(set(first)) == len(first), "par-start", "the first prefix handed out is %s%s" % (first, ", %s is never searched" % list(skipped[0]) if skipped else ""))
    up = down = None
    inner = {}
    for q, m in rounds:
        up = msgtype(m)
        v = leaf_vals(L, q)
        c, r = fld(m.ret, 0), fld(m.ret, 1)
        fs = FS(q.facts)
        new = (v[w[0]], v[w[1]])
        if fs(flt(c, F0)) is True:
            cx.require(new == w, "par-merge", "a negative cost changes the best result", *new)
        else:
            merged(cx, new, w, (c, r), q.facts, "best of the root")
        some_ = fs(isvar(O, 1))
        sends = mpis(q.ev, "send")
        if some_ is None or len(sends) != 1:
            if some_ is not None and not hazy(*[f for f in q.facts]):
                cx.ob("viol", "par-messages", "%d answers to a request" % len(sends))
            else:
                cx.ob("undecided", "par-messages", "%d answers to a request" % len(sends))
            return None
        s = sends[0]
        down = msgtype(s)
        cx.require(s.args[0] is T("proc", r), "par-messages", "the answer goes to %s and not to the worker that asked" % pp(s.args[0])[:100], s.args[0])
        a = s.args[1]
        b = fld(a, 0)
        cx.require(b is new[0] or b is w[0] or b is INF, "par-search-bound", "the bound sent is %s, which is the cost of no tour" % pp(b)[:100], b)
        if some_:
            cx.require(fld(a, 1) is fld(dc(O, 1), 0), "par-every-prefix", "the prefix sent is %s, not the next one" % pp(fld(a, 1))[:150], fld(a, 1))
            cx.require(v[n] is n, "par-messages", "a worker that gets a prefix is counted as finished", v[n])
            if not advance(cx, G, L, O, q, v[O], fs):
                return None
        else:
            z = fld(a, 1)
            cx.require(z.op == "agg" and all(x is I(0) for x in z.a[2:]), "par-messages", "the end of the work is told by %s" % pp(z)[:100], z)
            cx.require(v[n] is add(n, I(1)), "par-messages", "the end of a worker is not counted: %s" % pp(v[n]), v[n])
            cx.require(v[O] is O or v[O].op == "agg" and v[O].a[1] == 0, "par-advance", "the work starts again: %s" % pp(v[O])[:100], v[O])
    return (w[0], w[1], ev), up, down


def advance(cx, G, L, O, q, v, fs):
    """the next prefix is the next one without a repeated vertex"""
    if v is O:
        return cx.ob("viol", "par-advance", "the same prefix is handed out again")
    ls = [x for x in q.ev if x.kind == "loop" and any(y.kind == "call" and y.name == "get_next_value" for b in x.x["loop"].backs + x.x["loop"].exits for y in walk(b.ev))]
    if len(ls) != 1:
        return cx.ob("undecided", "par-advance", "%d loops over prefixes in the root; next %s" % (len(ls), pp(v)[:150]))
    L2 = ls[0].x["loop"]
    if len(L2.phi) != 1:
        return cx.ob("undecided", "par-advance", "%d loop carried values" % len(L2.phi))
    (lf, ph), = L2.phi.items()
    if L2.init[lf] is not O:
        return cx.require(False, "par-advance", "the search for the next prefix starts with %s" % pp(L2.init[lf])[:150], L2.init[lf])
    gs = [x.ret for b in L2.backs + L2.exits for x in walk(b.ev) if x.kind == "call" and x.name == "get_next_value"]
    bad = [g for g in gs if g.a[2] not in dims(G)]
    if bad:
        return cx.require(False, "par-basis", "the prefixes are numbers to the base %s" % pp(bad[0].a[2]), bad[0].a[2])
    g = gs[0]
    if any(x is not g for x in gs) or g.a[1] is not fld(dc(ph, 1), 0):
        return cx.ob("undecided", "par-advance", "successors %s" % ", ".join(pp(x) for x in set(gs))[:200])
    val = fld(dc(g, 1), 0)

    def truth(facts, x, dim):
        """facts if the successor is x (None: there is none)"""
        env = {isvar(ph, 1): True, isvar(ph, 0): False, isvar(g, 1): x is not None, isvar(g, 0): x is None, **dim}
        if x is not None:
            env.update({val: x, T("len", val): len(x)})
        try:
            return SM.Ev(env).conds([f for f in facts if x is not None or val not in set(subterms(f))])
        except (SM.Hazy, SM.Undef):
            return None

    def value_of(t, x):
        if t.op == "agg" and len(t.a) == 2:
            return "none"
        if t is g:
            return x if x is not None else "none"
        if t.op == "agg" and len(t.a) == 3 and t.a[1] == 1 and x is not None:
            try:
                return tuple(SM.Ev({val: x, T("len", val): len(x)}).ev(t.a[2]))
            except (SM.Hazy, SM.Undef, AttributeError, TypeError):
                return None
        return None
    entry = set(L2.entry.facts)
    for dim, x in models(G, 3, {f for z in L2.backs + L2.exits for f in z.facts if f not in entry}, entry) + [({}, None)]:
        uniq = x is not None and len(set(x)) == len(x)
        hits = 0
        for z in L2.backs + L2.exits:
            k = truth([f for f in z.facts if f not in entry], x, dim)
            if k is None:
                return cx.ob("undecided", "par-advance", "condition %s" % "; ".join(pp(f) for f in z.facts)[:200])
            if not k:
                continue
            hits += 1
            back = z in L2.backs
            t = getpath(z.st.mem[lf[0]], lf[1])
            if back:
                if x is None:
                    return cx.ob("viol", "par-end", "the root looks for a prefix after the last one")
                if uniq:
                    return cx.ob("viol", "par-every-prefix", "a prefix like %s is never handed out" % list(x))
            else:
                if x is not None and not uniq:
                    return cx.ob("viol", "par-valid-prefix", "a prefix like %s, which contains a vertex twice, is handed out" % list(x))
                got = value_of(t, x)
                if got is None:
                    return cx.ob("undecided", "par-advance", "next prefix %s" % pp(t)[:200])
                if got != ("none" if x is None else x):
                    return cx.ob("viol", "par-every-prefix", "instead of a prefix like %s %s is handed out" % (x and list(x), got))
        if not hits:
            return cx.ob("undecided", "par-advance", "no path for the successor %s" % (x,))
    # what the loop found is kept
    t = unclose(v, ls[0])
    if t is not ph and not (v.op == "agg" and len(v.a) == 2) and not (v.op == "agg" and v.a[1] == 1 and any(y.op == "call" and y.a[0] == "get_next_value" for y in subterms(v))):
        return cx.require(False, "par-advance", "the next prefix is %s" % pp(v)[:200], v)
    return cx.ob("ok", "par-advance")
