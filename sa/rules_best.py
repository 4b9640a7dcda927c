"""One-trees, the one-tree bound and the nearest neighbour heuristic."""
from lib import *
from terms import uncases
from order import *
import itertools, math
import small as SM
import rules_step as RS

RANK, SIZE = T("mpi", "rank"), T("mpi", "size")


# ---------------------------------------------------------------- optimum over a range
class Best:
    """decoded argopt term"""

    def __init__(self, t):
        self.t = t
        self.kind, self.N, self.ini, self.tie, body = t.a
        if self.ini.op == "pay":
            self.ini = self.ini.a[0]
        self.k = k = T("k", "best_k")
        self.cs = uncases(subst_bv(body, k))
        self.conds = self.cs[0][0] if len(self.cs) == 1 else None
        self.key = self.cs[0][1][0] if len(self.cs) == 1 else None
        self.pay = self.cs[0][1][1] if len(self.cs) == 1 else None


def dims(G):
    return [dim(G), dim(fld(G, 0))]


def covers(N, ds):
    if N.op == "imin":
        return all(covers(x, ds) for x in N.a)
    return any(cdiff(N, d) is not None and cdiff(N, d) >= 0 for d in ds)


# ---------------------------------------------------------------- one-tree
def prior(prev, i, w, fs):
    """w is the adjacency list of i in prev (the facts may tell that the last changes were elsewhere)"""
    while True:
        if w is fld(idx(prev, i), 0):
            return True
        if prev.op != "upd" or fs(ieq(prev.a[1], i)) is not False:
            return False
        prev = prev.a[0]


def edges_added(t, base, fs):
    """[(vertex, edge)] pushed to the adjacency lists of base, or None"""
    if t is base:
        return []
    if t.op != "with" or t.a[0] is not base or t.a[1] != 0:
        return None
    x, out = t.a[2], []
    root = fld(base, 0)
    while x is not root:
        if x.op != "upd":
            return None
        prev, i, v = x.a
        # v = with(prev[i], 0, push(prev[i].0, e)), possibly several pushes
        es = []
        if v.op == "with" and v.a[1] == 0:
            w = v.a[2]
            while w.op == "push":
                es.insert(0, w.a[1])
                w = w.a[0]
            if not prior(prev, i, w, fs):
                return None
        elif v.op == "agg" and len(v.a) == 3:
            w = v.a[2]
            while w.op == "push":
                es.insert(0, w.a[1])
                w = w.a[0]
            if not prior(prev, i, w, fs):
                return None
        else:
            return None
        out = [(i, e) for e in es] + out
        x = prev
    return out


def unfinal(t, e):
    """express a term behind a loop by the loop carried values at its exit, also where they were solved"""
    m = {}
    for ph, c in getattr(e.x["exit"], "final", {}).items():
        if ph.op == "phi" and isinstance(c, Term) and c.op in ("argopt", "loopval", "unk"):
            m[c] = ph
    return subst(t, m) if m else t


def one_tree(ck, config="default"):
    bs = bodies(config, "one_tree")
    ck.require(bool(bs), "anchor", "one_tree::one_tree", "the public function is gone")
    for b in bs:
        tree1(ck, config, b)


def tree1(ck, config, body):
    where = nice(body)
    e, paths, why = run("best" + config, lambda: engine(config, own={body["id"]}), body)
    ck.engines.append(e)
    if paths is None:
        ck.ob("undecided", "onetree-analysis", where, why)
        return
    ck = SM.ModelCk(ck, lambda: one_tree_models(paths))
    G, S = T("sym", "*p0"), T("sym", "p1")
    MSTT = T("call", "MST", G, T("array", S))
    done = set()
    for p in paths:
        if FS(p.facts).dead:
            continue
        ms = [x for x in walk(p.ev) if x.kind == "call" and x.name == "MST"]
        ck.require(bool(ms) and all(x.args[0] is G and length(x.args[1]) is I(1) and idx(x.args[1], I(0)) is S for x in ms),
                   "onetree-tree", where, "the tree does not leave out exactly the special vertex: %s" % [pp(x.ret)[:100] for x in ms], tuple(x.ret for x in ms))
        if len(ms) != 1:
            continue
        base = ms[0].ret
        es = edges_added(p.ret, base, FS(p.facts))
        if es is None:
            ck.ob("undecided", "onetree-edges", where, "the result is %s" % pp(p.ret)[:200])
            continue
        mine = [x for i, x in es if i is S]
        # ends and costs
        want = []
        for x in mine:
            want.append((S, fld(x, 0), fld(x, 1)))
            want.append((fld(x, 0), S, fld(x, 1)))
        have_ = [(i, fld(x, 0), fld(x, 1)) for i, x in es]
        okp = sorted(have_, key=str_ids) == sorted(want, key=str_ids)
        ck.require(okp and len(mine) == 2, "onetree-edges", where, "the edges added at the special vertex are %s" % [tuple(pp(y)[:60] for y in x) for x in have_],
                   tuple(y for x in have_ for y in x))
        if not (okp and len(mine) == 2):
            continue
        sel = [(fld(x, 0), fld(x, 1)) for x in mine]
        two_smallest(ck, where, p, sel, G, S)


def str_ids(x):
    return tuple(y.id for y in x)


def two_smallest(ck, where, p, sel, G, S):
    """the two selected edges are the cheapest ones of the special vertex"""
    ds = dims(G)
    wk = lambda k: [idx2(m, a, b) for m in (G, fld(G, 0)) for a, b in ((S, k), (k, S))]
    cand = []
    for l in loops(p.ev):
        L = l.x["loop"]
        phis = set(L.phi.values())
        s2 = [(unfinal(t, l), unfinal(c, l)) for t, c in sel]
        ok = all(getpath_phi(t, phis) and getpath_phi(c, phis) for t, c in s2)
        if ok:
            cand.append((l, s2))
    if len(cand) != 1:
        best = [c for t, c in sel]
        ck.ob("undecided", "onetree-cheapest", where, "%d loops select the edges %s" % (len(cand), [pp(x)[:100] for x in best]))
        return
    l, s2 = cand[0]
    L = l.x["loop"]
    K = L.K
    inv = {ph: k for k, ph in L.phi.items()}
    facts = [unfinal(f, l) for f in p.facts]
    ev_ = lambda q, x: subst_paths(x, {ph: getpath(q.st.mem[k[0]], k[1]) for ph, k in inv.items()})
    pairs = list(dict.fromkeys(s2))
    W_ = wk(K)
    for t, c in pairs:
        for q in L.backs:
            t2, c2 = ev_(q, t), ev_(q, c)
            if (t2 is K) != (c2 in W_) or (t2 is t) != (c2 is c):
                ck.require(False, "onetree-pair", where, "the edge to %s gets the cost of another edge (they become %s and %s)" % (pp(t), pp(t2)[:80], pp(c2)[:80]), (t2, c2))
                return
    # all (to, cost) slots of the state
    slots = all_slots(L, pairs)
    if len(slots) != 2:
        ck.ob("undecided", "onetree-cheapest", where, "the loop keeps %d edges" % len(slots))
        return
    init = [(ev_init(L, t), ev_init(L, c)) for t, c in slots]
    ck.require(all(c is INF for t, c in init), "onetree-start", where, "the search for the cheapest edges starts with the costs %s" % [pp(c) for t, c in init], tuple(c for t, c in init))
    ck.require(L.N is not None and covers(L.N, ds), "onetree-all", where, "only %s neighbours are looked at" % (pp(L.N)[:100] if L.N is not None else "?"), (L.N,) if L.N is not None else (T("unk", "n"),))
    for x in L.exits:
        if L.N is not None and FS(x.facts)(nt(lt(K, L.N))) is not True:
            ck.require(False, "onetree-all", where, "the search can end early under %s" % [pp(f)[:100] for f in x.facts], x.facts)
    W = T("sym", "weight")
    sub_w = {w: W for w in wk(K)}
    good = None
    for order in (slots, slots[::-1]):
        (ft, fc), (st_, sc) = order
        bad = []
        hz = False
        for q in L.backs:
            fs = FS(q.facts)
            own = fs(ieq(K, S))
            new = [(subst(ev_(q, t), sub_w), subst(ev_(q, c), sub_w)) for t, c in order]
            qf = [subst(f, sub_w) for f in q.facts]
            if own is True:
                if new != [(ft, fc), (st_, sc)]:
                    bad.append("an edge of the special vertex to itself counts")
                continue
            if own is not False:
                bad.append("an edge of the special vertex to itself can count (facts %s)" % [pp(f)[:100] for f in q.facts])
                continue
            legal = {(ft, fc), (st_, sc), (K, W)}
            hz = hz or any(hazy(*x) for x in new)
            if not all(x in legal for x in new):
                bad.append("the edges become %s" % [tuple(pp(y)[:60] for y in x) for x in new])
                continue
            for env in assignments([((fc, sc, W), (0, 1, 2, 3))]):
                if env[fc] > env[sc] or not possible(qf, env):
                    continue
                got = [env[c] for t, c in new]
                if got != sorted((env[fc], env[sc], env[W]))[:2]:
                    bad.append("with the costs %s and a new edge of cost %s the two best become %s" % ((env[fc], env[sc]), env[W], got))
                    break
        if not bad:
            good = order
            break
        firstbad = bad if order is slots else firstbad
    if good is None:
        if hz:
            ck.ob("undecided", "onetree-cheapest", where, firstbad[0])
        else:
            ck.require(False, "onetree-cheapest", where, firstbad[0])
        return
    ck.ob("ok", "onetree-cheapest", where)
    (ft, fc), (st_, sc) = good
    # which of them are used at the end
    use = sorted(good.index(x) for x in s2)
    fs = FS(facts)
    none = none_found(facts, st_, ev_init(L, st_), ds)
    if use == [0, 1]:
        ck.require(none is False or fs(lt(I(2), ds[0])) is True or fs(lt(I(2), ds[1])) is True, "onetree-two-vertices", where,
                   "with two vertices the second edge is missing", tuple(facts), key="onetree-two-vertices")
    elif use == [0, 0]:
        ck.require(none is True, "onetree-second", where, "the cheapest edge is used twice under %s" % [pp(f)[:100] for f in facts], tuple(facts))
    else:
        ck.require(False, "onetree-second", where, "the second cheapest edge is used twice")


def none_found(facts, st_, ini, ds):
    """do the facts say that there was (True) or was not (False) no second edge?"""
    fs = FS(facts)
    r = fs(ieq(st_, ini)) if not (ini.op == "agg") else None
    if r is not None:
        return r
    for d in ds:
        for c, v in ((ieq(d, I(2)), True), (le(d, I(2)), True), (lt(d, I(3)), True)):
            x = fs(c)
            if x is not None:
                return x
    return None


def getpath_phi(t, phis):
    while t.op in ("fld", "dc") and t not in phis:
        t = t.a[0]
    return t in phis


def subst_paths(x, m):
    return subst(x, m)


def ev_init(L, t):
    return subst(t, {ph: L.init[k] for k, ph in L.phi.items()})


def all_slots(L, pairs):
    """the (to, cost) pairs among the state variables: those selected at the end and those they come from"""
    slots = list(pairs)
    flat = [x for ph in L.phi.values() for x in (ph, T("fld", ph, 0), T("fld", ph, 1))]
    for q in L.backs:
        m = {ph: getpath(q.st.mem[k[0]], k[1]) for k, ph in L.phi.items()}
        for t, c in pairs:
            ts = [x for x in flat if resolve(subst(x, m)) is t and x is not t]
            cs = [x for x in flat if resolve(subst(x, m)) is c and x is not c]
            for x, y in zip(ts, cs):
                if (x, y) not in slots:
                    slots.append((x, y))
    known = {x for s in slots for x in s}
    ch = True
    while ch and len(slots) < 4:
        ch = False
        for q in L.backs:
            m = {ph: getpath(q.st.mem[k[0]], k[1]) for k, ph in L.phi.items()}
            for t, c in list(slots):
                t2, c2 = subst(t, m), subst(c, m)
                phis = set(L.phi.values())
                if getpath_phi(t2, phis) and getpath_phi(c2, phis) and (t2, c2) not in slots:
                    slots.append((t2, c2))
                    ch = True
    return slots


# ---------------------------------------------------------------- one-tree lower bound
def bound(ck, config):
    bs = [b for b in bodies(config, "one_tree_lower_bound")]
    ck.require(bool(bs), "anchor", "one_tree::one_tree_lower_bound", "the public function is gone")
    for b in bs:
        mode = [a for a in b["args"] if a in ("0", "1", "2")]
        if not mode:
            continue
        where = nice(b) + ("" if config == "default" else " [mpi]")
        e, paths, why = run("best" + config, lambda: engine(config, own={b["id"]}), b)
        ck.engines.append(e)
        if paths is None:
            ck.ob("undecided", "bound-analysis", where, why)
            continue
        mpi = mode[0] == "2"
        if mpi and config == "default":
            continue
        (bound_mpi if mpi else bound_local)(ck, where, paths)


def tree_weight(G, k):
    t = T("call", "one_tree", G, k)
    return (fmul(F(0.5), T("call", "directed_edge_weight", t)),)


def bound_local(ck, where, paths):
    G = T("sym", "*p0")
    ck = SM.ModelCk(ck, lambda: bound_models(paths))
    n = 0
    for p in paths:
        if FS(p.facts).dead:
            continue
        n += 1
        max_over(ck, where, p.ret, G, None)
    if not paths:
        ck.require(False, "bound-result", where, "the function never returns a bound")


def max_over(ck, where, r, G, mpi):
    if r.op != "argopt":
        ck.require(False, "bound-max", where, "the bound is %s" % pp(r)[:300], (r, T("unk", "shape")) if not any(x.op == "call" for x in subterms(r)) or r.op in ("fmax2", "fold") else (r,))
        return
    b = Best(r)
    ck.require(b.kind == "max", "bound-max", where, "the bound is the smallest of the one-tree weights", (r,))
    ck.require(b.ini in (NONE_, NINF, F0), "bound-max", where, "the search for the largest one-tree starts with %s" % pp(b.ini), (b.ini,))
    share = mpi and b.conds is not None and len(b.conds) == 1 and b.conds[0] is ieq(rem(b.k, SIZE), RANK)
    if b.key is None or (b.conds and not share):
        ck.ob("undecided", "bound-max", where, "the bound is %s" % pp(r)[:300])
        return
    if mpi and not share:
        v = vertex_of(b.key)
        strided(ck, "bound-all", where, b.N, v, b.k, dims(G), ())
        ok = v is not None and b.key in tree_weight(G, v)
    else:
        ck.require(covers(b.N, dims(G)), "bound-all", where, "only the one-trees of %s vertices count" % pp(b.N)[:100], (b.N,))
        ok = b.key in tree_weight(G, b.k)
    ck.require(ok and b.pay is b.key, "bound-weight", where, "the value compared is %s, the result %s" % (pp(b.key)[:150], pp(b.pay)[:150]), (b.key, b.pay))


def vertex_of(t):
    for x in subterms(t):
        if x.op == "call" and x.a[0] in ("one_tree", "single_nearest_neighbour"):
            return x.a[2]
    return None


def strided(ck, rule, where, N, v, k, ds, facts):
    """the local index sets of all ranks cover all vertices (strided or telescoping blocks)"""
    if v is None:
        ck.ob("undecided", rule, where, "no vertex recognised")
        return None
    step = sub(subst(v, {k: add(k, I(1))}), v)
    start = subst(v, {k: I(0)})
    if step is SIZE or step is I(1):
        return (start, step, N)
    ck.require(False, rule, where, "the vertices of a process are %s" % pp(v)[:150], (v,))
    return None


def rem_div(n, s, facts=()):
    """n = s * (n / s) + n % s"""
    r = rem(n, s)
    if FS(facts)(eq0(r)) is True:
        r = I(0)
    return add(mul(s, div(n, s)), r)


def ranks_cover(ck, rule, where, parts, ds):
    """parts: [(facts, start, step, N)], one per case of a process; do the index sets of all processes cover 0..n?"""
    d = None
    for f, s, st, N in parts:
        for x in (N,) + (s,):
            for y in subterms(x):
                if y in ds:
                    d = y
    if d is None:
        d = ds[1]
    if all(st is SIZE for f, s, st, N in parts):
        for f, s, st, N in parts:
            ceil = div(add(sub(d, s), sub(SIZE, I(1))), SIZE)
            okn = N is ceil or FS(f)(le(ceil, I(0))) is True and FS(f)(le(N, I(0))) is True
            ck.require(s is RANK and okn, rule, where, "a process looks at %s vertices from %s on with the step %s" % (pp(N)[:100], pp(s)[:60], pp(st)), (s, N))
        return
    if not all(st is I(1) for f, s, st, N in parts):
        ck.ob("undecided", rule, where, "mixed distributions")
        return
    # blocks: the first one starts at 0, each ends where the next one starts, the last one ends at n
    NXT = lambda t: subst(t, {RANK: add(RANK, I(1))})
    allowed = {RANK, SIZE, d, div(d, SIZE), rem(d, SIZE)}
    ground = lambda t: all(x in allowed or x.op in ("int", "lin") or any(x in set(subterms(y)) for y in allowed) for x in subterms(t))
    starts = {s for f, s, st, N in parts}
    s0 = {norm_div(subst(s, {RANK: I(0)}), d, ()) for s in starts}
    ck.require(s0 == {I(0)}, rule, where, "the first process starts at vertex %s" % [pp(x)[:60] for x in s0], tuple(x if ground(x) else T("unk", "s") for x in s0))
    for f, s, st, N in parts:
        fs = FS(f)
        end = add(s, N)
        last = fs(ieq(RANK, sub(SIZE, I(1))))
        empty = fs(le(N, I(0))) is True
        if last is not False:
            # as the last process
            f2 = tuple(subst(x, {RANK: sub(SIZE, I(1))}) for x in f)
            if FS(f2).dead:
                continue
            x = norm_div(sub(subst(end, {RANK: sub(SIZE, I(1))}), d), d, f2)
            if empty:
                # an empty last block is fine iff its start is not in front of n
                y0 = sub(subst(s, {RANK: sub(SIZE, I(1))}), d)
                if FS(f2)(ge0(y0)) is True:
                    ck.ob("ok", rule, where)
                    continue
                y = norm_div(y0, d, f2)
                okl = FS(f2)(ge0(y)) is True or y is I(0) or zero_block(y, f2, d)
                ck.require(okl or not ground(y), rule, where, "the last process may look at nothing although vertices are left", (y if ground(y) else T("unk", "y"),)) if not okl else ck.ob("ok", rule, where)
            else:
                ck.require(const_int(x) is not None and const_int(x) >= 0, rule, where, "the last process stops %s before the last vertex" % pp(neg(x))[:100], (x if ground(x) else T("unk", "x"),))
        if last is not True:
            nxt = {norm_div(sub(end, NXT(s2)), d, f) for s2 in starts}
            okn = all(const_int(x) is not None and const_int(x) >= 0 for x in nxt)
            if empty and not okn:
                nx2 = {norm_div(sub(s, NXT(s2)), d, f) for s2 in starts}
                okn = all(FS(f)(ge0(x)) is True for x in nx2)
            ck.require(okn, rule, where, "a gap between the vertices of two processes: %s" % [pp(x)[:100] for x in nxt], tuple(x if ground(x) else T("unk", "x") for x in nxt))


def zero_block(y, facts, d):
    """size*q - q <= ... : start of the last block when all blocks are empty"""
    fs = FS(facts)
    q = div(d, SIZE)
    if fs(le(q, I(0))) is True:
        # q = 0: everything is in the remainder
        y0 = subst(y, {q: I(0)})
        return fs(ge0(y0)) is True or const_int(y0) == 0
    return False


def norm_div(t, d, facts):
    """replace n by size * (n / size) + n % size"""
    q, r = div(d, SIZE), rem(d, SIZE)
    if q not in set(subterms(t)) and r not in set(subterms(t)):
        return t
    Q, R = T("sym", "quotient"), T("sym", "remainder")
    t2 = subst(t, {q: Q, r: R})
    t2 = subst(t2, {d: add(mul(SIZE, Q), R)})
    if FS(facts)(eq0(r)) is True:
        t2 = subst(t2, {R: I(0)})
    return subst(t2, {Q: q, R: r})


def nothing_to_do(ds):
    from terms import exists
    k = T("k", "nothing")
    return [exists(d, [ieq(rem(k, SIZE), RANK)], k) for d in ds]


def bound_mpi(ck, where, paths):
    G = T("sym", "*p0")
    ds = dims(G)
    parts = []
    seen = {}
    for p in paths:
        fs = FS(p.facts)
        if fs.dead:
            continue
        red = [x for x in walk(p.ev) if x.kind == "mpi" and x.name in ("reduce_into_root", "reduce_into", "all_reduce_into")]
        if len(red) != 1:
            ck.require(False, "bound-reduce", where, "%d reductions on a path" % len(red))
            continue
        x = red[0]
        root = fs(ieq(RANK, I(0)))
        seen.setdefault(x.name, []).append(root)
        ck.require(x.name == "all_reduce_into" or x.args[0] is T("proc", I(0)), "bound-reduce", where, "the bounds are reduced at %s" % pp(x.args[0]), (x.args[0],))
        op = x.args[-1]
        ck.require(op is T("mpiop", "max"), "bound-reduce", where, "the bounds of the processes are combined with %s" % pp(op)[:100], (op,))
        if x.name != "all_reduce_into":
            ck.require((x.name == "reduce_into_root") == root, "bound-reduce", where, "%s is called where rank %s 0" % (x.name, "==" if root else "!="), () if root is not None else (T("unk", "r"),))
        if x.name != "reduce_into":
            ck.require(p.ret is x.ret, "bound-result", where, "the result is not the reduced bound: %s" % pp(p.ret)[:200], (p.ret,))
        loc = x.args[1]
        if loc is NINF:
            # nothing to do for this process: decided by the number of vertices
            Ns = [y.x["loop"].N for y in loops(p.ev) if y.x["loop"].N is not None]
            none = [N for N in Ns if fs(le(N, I(0))) is True] + [f for f in p.facts if f.op == "not" and f.a[0] in nothing_to_do(ds)]
            ck.require(bool(none), "bound-local", where, "a process contributes nothing under %s" % [pp(f)[:100] for f in p.facts], p.facts)
            continue
        max_over(ck, where, loc, G, True)
        if loc.op == "argopt":
            b = Best(loc)
            if b.conds and b.conds[0] is ieq(rem(b.k, SIZE), RANK):
                continue  # every vertex is looked at by the process with the number (vertex mod size)
            v = vertex_of(b.key) if b.key is not None else None
            r = strided(ck, "bound-all", where, b.N, v, b.k, ds, p.facts)
            if r:
                parts.append((p.facts,) + r)
    if parts:
        ranks_cover(ck, "bound-all", where, parts, ds)
    elif not any(o["where"] == where and (o["status"] != "ok" or o["rule"] == "bound-weight") for o in ck.obs):
        ck.require(False, "bound-all", where, "no process looks at any vertex")


# ---------------------------------------------------------------- nearest neighbour
def single(ck, config="default"):
    bs = bodies(config, "single_nearest_neighbour")
    ck.require(bool(bs), "anchor", "nearest_neighbour::single_nearest_neighbour", "the public function is gone")
    for b in bs:
        single1(ck, config, b)


def single1(ck, config, body):
    where = nice(body)
    e, paths, why = run("best" + config, lambda: engine(config, own={body["id"]}), body)
    ck.engines.append(e)
    if paths is None:
        ck.ob("undecided", "nn-analysis", where, why)
        return
    ck = SM.ModelCk(ck, lambda: nn_models(paths))
    G, START = T("sym", "*p0"), T("sym", "p1")
    ds = dims(G)
    w = lambda a, b: [idx2(m, x, y) for m in (G, fld(G, 0)) for x, y in ((a, b), (b, a))]
    n = 0
    for p in paths:
        if FS(p.facts).dead:
            continue
        r = p.ret
        if r.op != "agg" or len(r.a) != 4:
            ck.ob("undecided", "nn-result", where, "the result is %s" % pp(r)[:200])
            continue
        cost, path = r.a[2], r.a[3]
        main = []
        for l in loops(p.ev):
            L = l.x["loop"]
            pt = unfinal(path, l)
            if pt in L.phi.values():
                main.append((l, pt))
        if len(main) != 1:
            triv = path.op == "push" and path.a[0] is SEQ0 or path.op == "array"
            one = triv and any(FS(p.facts)(le(d, I(1))) is True for d in ds)
            if not one:
                ck.ob("undecided", "nn-analysis", where, "%d loops build the tour %s" % (len(main), pp(path)[:150]))
            continue
        n += 1
        l, P = main[0]
        L = l.x["loop"]
        inv = {ph: k for k, ph in L.phi.items()}
        ini = lambda t: subst(t, {ph: L.init[k] for ph, k in inv.items()})
        cst = unfinal(cost, l)
        # cost at the end = accumulated cost + closing edge
        parts = sum_parts(cst)
        D = [x for x in parts if x in inv]
        rest = msub(parts, D[:1])
        pi = ini(P)
        ck.require(length(pi) is I(1) and idx(pi, I(0)) is START, "nn-start", where, "the tour starts as %s" % pp(pi)[:100], (pi,))
        if len(D) != 1 or len(rest) != 1:
            # evaluated afterwards?
            if cst.op == "call" and cst.a[0] == "evaluate_circle":
                ck.require(cst.a[-1] is P and cst.a[1] in (G, fld(G, 0)), "nn-cost", where, "the cost is %s" % pp(cst)[:200], (cst,))
            else:
                ck.require(False, "nn-closing", where, "the cost of the tour is %s" % pp(cst)[:200], (cst,) if len(D) == 1 else (cst, T("unk", "c")))
            continue
        D = D[0]
        ck.require(ini(D) is F0, "nn-cost-start", where, "the cost starts with %s" % pp(ini(D))[:60], (ini(D),))
        # the position of the tour: a state variable or the last element of the path
        exact_len = [x for x in ds]
        for q in L.backs:
            m = {ph: getpath(q.st.mem[k[0]], k[1]) for ph, k in inv.items()}
            p2, d2 = m[P], m[D]
            if p2.op != "push" or p2.a[0] is not P:
                ck.require(False, "nn-step", where, "the tour becomes %s" % pp(p2)[:200], (p2,))
                continue
            nb = p2.a[1]
            inc = msub(sum_parts(d2), [D])
            inc = inc[0] if inc is not None and len(inc) == 1 else None
            sc = nb.a[0] if nb.op in ("dc", "fld") else nb
            while sc.op in ("dc", "fld"):
                sc = sc.a[0]
            if sc.op != "argopt":
                ck.ob("undecided", "nn-choice", where, "the next vertex is %s" % pp(nb)[:200])
                continue
            b = Best(sc)
            ck.require(b.kind == "min", "nn-choice", where, "the farthest vertex is chosen", (sc,))
            ck.require(covers(b.N, ds), "nn-choice", where, "only %s vertices are candidates" % pp(b.N)[:100], (b.N,))
            if b.key is None:
                ck.ob("undecided", "nn-choice", where, "several kinds of candidates: %s" % pp(sc)[:200])
                continue
            # the vertex is the scanned one
            nk = nb
            vv = subst(nb, {sc: b.pay})
            vv = resolve(vv)
            ck.require(vv is b.k, "nn-choice", where, "the next vertex is %s for the cheapest candidate k" % pp(vv)[:100], (vv,))
            ck.require(b.ini in (INF, NONE_), "nn-choice", where, "the search for the nearest vertex starts with the distance %s" % pp(b.ini), (b.ini,))
            # key: distance from the current vertex
            cur = [x for x in list(inv) + [idx(P, sub(length(P), I(1)))] if b.key in w(x, b.k)]
            if len(cur) != 1:
                ck.require(False, "nn-distance", where, "candidates are compared by %s" % pp(b.key)[:150], (b.key,))
                continue
            cur = cur[0]
            if cur in inv:
                ck.require(ini(cur) is START, "nn-distance", where, "the search starts at %s" % pp(ini(cur))[:60], (ini(cur),))
                ck.require(m[cur] is nb, "nn-distance", where, "the position becomes %s" % pp(m[cur])[:100], (m[cur],))
            # candidates: exactly the unvisited vertices
            used = [c for c in b.conds if not (c.op == "flt_" and INF in c.a)]
            if len(used) != 1:
                ck.require(False, "nn-unvisited", where, "the candidates are the vertices with %s" % [pp(c)[:80] for c in b.conds], tuple(b.conds))
            else:
                unvisited(ck, where, used[0], b.k, inv, ini, m, P, START, nb, ds)
            # cost of the step
            okc = inc is not None and (inc in w(cur, nb) or inc.op == "argopt" and Best(inc).cs and same_choice(Best(inc), b) and Best(inc).pay is b.key)
            ck.require(okc, "nn-cost", where, "the cost of the step is %s" % pp(inc if inc is not None else d2)[:200], (d2,))
        # closing edge
        cl = rest[0]
        lasts = [x for x in inv if cl in w(x, START)] or ([1] if cl in w(idx(P, sub(length(P), I(1))), START) or cl in w(idx(P, sub(length(P), I(1))), idx(P, I(0))) else [])
        ck.require(bool(lasts), "nn-closing", where, "the closing edge costs %s" % pp(cl)[:150], (cl,))
        # number of steps
        okn = L.N is not None and any(cdiff(L.N, d) == -1 for d in ds)
        if okn:
            ck.ob("ok", "nn-all", where)
        else:
            ends = [FS(unfacts(q.facts, {})) for q in L.exits]
            okx = all(any(f(le(d, length(P))) is True for d in ds) for f in ends) if ends else False
            ck.require(okx, "nn-all", where, "the tour stops after %s steps" % (pp(L.N)[:100] if L.N is not None else "an unknown number of"), (L.N,) if L.N is not None else (T("unk", "n"),))
    if not n and not any(o["where"] == where and o["status"] != "ok" for o in ck.obs):
        ck.ob("undecided", "nn-analysis", where, "no loop builds the tour")


def unfacts(f, m):
    return f


def resolve(t):
    """simplify dc/fld of aggregates"""
    if t.op == "dc":
        return dc(resolve(t.a[0]), t.a[1])
    if t.op == "fld":
        return fld(resolve(t.a[0]), t.a[1])
    return t


def same_choice(a, b):
    return a.kind == b.kind and a.N is b.N and a.tie == b.tie and a.conds == b.conds and a.key is b.key


def unvisited(ck, where, c, k, inv, ini, m, P, START, nb, ds):
    """the condition c on a candidate k says that it is not in the tour"""
    neg_ = nt(c)
    # the tour itself is searched
    if neg_ is contains(P, k):
        ck.ob("ok", "nn-unvisited", where)
        return
    st = [ph for ph in inv if ph in set(subterms(c))]
    if len(st) != 1:
        ck.ob("undecided", "nn-unvisited", where, "the candidates are the vertices with %s" % pp(c)[:150])
        return
    V = st[0]
    at = lambda vt, kk: subst(subst(c, {V: vt}), {k: kk})
    i0 = ini(V)
    a = at(i0, START)
    j = T("k", "nn_j")
    # all others are candidates at the start
    other = at(base_of(i0), j) if base_of(i0) is not None else None
    ck.require(a is FALSE, "nn-unvisited", where, "the start vertex counts as visited: %s" % pp(a)[:100], (a,))
    if other is not None:
        ck.require(other is TRUE, "nn-unvisited", where, "a vertex is a candidate at the start if %s" % pp(other)[:100], (other,))
    else:
        ck.ob("undecided", "nn-unvisited", where, "visited vertices start as %s" % pp(i0)[:150])
    v2 = m[V]
    b = at(v2, nb)
    ck.require(b is FALSE, "nn-visited", where, "the vertex added to the tour stays a candidate: %s" % pp(v2)[:150], (v2,))
    ck.require(only_changes(v2, V, nb), "nn-visited", where, "the set of candidates becomes %s" % pp(v2)[:150], (v2,))


def base_of(t):
    while t.op in ("upd", "setins"):
        t = t.a[0]
    if t.op == "setof" and t.a[0].op == "push":
        return T("map0")
    return t if t.op in ("rep", "map0", "map") else None


def only_changes(v2, V, nb):
    return v2.op in ("upd", "setins") and v2.a[0] is V and v2.a[1] is nb


def many(ck, config):
    for name in ("n_nearest_neighbour", "nearest_neighbour"):
        bs = bodies(config, name)
        ck.require(bool(bs), "anchor", "nearest_neighbour::" + name, "the public function is gone")
        for b in bs:
            mode = [a for a in b["args"] if a in ("0", "1", "2")]
            if not mode or mode[0] == "2" and config == "default":
                continue
            where = nice(b) + ("" if config == "default" else " [mpi]")
            e, paths, why = run("best" + config, lambda: engine(config, own={b["id"]}), b)
            ck.engines.append(e)
            if paths is None:
                ck.ob("undecided", "nn-many", where, why)
                continue
            G = T("sym", "*p0")
            if mode[0] != "2":
                ck_ = SM.ModelCk(ck, lambda: starts_models(paths, name, mode[0]))
            else:
                ck_ = ck
            for p in paths:
                if FS(p.facts).dead:
                    continue
                r = p.ret
                if name == "nearest_neighbour":
                    okc = r.op == "call" and (r.a[0].startswith("n_nearest_neighbour::<%s>" % mode[0]) and r.a[1] is G and covers(r.a[2], dims(G)) or r.a[0] == "nearest_neighbour_mpi" and mode[0] == "2" and r.a[1] is G)
                    if not okc and r.op == "argopt":
                        best_start(ck_, where, r, G, None)
                    else:
                        ck_.require(okc, "nn-every-start", where, "not every start vertex is tried: %s" % pp(r)[:200], (r,))
                elif mode[0] == "2":
                    ck.require(r is T("call", "nearest_neighbour_mpi", G), "nn-mpi", where, "the MPI variant returns %s" % pp(r)[:200], (r,))
                else:
                    best_start(ck_, where, r, G, T("sym", "p1"))


def best_start(ck, where, r, G, n):
    """cheapest tour over n distinct start vertices"""
    if r.op != "argopt":
        ck.ob("undecided", "nn-best", where, "the result is %s" % pp(r)[:200])
        return
    b = Best(r)
    ck.require(b.kind == "min", "nn-best", where, "the most expensive tour is returned", (r,))
    if b.key is None or b.conds:
        ck.ob("undecided", "nn-best", where, "the result is %s" % pp(r)[:200])
        return
    v = vertex_of(b.key)
    call = T("call", "single_nearest_neighbour", G, v) if v is not None else None
    ck.require(call is not None and b.key is fld(call, 0) and (b.pay is call or b.pay is tup(fld(call, 0), fld(call, 1))), "nn-best", where,
               "the tours are compared by %s, the result is %s" % (pp(b.key)[:120], pp(b.pay)[:120]), (b.key, b.pay))
    ck.require(b.ini in (NONE_, INF), "nn-best", where, "the search starts with %s" % pp(b.ini), (b.ini,))
    if v is None:
        return
    if n is None:
        ck.require(covers(b.N, dims(G)) and v is b.k, "nn-every-start", where, "only the starts %s for k < %s are tried" % (pp(v)[:80], pp(b.N)[:80]), (b.N, v))
        return
    ck.require(b.N is n, "nn-starts", where, "%s starts are tried instead of n" % pp(b.N)[:100], (b.N,))
    # distinct: an entry of a shuffled range
    seq = v.a[0] if v.op == "idx" and v.a[1] is b.k else None
    if v is b.k:
        ck.ob("ok", "nn-distinct", where)
    elif seq is not None:
        s = seq
        while s.op in ("shuffled", "sub", "swap", "rev"):
            s = s.a[0]
        k = T("k", "nn_s")
        ok = s.op == "map" and subst_bv(s.a[1], k) is k and covers(s.a[0], dims(G))
        ck.require(ok, "nn-distinct", where, "the start vertices are taken from %s" % pp(s)[:150], (s,))
    else:
        ck.require(False, "nn-distinct", where, "the start vertices are %s" % pp(v)[:150], (v, T("unk", "v")))


def reduce_op(config, clo):
    """cases of a reduction operator given as a closure: [(facts, x, y, new y)] of the first elements, or None"""
    while clo.op == "cast" or clo.op == "ref":
        clo = clo.a[0]
    if clo.op != "agg" or not str(clo.a[0]).startswith("closure:"):
        return None
    b = prog(config).bodies.get(clo.a[0][len("closure:"):])
    if b is None:
        return None
    e, paths, why = run("op" + config, lambda: engine(config, own={b["id"]}), b)
    if paths is None:
        return None
    X, Y = T("deref", T("buf", T("sym", "p1"))), T("deref", T("buf", T("sym", "p2")))
    out = []
    for p in paths:
        if FS(p.facts).dead:
            continue
        yv = Y
        for r, v in p.st.mem.items():
            if r.op == "vroot" and r.a[0] is T("buf", T("sym", "p2")):
                yv = v
        out.append((p.facts, idx(X, I(0)), idx(Y, I(0)), idx(yv, I(0))))
    return out, e


def min_rank_op(ck, config, where, op):
    """the operator keeps the smaller (cost, rank) pair"""
    c = op.a[1] if op.op == "mpiop" and len(op.a) > 1 else None
    r = reduce_op(config, c) if c is not None else None
    if r is None:
        ck.require(False, "nn-mpi-op", where, "the processes' results are combined with %s" % pp(op)[:100], () if op.op == "mpiop" and len(op.a) == 1 else (T("unk", "op"),))
        return
    cs, e = r
    ck.engines.append(e)
    for facts, x, y, y2 in cs:
        cx, rx, cy, ry = fld(x, 0), fld(x, 1), fld(y, 0), fld(y, 1)
        n2 = (fld(y2, 0), fld(y2, 1))
        if n2 not in ((cx, rx), (cy, ry)):
            ck.require(False, "nn-mpi-op", where, "the combined result is %s" % pp(y2)[:150], (y2,))
            continue
        for env in assignments([((cx, cy), (0.0, 1.0)), ((rx, ry), (0, 1))]):
            if rx is not ry and (env[rx] == env[ry]):
                continue
            if not possible(facts, env):
                continue
            want = min((env[cx], env[rx]), (env[cy], env[ry]))
            got = (env[n2[0]], env[n2[1]])
            if got[0] != want[0]:
                ck.require(False, "nn-mpi-op", where, "of the costs %s and %s the result keeps %s" % (env[cx], env[cy], got[0]), tuple(n2))
                break
            if got != want:
                ck.require(False, "nn-mpi-op", where, "the combination is not commutative: of %s and %s it keeps %s" % ((env[cx], env[rx]), (env[cy], env[ry]), got), tuple(n2), key="nn-mpi-op-tie")
                break
        else:
            ck.ob("ok", "nn-mpi-op", where)


def nn_mpi(ck):
    config = "mpi"
    bs = bodies(config, "nearest_neighbour_mpi")
    ck.require(bool(bs), "anchor", "nearest_neighbour::nearest_neighbour_mpi", "the public function is gone")
    G = T("sym", "*p0")
    ds = dims(G)
    for b in bs:
        where = nice(b)
        e, paths, why = run("best" + config, lambda: engine(config, own={b["id"]}), b)
        ck.engines.append(e)
        if paths is None:
            ck.ob("undecided", "nn-mpi", where, why)
            continue
        parts = []
        if collectives(ck, "nn-mpi-collective", where, paths) is False:
            continue
        for p in paths:
            fs = FS(p.facts)
            if fs.dead:
                continue
            mp = [x for x in walk(p.ev) if x.kind == "mpi" and x.name != "initialize"]
            if [x.name for x in mp] != ["all_reduce_into", "broadcast_into"]:
                ck.ob("undecided", "nn-mpi", where, "the processes communicate by %s" % [x.name for x in mp])
                continue
            red, bc = mp
            snd = red.args[1]
            lc, lr = fld(snd, 0), fld(snd, 1)
            ck.require(lr is RANK, "nn-mpi-rank", where, "a process takes part as rank %s" % pp(lr)[:60], (lr,))
            min_rank_op(ck, config, where, red.args[-1])
            res = red.ret
            ck.require(bc.args[0] is T("proc", fld(res, 1)), "nn-mpi-winner", where, "the tour is sent by %s and not by the winner" % pp(bc.args[0])[:100], (bc.args[0],))
            r = p.ret
            ok = r.op == "agg" and len(r.a) == 4 and r.a[2] is fld(res, 0) and (r.a[3] is bc.ret)
            ck.require(ok, "nn-mpi-result", where, "the result is %s" % pp(r)[:300], (r,))
            path = bc.ret.a[3] if bc.ret is not None and bc.ret.op == "bcast" else None
            if path is None:
                ck.ob("undecided", "nn-mpi-tour", where, "no buffer")
                continue
            if lc is INF:
                Ns = [y.x["loop"].N for y in loops(p.ev) if y.x["loop"].N is not None]
                none = [N for N in Ns if fs(le(N, I(0))) is True]
                ck.require(bool(none), "nn-mpi-local", where, "a process contributes nothing under %s" % [pp(f)[:100] for f in p.facts], p.facts)
                ck.require(any(length(path) is d for d in ds), "nn-mpi-buffer", where, "a process without a tour receives one of length %s" % pp(length(path))[:80], (length(path),))
                for y in loops(p.ev):
                    q = [z for z in walk(y.x["loop"].backs[0].ev)] if y.x["loop"].backs else []
                    vs = [z.args[1] for z in q if z.kind == "call" and z.name.startswith("single_nearest")]
                    if vs:
                        kk = T("k", "best_k")
                        rr = strided(ck, "nn-mpi-all", where, y.x["loop"].N, subst(vs[0], {y.x["loop"].K: kk}), kk, ds, p.facts)
                        if rr:
                            parts.append((p.facts,) + rr)
                continue
            if lc.op != "argopt" or path.op != "argopt":
                ck.ob("undecided", "nn-mpi-local", where, "the local result is %s" % pp(lc)[:150])
                continue
            b1, b2 = Best(lc), Best(path)
            v = vertex_of(b1.key) if b1.key is not None else None
            call = T("call", "single_nearest_neighbour", G, v) if v is not None else None
            ck.require(call is not None and b1.kind == "min" and b1.key is fld(call, 0) and b1.pay is b1.key, "nn-mpi-local", where, "the local cost is %s" % pp(lc)[:200], (lc,))
            ck.require(call is not None and same_choice(b1, b2) and b2.pay is fld(call, 1), "nn-mpi-tour", where, "the local tour is %s" % pp(path)[:200], (path,))
            rr = strided(ck, "nn-mpi-all", where, b1.N, v, b1.k, ds, p.facts)
            if rr:
                parts.append((p.facts,) + rr)
        if parts:
            ranks_cover(ck, "nn-mpi-all", where, parts, ds)


# ---------------------------------------------------------------- countermodels
def sizes(paths, lo, hi=5, most=40):
    """small sizes and those around the constants of the function; interesting costs"""
    floats = set()
    cs = RS.consts_of(paths, floats, most)
    out = list(range(lo, hi + 1)) + sorted({c + d for c in cs for d in (-1, 0, 1, 2) if hi < c + d <= most + 2})[:12]
    return out, sorted(f for f in floats if math.isfinite(f) and 0 < abs(f) < 1e12)[:4]


def matrices(paths, lo, hi=5, most=40):
    ns, fl = sizes(paths, lo, hi, most)
    for n in ns:
        for k in (0, 1, 2, 4, 6, 7, 8) if n <= hi else (1, 0, 6) if n < 16 else (0,):
            yield RS.weights_for(n, k)
    yield [[0.5 if i == j else x + 1.0 for j, x in enumerate(r)] for i, r in enumerate(RS.weights_for(4, 0))]      # a diagonal which is not 0
    for f in fl:
        for n in (3, 4):
            yield [[0.0 if i == j else f + (-0.5, 0.0, 0.5, 1.5)[(i + j + i * j) % 4] for j in range(n)] for i in range(n)]


def name(rows):
    return "the matrix %s" % ([list(r) for r in rows],) if len(rows) <= 5 else "a matrix of %d vertices" % len(rows)


def run_models(paths, envs, wrong, ev=SM.Ev, rounds=None):
    """envs yields (env, calls, context, shown); wrong(value, context) -> text or None"""
    n, hz = 0, None
    for env, calls, cx, shown in envs:
        r = SM.outcome(paths, env, lambda p, e: e.val(p.ret), calls, ev, rounds(cx) if rounds else 8, True)
        if r[0] == "hazy":
            hz = r[1]
            continue
        if r[0] == "none":
            return "for %s there is no result" % shown, n, hz
        try:
            w = wrong(r[1], cx)
        except SM.Hazy as x:
            hz = "%s" % x
            continue
        n += 1
        if w:
            return "for %s %s" % (shown, w), n, hz
    return None, n, hz


def lists_of(v):
    """adjacency lists of a graph value"""
    import rules_mst as RM
    return RM.tree_of(v, 0)


def path_of(rows, vs):
    """some tree of the vertices vs"""
    out = [[] for _ in rows]
    for a, b in zip(vs, vs[1:]):
        out[a].append((b, rows[a][b]))
        out[b].append((a, rows[a][b]))
    return out


def one_tree_models(paths):
    G, S = T("sym", "*p0"), T("sym", "p1")

    def envs():
        for rows in matrices(paths, 2):
            n = len(rows)
            for s in range(n) if n < 6 else (0, n // 2, n - 1):
                base = path_of(rows, [v for v in range(n) if v != s])

                def mst(m, ex, rows=rows):
                    ls = path_of(rows, [v for v in range(len(rows)) if v not in ex])
                    return SM.A(0, tuple(SM.A(0, tuple(SM.A(0, t, c) for t, c in l)) for l in ls))
                yield {G: SM.A(0, SM.M(rows)), S: s}, {"MST": mst}, (rows, s, base), "%s and the special vertex %d" % (name(rows), s)

    def wrong(v, cx):
        rows, s, base = cx
        got = lists_of(v)
        if len(got) != len(rows):
            return "the one-tree has %d vertices" % len(got)
        new = []
        for i, l in enumerate(got):
            l = list(l)
            for e in base[i]:
                if e not in l:
                    return "the edge %s of the tree is missing at vertex %d" % (e, i)
                l.remove(e)
            new += [(i, t, c) for t, c in l]
        mine = sorted(c for i, t, c in new if i == s)
        ws = sorted(rows[s][j] for j in range(len(rows)) if j != s)
        want = (ws * 2)[:2] if len(ws) == 1 else ws[:2]
        if len(mine) != 2 or not SM.close(tuple(mine), tuple(want)):
            return "the special vertex gets edges of the costs %s instead of %s" % (mine, want)
        ends = [t for i, t, c in new if i == s]
        if len(rows) > 2 and len(set(ends)) != 2:
            return "the special vertex is joined twice to %s" % ends[0]
        if sorted((s, t, c) for i, t, c in new if i == s) != sorted((t, i, c) for i, t, c in new if i != s) or any(abs(c - rows[s][t]) > 1e-9 or t == s for i, t, c in new if i == s):
            return "the edges added are %s" % new
        return None
    return run_models(paths, envs(), wrong)


def bound_models(paths):
    G = T("sym", "*p0")

    def envs():
        ns, fl = sizes(paths, 1, 6)
        big = {c + 1 for c in RS.consts_of(paths, top=1100) if c > 40}
        for n in ns + sorted(big)[-2:]:
            for at in range(n) if n < 8 else (n - 1, 0) if n in big else sorted({0, 1, n - 2, n - 1, n // 2} | set(range(n - 4, n))):
                for k in range(3) if n not in big else range(1):
                    f = (fl + [100.0])[0] if k == 2 else 100.0 if k else 100.1
                    ws = [(f if v == at else f - 1.1 - (v * 7 + at) % 5 * 0.5) if k != 1 else (3.0 if v == at else 0.0) for v in range(n)]
                    calls = {"one_tree": lambda m, v, n=n: SM.A("tree", v), "directed_edge_weight": lambda t, ws=ws: 2 * tw(ws, t), "undirected_edge_weight": lambda t, ws=ws: tw(ws, t)}
                    yield {G: SM.A(0, SM.M(RS.weights_for(n, 2) if n not in big else [[1.0] * n] * n))}, calls, ws, "one-trees of the weights %s" % (ws if n < 8 else "with the heaviest at vertex %d of %d" % (at, n))

    def tw(ws, t):
        if not isinstance(t, SM.A) or t.v != "tree":
            raise SM.Hazy("tree")
        if not 0 <= t.f[0] < len(ws):
            raise SM.Undef("vertex")
        return ws[t.f[0]]

    def wrong(v, ws):
        if not isinstance(v, (int, float)):
            raise SM.Hazy("bound")
        return None if SM.close(v, max(ws)) else "the bound is %g instead of %g" % (v, max(ws))
    return run_models(paths, envs(), wrong)


def pair_of(v):
    if not isinstance(v, SM.A) or len(v.f) != 2:
        raise SM.Hazy("result")
    p = v.f[1]
    while isinstance(p, SM.A) and len(p.f) == 1:
        p = p.f[0]
    if not isinstance(p, tuple):
        raise SM.Hazy("path")
    return v.f[0], p


def nn_models(paths):
    G, S = T("sym", "*p0"), T("sym", "p1")

    def ec(m, q):
        return RS.tour_cost(m, list(q))

    def envs():
        big = [RS.weights_for(c + 2, 6) for c in sorted(RS.consts_of(paths, top=260))[-2:] if c > 14]
        for rows in itertools.chain(matrices(paths, 1, 5, 14), big):
            n = len(rows)
            for s in range(n) if n < 6 else (0, n - 1) if n < 20 else (n - 1,):
                unm = lambda m: m.f[0].r if isinstance(m, SM.A) else m.r
                yield {G: SM.A(0, SM.M(rows)), S: s}, {"evaluate_circle": lambda m, q: ec(unm(m), q), "evaluate_path": lambda m, q: RS.path_cost(unm(m), q)}, (rows, s), "%s and the start %d" % (name(rows), s)

    def wrong(v, cx):
        rows, s = cx
        c, p = pair_of(v)
        if sorted(p) != list(range(len(rows))):
            return "the tour is %s" % (list(p),)
        if p[0] != s:
            return "the tour starts at %d" % p[0]
        for i in range(len(p) - 1):
            best = min(rows[p[i]][u] for u in range(len(rows)) if u not in p[:i + 1])
            if rows[p[i]][p[i + 1]] > best + 1e-9:
                return "the tour %s goes from %d to %d, which is not the nearest vertex" % (list(p), p[i], p[i + 1])
        w = ec(rows, p)
        return None if SM.close(float(c), float(w)) else "the tour %s costs %g instead of %g" % (list(p), c, w)
    return run_models(paths, envs(), wrong, rounds=lambda cx: len(cx[0]) + 2)


class StartsEv(SM.Ev):
    perm = staticmethod(lambda s: s)

    def o_shuffled(self, t, s, site):
        return self.perm(self.seq(s))


def starts_models(paths, fname, mode):
    G, K = T("sym", "*p0"), T("sym", "p1")

    def envs():
        ns, fl = sizes(paths, 1, 5)
        if fname == "n_nearest_neighbour":
            ns = sorted(set(ns) | {n for n in sizes(paths, 1, 5, 400)[0] if n > 90 and n % 3 == 0} | {c for c in RS.consts_of(paths, top=400) if c > 40})
        for n in ns:
            for at in range(n) if n < 8 else (0, n // 2, n - 1):
                for k, near in itertools.product([None] if fname == "nearest_neighbour" else range(1, n + 1) if n < 6 else (1, n - 1, n), (0, 1) if n < 6 else (0,)):
                    ws = [1.0 if v == at else 1.0 + 2.0 ** -26 * (1 + (v * 3 + at) % 4) if near else 2.0 + (v * 3 + at) % 4 for v in range(n)]
                    tried = []

                    def nn(m, v, ws=ws, tried=tried):
                        if not 0 <= v < len(ws):
                            raise SM.Undef("start")
                        tried.append(v)
                        return SM.A(0, ws[v], ("tour", v))

                    def many_(m, k2, ws=ws, tried=tried):
                        tried.extend(range(k2))
                        v = min(range(k2), key=lambda v: ws[v])
                        return SM.A(0, ws[v], ("tour", v))
                    env = {G: SM.A(0, SM.M(RS.weights_for(n, 2)))}
                    if k is not None:
                        env[K] = k
                    yield env, {"single_nearest_neighbour": nn, "n_nearest_neighbour": many_}, (ws, tried, n if k is None else k), "%d vertices%s, the best start being %d," % (n, "" if k is None else " and %d starts" % k, at)

    def wrong(v, cx):
        ws, tried, k = cx
        if not isinstance(v, SM.A) or len(v.f) != 2 or not isinstance(v.f[1], tuple) or v.f[1][:1] != ("tour",):
            raise SM.Hazy("result")
        t = set(tried)
        if len(t) != k:
            return "%d different starts are tried instead of %d" % (len(t), k)
        if v.f[0] != ws[v.f[1][1]]:
            return "the cost %g is not the cost %g of the tour" % (v.f[0], ws[v.f[1][1]])
        m = min(ws[x] for x in t)
        return None if v.f[0] == m else "the result costs %g, the tour from another start %g" % (v.f[0], m)
    res = None
    for perm in (lambda s: s[::-1], lambda s: s[1::2] + s[::2]):
        ev = type("Ev", (StartsEv,), {"perm": staticmethod(perm)})
        res = run_models(paths, envs(), wrong, ev)
        if res[0]:
            return res
    return res
