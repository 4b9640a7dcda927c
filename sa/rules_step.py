"""Countermodels for one step of a recursive search.

The engine has summarised the body of the search function: conditions on the prefix, the cost, the best tour and
the weights, under which a leaf is recorded or a recursive call is made.  Here these formulas (not the program)
are evaluated in small finite models of the state - a symmetric matrix, a prefix, its cost, the cost of the best
tour - and compared with what the step of a correct search has to do:

 * at a complete prefix the best tour becomes the better one of the two,
 * otherwise every unvisited vertex gets exactly a recursive call with the prefix extended by it and the cost
   increased by the weight of the edge to it, unless the cheapest completion is no better than the best tour.

A model in which the formulas say something else is the witness of the violation.
"""
import itertools, math
from lib import *
import small as SM
from small import A, M, S, Hazy, Undef

EPS = 1e-9


class Tree:
    __slots__ = ("w",)

    def __init__(self, w):
        self.w = w

    def __eq__(self, o):
        return isinstance(o, Tree) and self.w == o.w

    def __hash__(self):
        return hash(self.w)


def mst_weight(rows, excl):
    left = [i for i in range(len(rows)) if i not in excl]
    if not left:
        return 0.0
    inn, out, w = [left[0]], left[1:], 0.0
    while out:
        c, v = min((rows[a][b], b) for a in inn for b in out)
        w += c
        out.remove(v)
        inn.append(v)
    return w


def tour_cost(rows, p):
    return sum((rows[p[k]][p[(k + 1) % len(p)]] for k in range(len(p))), 0.0) if len(p) > 1 else (rows[p[0]][p[0]] if p else 0.0)


def path_cost(rows, p):
    return sum((rows[a][b] for a, b in zip(p, p[1:])), 0.0)


class Comp:
    """cheapest completions of prefixes (open vertices by subset recursion)"""

    def __init__(self, rows):
        self.r = rows
        self.m = {}

    def __call__(self, prefix):
        n = len(self.r)
        if not prefix:
            return min((self((v,)) for v in range(n)), default=0.0)
        opn = frozenset(range(n)) - frozenset(prefix)
        return path_cost(self.r, prefix) + self.rest(prefix[-1], prefix[0], opn)

    def rest(self, last, first, opn):
        if not opn:
            return self.r[last][first]
        k = (last, first, opn)
        if k not in self.m:
            self.m[k] = min(self.r[last][v] + self.rest(v, first, opn - {v}) for v in opn)
        return self.m[k]


def other(P, n):
    """a tour which is not P"""
    t = tuple(range(n))[::-1]
    return t if t != P else t[1:] + t[:1] if n > 1 else (0,)


class StepEv(SM.Ev):
    cache = None      # (key) -> largest value stored under it

    def graph(self, v):
        if isinstance(v, A) and len(v.f) == 1:
            v = v.f[0]
        if isinstance(v, M):
            return v.r
        if isinstance(v, tuple):
            return v
        raise Hazy("no graph")

    def o_len(self, t, s):
        v = self.val(s)
        if isinstance(v, M):
            return len(v.r)
        if not isinstance(v, tuple):
            raise Hazy("no sequence")
        return len(v)

    def o_idx(self, t, s, i):
        v = self.val(s)
        if isinstance(v, M):
            v = v.r
        return self.at(v, self.val(i))

    def o_call(self, t, name, *args):
        nm = name.split("::<")[0]
        if nm == "MST":
            g, ex = self.graph(self.val(args[0])), self.val(args[1])
            return Tree(mst_weight(g, set(ex)))
        if nm in ("directed_edge_weight", "undirected_edge_weight"):
            g = self.val(args[0])
            if not isinstance(g, Tree):
                raise Hazy("tree")
            return g.w * (2 if nm[0] == "d" else 1)
        l = nm.split("::")[-1]
        if l in ("evaluate_circle", "evaluate_path"):
            vs = [self.val(x) for x in args]
            g = self.graph(vs[0])
            return (tour_cost if l == "evaluate_circle" else path_cost)(g, vs[1])
        return super().o_call(t, name, *args)

    # keys of caches: two keys are equal if the same data were hashed
    def o_hasher0(self, t, *a): return ()
    def o_hash(self, t, h, x): return ("h", self.val(h), self.val(x))
    def o_hfin(self, t, h): return self.val(h)

    def o_sorted(self, t, s, *r):
        if r:
            raise Hazy("sort")
        return tuple(sorted(self.seq(s)))

    def o_cached(self, t, m, k, val):
        v, key = self.val(val), self.val(k)
        if self.cache is not None and key in self.cache:
            return max(v, self.cache[key])
        return v

    def o_maphas(self, t, s, x):
        v = self.env.get(s)
        if isinstance(v, frozenset):
            return self.val(x) in v
        self.val(x)
        return False

    def o_fmin(self, t, *a): return min(self.val(x) for x in a)


def weights_for(n, k):
    """the k-th weight function for n vertices"""
    def w(i, j):
        i, j = min(i, j), max(i, j)
        if i == j:
            return 0.0
        h = (i * 7 + j * 13 + k * 5 + (i * j) % 5 * 3) % 11
        if k == 0:
            return 1.0 + h
        if k == 1:
            return 0.25 * h if h % 3 else 0.0
        if k == 2:
            return 1.0
        if k == 3:
            return abs(i - j) * 2.5
        if k == 6:                                  # many different weights in no order
            return 0.5 + (i * 7919 + j * 104729 + i * j * 611953 + 37 * n) % 10007 / 17.0
        if k == 7:                                  # some below 0
            return 2.0 - h
        if k == 8:                                  # nearly equal
            return 5.0 + h * 2.0 ** -30
        if k == 5:
            return 60.0 if (i, j) in ((0, 1), (1, 3)) else 1.0
        return 0.0 if h < 4 else 40.5 + h
    return [[w(i, j) for j in range(n)] for i in range(n)]


def states(consts):
    """(matrix, prefix)"""
    for n in range(1, 6):
        for k in range(6 if n > 2 else 2):
            rows = weights_for(n, k)
            ps = [p for l in range(n + 1) for p in itertools.permutations(range(n), l)]
            if len(ps) > 70:
                # all short ones, and a sample of the long ones which differs between the matrices
                ps = [p for x, p in enumerate(ps) if len(p) < 2 or len(p) == 2 and (x + k) % 2 == 0 or x % 9 == k]
            for p in ps:
                yield rows, tuple(p)
    # edges of infinite weight
    for n in (2, 3, 4):
        for es in (((0, 1),), ((0, 2), (1, 2)), ((1, 3), (0, 3))):
            if max(map(max, es)) >= n:
                continue
            rows = weights_for(n, 0)
            for i, j in es:
                rows[i][j] = rows[j][i] = math.inf
            for x, p in enumerate(p for l in range(n + 1) for p in itertools.permutations(range(n), l)):
                if n < 4 or len(p) != 3 or x % 2:
                    yield rows, tuple(p)
    seen = set()
    for c in sorted(consts)[:8]:
        for n in (c - 1, c, c + 1, c + 2):
            if n < 6 or n in seen or n > 80:
                continue
            seen.add(n)
            rows = weights_for(n, n % 2)
            for l in (n, n - 1, n - 2, n - 4) + ((1, 2) if n <= 8 else ()):
                p = sorted(range(n), key=lambda x: (x * 29 + 3) % 83)[:l]
                yield rows, tuple(p)
                yield rows, tuple(range(n))[::-1][:l]
                yield rows, tuple(range(n))[:l]


def consts_of(paths, floats=None, top=70):
    st = []

    def add(ev):
        for e in walk(ev):
            st.extend(x for x in e.args if isinstance(x, Term))
            L = e.x.get("loop")
            if L is not None:
                if L.N is not None:
                    st.append(L.N)
                for q in list(L.backs) + list(L.exits):
                    st.extend(q.facts)
    for p in paths:
        st.extend(p.facts)
        st.extend(x for x in [p.ret] if isinstance(x, Term))
        add(p.ev)
    return consts_in(st, floats, top)


def consts_in(terms, floats=None, top=70):
    out = set()
    seen = set()
    st = list(terms)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "int":
            out.add(abs(t.a[0]))
        elif t.op in ("Shl", "Shr", "BitAnd", "BitOr", "BitXor"):
            if t.op == "Shl":
                out.add(t.a[2].a[0])
        elif t.op == "trunc" and t.a[1].op == "named":
            out |= {255} if t.a[1].a[0] == "u8" else set()
        elif t.op == "flt" and floats is not None:
            floats.add(float(t.a[0]))
        elif t.op == "lin":
            out.add(abs(t.a[0]))
        st.extend(x for x in t.a if isinstance(x, Term))
        if t.op == "lin":
            st.extend(x for m, k in t.a[1] for x in m)
    return {c for c in out if 3 <= c <= top}


class Out:
    def __init__(self):
        self.bad = {}      # category -> text
        self.n = 0
        self.hazy = None

    def add(self, cat, text):
        self.bad.setdefault(cat, text)


def show(rows, P, C, B, bounds):
    m = "the matrix %s" % ([list(r) for r in rows],) if len(rows) <= 4 else "a matrix of %d vertices" % len(rows)
    return "in %s with the prefix %s of cost %g, best cost %g%s" % (m, list(P) if len(P) < 9 else "of length %d" % len(P), C, B, "".join(", bound %g" % b for b in bounds))


def check(body, paths, r, cost, G, P0, R0, bounds):
    """-> Out"""
    out = Out()
    rroot = T("vroot", T("sym", "p%d" % r["best"]))
    Ct = T("sym", "p%d" % cost)
    comps = {}
    sts = list(states(consts_of(paths)))
    caches = {}
    todo = [(x, ph) for ph in (0, 1) for x in sts]
    hascache = any(x.kind == "cache" for p in paths for x in walk(p.ev))
    for (rows, P), phase in todo:
        if phase == 0 and not hascache:
            continue
        key = id(rows)
        comp = comps.setdefault(key, Comp(rows))
        C = path_cost(rows, P)
        mc = comp(P)
        opn = [v for v in range(len(rows)) if v not in P]
        targets = {mc} | ({comp(P + (v,)) for v in opn} if len(opn) <= 5 else set())
        Bs = {math.inf} | {t + d for t in targets for d in (0.25, 1.0)} | {mc + 4.0, 2 * mc + 1.0, mc, mc + 1e-7}
        if mc > 1:
            Bs.add(mc - 0.5)
        if len(Bs) > 6:
            Bs = {math.inf, mc + 0.25, mc + 1.0} | {mc, mc + 1e-7, mc + 4.0} if len(opn) < 2 else {math.inf, mc + 0.25, mc + 1.0, mc + 4.0, max(targets) + 0.25}
        if phase == 0:
            Bs = {math.inf}
        for B in sorted(Bs):
            for bv in ([math.inf] if not bounds or phase == 0 else [math.inf, mc + 0.25] if B == math.inf else [math.inf, B]):
                bvals = [bv] * len(bounds)
                gv = A(0, M(rows))
                tour = other(P, len(rows)) if B < math.inf else ()
                env = {G: gv, P0: P, Ct: C, R0: A(0, B, tour)}
                for b, x in zip(bounds, bvals):
                    env[b] = x
                for d in (dim(G), dim(fld(G, 0)), length(fld(G, 0))):
                    env[d] = len(rows)
                ev = StepEv(env)
                cc = caches.setdefault(key, {})
                if phase == 1:
                    ev.cache = cc
                try:
                    one(out, ev, env, paths, body, r, cost, rows, P, C, B, bvals, comp, mc, R0, rroot, cc if phase == 0 else None, gv, G, bounds)
                    if phase == 1:
                        out.n += 1
                except Hazy as ex:
                    out.hazy = "%s" % ex
                except Undef as ex:
                    out.hazy = "undefined: %s" % ex
                if len(out.bad) >= 3:
                    return out
    return out


def one(out, ev, env, paths, body, r, cost, rows, P, C, B, bvals, comp, mc, R0, rroot, cache, gv, G, bounds):
    n = len(rows)
    lim = min([B] + bvals)
    sh = lambda: show(rows, P, C, B, bvals)
    # the paths which apply before any branching loop
    groups = {}
    for p in paths:
        lps = [l for l in loops(p.ev) if any(x.kind == "rec" for q in l.x["loop"].backs for x in walk(q.ev))]
        if len(lps) > 1 or (lps and any(x.kind == "rec" and x.x["body"] == body["id"] for x in p.ev)):
            raise Hazy("several branching loops")
        if lps:
            L = lps[0].x["loop"]
            facts = L.entry.facts
            k = id(L)
        else:
            facts = p.facts
            k = id(p)
        if k in groups:
            continue
        if ev.conds(facts):
            groups[k] = (p, lps[0] if lps else None)
    if not groups:
        if cache is None:
            out.add("cover", "%s the search panics" % sh())
        return
    if len(groups) > 1:
        raise Hazy("ambiguous paths")
    p, lev = next(iter(groups.values()))
    calls = []
    newbest = None
    if lev is None:
        direct = [x for x in p.ev if x.kind == "rec" and x.x["body"] == body["id"]]
        if direct:
            raise Hazy("recursion outside of a loop")
        newbest = ev.val(p.st.mem.get(rroot))
        if cache is not None:
            return
        total = tour_cost(rows, P) if len(P) == n else None
        if len(P) == n:
            nb = newbest.f
            if total < lim - EPS:
                if not (abs(nb[0] - total) < EPS):
                    out.add("incumbent" if nb[0] == B else "cost", "%s the complete tour of cost %g leads to the best cost %g" % (sh(), total, nb[0]))
                elif nb[1] != P:
                    out.add("incumbent", "%s the tour stored with the cost %g is %s" % (sh(), nb[0], list(nb[1])))
            elif total >= B:
                if nb[0] != B or nb[1] != env[R0].f[1]:
                    out.add("incumbent" if nb[0] >= B else "cost", "%s the complete tour of cost %g replaces the best one (now %g) without being cheaper" % (sh(), total, nb[0]))
            else:
                same = nb[0] == B and nb[1] == env[R0].f[1]
                mine = abs(nb[0] - total) < EPS and nb[1] == P
                if not same and not mine:
                    out.add("incumbent", "%s the best cost becomes %g with the tour %s" % (sh(), nb[0], list(nb[1])))
        else:
            if mc < lim - EPS:
                out.add("prune" if lim < math.inf else "cover", "%s the search returns, but the prefix can be completed with the cost %g" % (sh(), mc))
            if newbest != env[R0]:
                out.add("incumbent", "%s an incomplete prefix changes the best tour" % sh())
        return
    if len(P) == n and cache is None:
        raise Hazy("branching at a complete prefix")
    # the branching loop
    L = lev.x["loop"]
    e2 = dict(env)

    def assign(lf, ph, t, e):
        try:
            e2[ph] = e.val(t)
        except (Hazy, Undef):
            e2.pop(ph, None)
    for lf, ph in L.phi.items():
        assign(lf, ph, L.init[lf], ev)
    cur = env[R0]
    if L.N is not None:
        N = ev.val(L.N)
    else:
        N = n + 3
    k = 0
    while True:
        e2[L.K] = k
        ek = StepEv(dict(e2))
        ek.cache = ev.cache
        hit = []
        for kind, qs in (("back", L.backs), ("exit", L.exits)):
            for q in qs:
                if ek.conds(q.facts):
                    hit.append((kind, q))
        if len(hit) != 1:
            if not hit and L.N is not None and k >= N:
                break
            if not hit:
                if cache is None:
                    out.add("cover", "%s the search panics at the candidate %d" % (sh(), k))
                return
            raise Hazy("ambiguous iteration")
        kind, q = hit[0]
        for x in walk(q.ev):
            if x.kind == "cache" and cache is not None:
                kk, val = ek.val(x.args[1]), ek.val(x.args[2])
                cache[kk] = max(val, cache.get(kk, -math.inf))
        if kind == "exit":
            break
        rec = [x for x in q.ev if x.kind == "rec" and x.x["body"] == body["id"]]
        if len(rec) != len([x for x in walk(q.ev) if x.kind == "rec" and x.x["body"] == body["id"]]):
            raise Hazy("recursion in an inner loop")
        for x in rec:
            if ek.val(x.args[r["graph"]]) != gv:
                out.add("cover", "%s a recursive call gets another graph" % sh())
            bs = [ek.val(x.args[int(b.a[0][1:])]) for b in bounds]
            Q = ek.val(x.args[r["prefix"]])
            calls.append((Q, ek.val(x.args[cost]), bs))
            got = ek.val(x.args[r["best"]])
            if cache is None and got != cur:
                out.add("incumbent", "%s the recursive call for the prefix %s gets the best cost %s instead of %s" % (sh(), list(Q), got.f[0], cur.f[0]))
                return
            # induction hypothesis: the call leaves the better one of the best tour and the best completion of its prefix
            if isinstance(Q, tuple) and Q and len(set(Q)) == len(Q) and max(Q) < n and comp(Q) < cur.f[0]:
                cur = A(0, comp(Q), other(Q, n))
            for i, d, post in x.x.get("muts", ()):
                if i == r["best"]:
                    ek.env[post] = cur
            ek.memo = {}
        for lf, ph in L.phi.items():
            cell, path = lf
            if cell in q.st.mem:
                assign(lf, ph, getpath(q.st.mem[cell], path), ek)
            else:
                e2.pop(ph, None)
        k += 1
        if k > N + 1:
            raise Hazy("loop does not end")
    if cache is not None:
        return
    try:
        fin = StepEv(dict(e2)).val(unclose(p.st.mem.get(rroot), lev))
    except (Hazy, Undef):
        fin = cur
    if fin != cur:
        out.add("incumbent", "%s the step ends with the best cost %s and the tour %s instead of %s, %s" % (sh(), fin.f[0], fin.f[1], cur.f[0], cur.f[1]))
    done, wrong = [], False
    for Q, c, bs in calls:
        if not isinstance(Q, tuple) or len(Q) != len(P) + 1 or Q[:-1] != P or not 0 <= Q[-1] < n or Q[-1] in P:
            out.add("cover", "%s a recursive call gets the prefix %s" % (sh(), list(Q)))
            wrong = True
            continue
        want = path_cost(rows, Q)
        if abs(c - want) > EPS:
            out.add("cost", "%s the recursive call for the prefix %s gets the cost %g instead of %g" % (sh(), list(Q), c, want))
            wrong = True
            continue
        done.append(Q[-1])
    if wrong:
        return
    for v in range(n):
        if v in P or v in done:
            continue
        best = comp(P + (v,))
        if best < min(lim, cur.f[0]) - EPS:
            out.add("prune" if lim < math.inf else "cover", "%s the vertex %d is left out, although a tour of cost %g goes on there" % (sh(), v, best))

