"""The partition of the search space into prefixes, and the successor of a prefix."""
from lib import *
from terms import uncases
import small as SM

D_, B_, N_, K_ = (T("sym", "p%d" % i) for i in range(4))
TOTAL = powi(B_, D_)


# ------------------------------------------------------------------ integer arithmetic with quotients
def lemmas(t, facts):
    """what is known about the quotients in t: 0 <= a - b*(a div b) < b, and products of known facts with them"""
    out = []
    ds = [x for x in subterms(t) if x.op == "div"]
    for x in ds:
        a, b = x.a
        r = sub(a, mul(b, x))
        out.append(ge0(r))
        out.append(ge0(sub(sub(b, I(1)), r)))
        for f in facts:
            if f.op == "ge0":
                out.append(ge0(mul(f.a[0], x)))
        for z in ds:
            # a larger dividend, a larger quotient
            if z is not x and z.a[1] is b and FS(facts)(le(a, z.a[0])) is True:
                out.append(ge0(sub(z, x)))
    return [x for x in out if x not in (TRUE, FALSE)]


def intnorm(t, fs):
    """quotients and remainders decided by the facts; multiples of the divisor divided out"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            ch = children(x)
            y = x
            if ch:
                y = subst(x, {c: go(c) for c in ch if go(c) is not c}) if any(go(c) is not c for c in ch) else x
            if y.op in ("div", "rem"):
                y = one(y)
            r = memo[x] = y
        return r

    def one(y):
        e, b = y.a
        for q in (0, 1):
            m = sub(e, mulc(b, q))
            if fs(ge0(m)) is True and fs(ge0(sub(sub(b, I(1)), m))) is True:
                return I(q) if y.op == "div" else m
        if e.op == "lin" and e.a[0] == 0 and b.op not in ("lin",):
            q = I(0)
            for m, k in e.a[1]:
                if b in m:
                    m = list(m)
                    m.remove(b)
                    p = I(k)
                    for z in m:
                        p = mul(p, z)
                    q = add(q, p)
                else:
                    break
            else:
                return q if y.op == "div" else I(0)
        return y
    return go(t)


# ------------------------------------------------------------------ digits
def decode(t):
    """the number whose digits are t -> (value, 'full' | 'mod', 'msb' | 'lsb')"""
    end = "lsb"
    if t.op == "rev":
        t, end = t.a[0], "msb"
    k = T("k", "dg")

    def low(m, n, off=None):
        if m.op != "map" or m.a[0] is not n:
            return None
        x = subst_bv(m.a[1], k)
        if x.op != "rem" or x.a[1] is not B_ or x.a[0].op != "div":
            return None
        v, p = x.a[0].a
        if p in (powi(B_, k),) and k not in v.free:
            return v, "lsb"
        if p is powi(B_, sub(sub(D_, I(1)), k)) and k not in v.free:
            return v, "msb"
        return None
    r = low(t, D_)
    if r is not None:
        v, e2 = r
        if e2 == "msb":
            end = "lsb" if end == "msb" else "msb"
        return v, "mod", end
    if t.op == "push":
        r = low(t.a[0], sub(D_, I(1)))
        if r is not None and r[1] == "lsb":
            v = r[0]
            for p in (powi(B_, max0(sub(D_, I(1)))), powi(B_, sub(D_, I(1)))):
                if t.a[1] is div(v, p):
                    return v, "full", end
                if t.a[1] is rem(div(v, p), B_):
                    return v, "mod", end
    top = (powi(B_, max0(sub(D_, I(1)))), powi(B_, sub(D_, I(1))))
    if t.op == "upd" and t.a[0].op == "scatter" and t.a[1] is I(0) and t.a[2].op == "div" and t.a[2].a[1] in top and length(t.a[0]) is D_:
        # all but the leading digit written one by one
        v = t.a[2].a[0]
        s = t.a[0]
        cs = uncases(subst_bv(s.a[2], k)) if s.a[1] is sub(D_, I(1)) and s.a[2].op == "lam" else []
        if len(cs) == 1 and not [c for c in cs[0][0] if c is not nt(eq0(B_))]:
            p = cs[0][1]
            if len(p) == 2 and p[0] is sub(sub(D_, I(1)), k) and p[1] is rem(div(v, powi(B_, k)), B_):
                return v, "full", "lsb" if end == "msb" else "msb"
            if len(p) == 2 and p[0] is sub(sub(D_, I(1)), k) and False:
                return None
    if t.op == "collect" and t.a[0] is D_:
        cs = uncases(subst_bv(t.a[1], k))
        e = powi(B_, sub(sub(D_, I(1)), k))
        if len(cs) == 2 and all(len(p) == 1 for _, p in cs):
            for (c0, p0), (c1, p1) in (cs, cs[::-1]):
                d0, d1 = [[c for c in cc if c is not nt(eq0(B_))] for cc in (c0, c1)]
                if d0 == [eq0(k)] and d1 == [nt(eq0(k))] and p0[0].op == "div":
                    v = p0[0].a[0]
                    if p0[0].a[1] in top + (e,) and p1[0] is rem(div(v, e), B_) and k not in v.free:
                        return v, "full", "lsb" if end == "msb" else "msb"
    return None


def digits(v, d, b, end):
    out = []
    for _ in range(d - 1):
        out.append(v % b)
        v //= b
    out.append(v)
    return tuple(out if end == "lsb" else out[::-1])


def split(ck, config="default"):
    """-> 'msb' | 'lsb' | None"""
    bs = bodies(config, "split_up_b_ary_number_into_n_chunks")
    ck.require(bool(bs), "anchor", "solvers::exact::split_up_b_ary_number_into_n_chunks", "the public function is gone")
    end = None
    for body in bs:
        end = split1(ck, config, body)
    return end


def split1(ck, config, body):
    where = nice(body)
    e, paths, why = run("prefix" + config, lambda: engine(config, own={body["id"]}), body)
    ck.engines.append(e)
    if paths is None:
        ck.ob("undecided", "split-analysis", where, why)
        return None
    base = [ge0(sub(sub(TOTAL, N_), I(1))), ge0(sub(N_, I(1))), ge0(sub(sub(N_, K_), I(1))), ge0(sub(D_, I(1))), ge0(sub(B_, I(2)))]
    ps = []
    for p in paths:
        facts = list(p.facts) + base
        if FS(facts).dead:
            continue
        if p.ret.op != "agg" or len(p.ret.a) != 4:
            ck.ob("undecided", "split-form", where, pp(p.ret)[:200])
            return refute_split(ck, where, paths, None)
        lo, hi = decode(fld(p.ret, 0)), decode(fld(p.ret, 1))
        if lo is None or hi is None:
            return refute_split(ck, where, paths, None)
        ps.append((p, facts, lo, hi))
    ends = {x[2] for _, _, lo, hi in ps for x in (lo, hi)}
    probs = []
    if len(ends) != 1 or not ps:
        return refute_split(ck, where, paths, None)
    # every piece: total, ordered
    und = []

    def prove(rule, facts, a, b, rel="="):
        """a = b or a <= b"""
        facts = [f for f in facts if f not in (TRUE,)]
        if FS(facts).dead:
            return
        ex = lemmas(tup(a, b), [f for f in facts if f.op == "ge0"])
        fs = FS(facts + ex)
        if fs.dead:
            return
        a, b = intnorm(a, fs), intnorm(b, fs)
        ok = a is b or fs(ieq(a, b)) is True if rel == "=" else fs(le(a, b)) is True
        if ok:
            ck.ob("ok", rule, where)
        else:
            und.append((rule, pp(a)[:100], pp(b)[:100]))

    for p, facts, lo, hi in ps:
        # nothing but the size of the space may stop a worker: the facts of the two kinds of paths cover all cases
        at0 = {K_: I(0)}
        prove("split-starts-at-zero", [subst(f, at0) for f in facts], subst(lo[0], at0), I(0))
        atl = {K_: sub(N_, I(1))}
        lf = [subst(f, atl) for f in facts]
        if not FS(lf).dead:
            prove("split-ends-at-total", lf, subst(hi[0], atl), TOTAL)
            if hi[1] != "full":
                und.append(("split-end-is-no-prefix", "the end of the last piece is reduced to valid digits", ""))
            else:
                ck.ob("ok", "split-end-is-no-prefix", where)
        prove("split-ordered", facts, lo[0], hi[0], "<=")
        for q, facts2, lo2, hi2 in ps:
            nx = {K_: add(K_, I(1))}
            f2 = facts + [subst(f, nx) for f in facts2]
            prove("split-contiguous", f2, hi[0], subst(lo2[0], nx))
            if hi[1] != "full":
                prove("split-valid-end", f2, add(hi[0], I(1)), TOTAL, "<=")
    # totality: the negated conditions of all paths are inconsistent with the assumptions
    rest = []
    for cs in itertools.product(*[[nt(f) for f in p.facts if FS(base)(f) is not True] for p, _, _, _ in ps]):
        if not FS(list(cs) + base).dead:
            rest.append(cs)
    if rest:
        und.append(("split-total", ", ".join(pp(c) for c in rest[0])[:200], ""))
    else:
        ck.ob("ok", "split-total", where)
    if und:
        refute_split(ck, where, paths, ends, und)
        return None
    return ends.pop()


def refute_split(ck, where, paths, ends, und=()):
    """the union of the pieces in small spaces: every prefix once?"""
    hz = None
    n = 0
    for end in sorted(ends) if ends else ["msb", "lsb"]:
        bad = None
        for d in (1, 2, 3):
            for b in (2, 3, 4):
                for w in range(1, min(b ** d, 12)):
                    got = []
                    for k in range(w):
                        r = SM.outcome(paths, {D_: d, B_: b, N_: w, K_: k}, lambda p, e: e.val(p.ret))
                        if r[0] == "hazy":
                            hz = r[1]
                            break
                        if r[0] == "none":
                            bad = bad or ((d, b, w), "worker %d of %d stops with a panic (%d digits to the base %d)" % (k, w, d, b))
                            break
                        n += 1
                        lo, hi = r[1].f if isinstance(r[1], SM.A) and len(r[1].f) == 2 else (None, None)
                        if not isinstance(lo, tuple) or not isinstance(hi, tuple):
                            hz = "no pair of digits"
                            break
                        if any(not isinstance(x, int) for x in lo + hi):
                            hz = "no digits"
                            break
                        if len(lo) != d or any(not 0 <= x < b for x in lo):
                            bad = bad or ((d, b, w), "piece %d of %d starts with %s (%d digits to the base %d)" % (k, w, list(lo), d, b))
                            break
                        val = lambda s: sum(x * b ** (len(s) - 1 - i if end == "msb" else i) for i, x in enumerate(s))
                        x = val(lo)
                        while x < b ** d and digits(x, d, b, end) != hi:
                            got.append(x)
                            x += 1
                    else:
                        if sorted(got) != list(range(b ** d)) and bad is None:
                            miss = sorted(set(range(b ** d)) - set(got))
                            dup = sorted({x for x in got if got.count(x) > 1})
                            bad = (d, b, w), "with %d workers, %d digits to the base %d: %s" % (
                                w, d, b, ("%s is in no piece" % list(digits(miss[0], d, b, end))) if miss else "%s is in several pieces" % list(digits(dup[0], d, b, end)))
                    if hz or bad:
                        break
                if hz or bad:
                    break
            if hz or bad:
                break
        if bad is None:
            # this reading of the digits shows no mistake
            ck.ob("undecided", "split-partition", where, "; ".join("%s: %s / %s" % x for x in und)[:300] + (" (%s)" % hz if hz else " (no counterexample in %d pieces)" % n))
            return None
    ck.ob("viol", "split-partition", where, "the pieces have to cover every prefix once: %s" % bad[1])
    return None


# ------------------------------------------------------------------ successor
def unfin(t, e):
    """inverse of the substitution at the exit of a loop"""
    m = {}
    L = e.x["loop"]
    for ph, c in getattr(e.x["exit"], "final", {}).items():
        if isinstance(c, Term) and c.op not in ("int", "sym", "seq0", "agg", "true", "false", "lin", "len"):
            m[c] = ph
    return subst(t, m) if m else t


def successor(ck, config="default"):
    bs = bodies(config, "get_next_value")
    ck.require(bool(bs), "anchor", "solvers::exact::get_next_value", "the public function is gone")
    r = None
    for b in bs:
        r = succ1(ck, config, b)
    return r


def succ1(ck, config, body):
    where = nice(body)
    e, paths, why = run("prefix" + config, lambda: engine(config, own={body["id"]}), body)
    ck.engines.append(e)
    ck = SM.ModelCk(ck, lambda: successor_models(paths), local=())
    if paths is None:
        ck.ob("undecided", "successor-analysis", where, why)
        return None
    D0, B0 = T("sym", "*p0"), T("sym", "p1")
    base = [ge0(sub(B0, I(2)))]

    def stop(s):
        ck.ob("undecided", "successor-form", where, s[:300])
        return None
    ps = [p for p in paths if not FS(list(p.facts) + base).dead]
    lps = [[l for l in loops(p.ev)] for p in ps]
    if not lps or any(len(x) != 1 for x in lps):
        return stop("not exactly one loop over the digits: %s" % "; ".join(pp(p.ret)[:80] for p in ps))
    uids = {x[0].x["loop"].uid for x in lps}
    if len(uids) != 1:
        return stop("several loops")
    L = lps[0][0].x["loop"]
    cand = [(lf, ph) for lf, ph in L.phi.items() if L.init[lf] is D0]
    if len(cand) != 1:
        return stop("the digits are not one loop carried value")
    lf, D = cand[0]
    K = L.K
    poss = set()
    for q in L.backs:
        v = getpath(q.st.mem[lf[0]], lf[1])
        if v.op == "upd" and v.a[0] is D:
            poss.add(v.a[1])
        else:
            return stop("digits of the next round: %s" % pp(v))
    if len(poss) != 1:
        return stop("no unique digit is changed in a round")
    q_ = poss.pop()
    q0, dq = subst(q_, {K: I(0)}), cdiff(subst(q_, {K: add(K, I(1))}), q_)
    n = length(D0)
    if q0 is sub(n, I(1)) and dq == -1:
        end = "msb"
    elif q0 is I(0) and dq == 1:
        end = "lsb"
    else:
        o = cdiff(q0, sub(n, I(1)))
        outs = [loops(p.ev)[0] for p in ps]
        rets = [unfin(p.ret, l) for p, l in zip(ps, outs) if l.x["exit"] not in L.exh]
        plain = rets and all(r.op == "agg" and len(r.a) == 3 and (r.a[2] is D or r.a[2].op == "upd" and r.a[2].a[0] is D and r.a[2].a[1] is q_) for r in rets)
        if plain and (dq == -1 and o is not None and o < 0 or dq == 1 and const_int(q0) is not None and const_int(q0) > 0):
            ck.ob("viol", "successor-position", where, "the addition starts at digit %s, so the %s digit never changes" % (pp(q0), "last" if dq < 0 else "first"))
            return None
        return stop("digit %s changes in round %s" % (pp(q_), pp(K)))
    ck.ob("ok", "successor-position", where)
    x = idx(D, q_)
    inv = {}
    for l2, ph in L.phi.items():
        if ph is not D:
            inv[ph] = L.init[l2]
    inside = [ge0(q_), ge0(sub(sub(n, I(1)), q_))]
    top, y = sub(B0, I(1)), T("idx", T("sym", "digits"), T("sym", "pos"))

    def case(top_):
        m = dict(inv)
        m[x] = top if top_ else y
        f = base + inside + ([] if top_ else [ge0(sub(sub(B0, I(2)), y))])
        return m, f

    def live(p, m, f, extra=()):
        """True / None / False: does the path apply under the assumptions?"""
        fs = FS(f)
        r = True
        for c in list(p.facts) + list(extra):
            c = intnorm(subst(c, m), fs)
            d = fs(c)
            if d is False:
                return False
            if d is None:
                r = None
        return r

    # --- a digit which is the largest one becomes 0 and the digit on its left follows
    m, f = case(True)
    fs = FS(f)
    rounds = [p for p in L.backs if live(p, m, f) is not False]
    for p in rounds:
        v = getpath(p.st.mem[lf[0]], lf[1])
        nv = intnorm(subst(v.a[2], m), fs)
        good = live(p, m, f) is True
        if nv is I(0):
            ck.ob("ok", "successor-wraps-to-zero", where)
        elif good and not hazy(nv):
            ck.ob("viol", "successor-wraps-to-zero", where, "a digit equal to basis-1 becomes %s and not 0 when the digit before it is increased" % pp(nv))
        else:
            return stop("wrapped digit " + pp(nv))
        for l2, ph in L.phi.items():
            if ph is D:
                continue
            w = getpath(p.st.mem[l2[0]], l2[1])
            w = intnorm(subst(w, m), fs)
            if w is L.init[l2]:
                ck.ob("ok", "successor-carry", where)
            elif good and not hazy(w):
                ck.ob("viol", "successor-carry", where, "the carry after a digit equal to basis-1 is %s, at the start it is %s" % (pp(w), pp(L.init[l2])))
            else:
                return stop("carry " + pp(w))
    outs = []
    for p in ps:
        l = loops(p.ev)[0]
        ex = l.x["exit"]
        # the value at the exit in terms of the state of the last round
        ret = p.ret
        mem = p.st.mem if p.st is not None else {}
        outs.append((p, l, ex, unfin(ret, l)))
    exh = [o for o in outs if o[2] in L.exh]
    brk = [o for o in outs if o[2] not in L.exh]
    if not exh or not brk:
        return stop("exits of the loop")
    for o in brk:
        a = live(o[2], m, f)
        if a is False:
            ck.ob("ok", "successor-carries-on", where)
        elif a is True:
            ck.ob("viol", "successor-carries-on", where, "a digit equal to basis-1 has to pass its carry on, but the function returns %s there" % pp(o[3])[:200])
        else:
            return stop("exit for a digit equal to basis-1: " + ", ".join(pp(c) for c in o[2].facts)[:200])
    if not rounds:
        ck.ob("viol", "successor-carries-on", where, "no digit before a digit equal to basis-1 is ever increased") if all(live(o[2], m, f) is True for o in brk[:1]) else stop("no round for a digit equal to basis-1")
    # --- any other digit is increased by one and the result is returned
    m, f = case(False)
    fs = FS(f)
    root = [c for c in paths[0].st.mem if c.op == "vroot" or "vroot" in pp(c)] if paths[0].st is not None else []

    def grown(what, t, a, mm=None):
        """is t the state with the digit increased by one?  -> None if it cannot be told"""
        if t.op != "upd" or t.a[0] is not D or t.a[1] is not q_:
            if t.op == "upd" and t.a[0] is D and a is True:
                ck.ob("viol", "successor-value", where, "the %s after a digit below basis-1 is %s" % (what, pp(t)[:200]))
                return True
            stop("%s %s" % (what, pp(t)))
            return None
        nv = intnorm(subst(t.a[2], m), fs)
        if nv is add(y, I(1)):
            return ck.ob("ok", "successor-value", where) or True
        if a is True and not hazy(nv):
            ck.ob("viol", "successor-value", where, "in the %s a digit x below basis-1 becomes %s and not x+1" % (what, pp(subst(nv, {y: T("sym", "x")}))))
            return True
        stop("digit " + pp(nv))
        return None

    for p in L.backs:
        a = live(p, m, f)
        if a is False:
            ck.ob("ok", "successor-stops", where)
            continue
        # the next round has to stop at once: the state which it finds
        nxt, same = {}, True
        for l2, ph in L.phi.items():
            w = getpath(p.st.mem[l2[0]], l2[1])
            if ph is not D:
                nxt[ph] = intnorm(subst(w, m), fs)
                same = same and nxt[ph] is L.init[l2]
            else:
                nd = w
        if same and a is True and not any(live(o[2], m, f) is True for o in brk):
            ck.ob("viol", "successor-stops", where, "a digit below basis-1 does not end the addition")
            continue
        if same or any(hazy(v) for v in nxt.values()):
            return stop("round for a digit below basis-1: " + ", ".join(pp(c) for c in p.facts)[:200])
        f0 = base + inside
        if any(live(q, nxt, f0) is not False for q in L.backs):
            return stop("the addition may go on: " + pp(tup(*nxt.values())))
        ck.ob("ok", "successor-stops", where)
        if grown("slice", nd, a) is None:
            return None
        for o in brk + exh:
            ex0 = [c for c in o[2].facts if not (o in exh and K in c.free and not (c.free & frozenset(L.phi.values())))]
            extra = [unfin(c, o[1]) for c in o[0].facts]
            if any(FS(f0)(intnorm(subst(c, nxt), FS(f0))) is False for c in ex0 + [c for c in extra if c.free & set(nxt)]):
                continue
            r = subst(o[3], nxt)
            if r.op == "agg" and len(r.a) == 3 and r.a[1] == 1 and r.a[2] is D:
                ck.ob("ok", "successor-value", where)
            elif a is True and r is NONE and all(FS(f0)(intnorm(subst(c, nxt), FS(f0))) is True for c in extra if c.free & set(nxt)):
                ck.ob("viol", "successor-value", where, "a successor exists, but None is returned")
            else:
                return stop("result " + pp(r))
    for p, l, ex, ret in brk:
        a = live(ex, m, f)
        if a is False:
            continue
        if ret.op == "agg" and ret.a[1] == 1 and len(ret.a) == 3:
            X = ret.a[2]
        elif a is True and not hazy(ret):
            ck.ob("viol", "successor-value", where, "a successor exists, but %s is returned" % pp(ret)[:120])
            continue
        else:
            return stop("result " + pp(ret))
        for what, t in [("result", X)] + [("slice", unfin(p.st.mem[c], l)) for c in root]:
            if grown(what, t, a) is None:
                return None
    # --- none left
    fs0 = FS(base)
    for p, l, ex, ret in exh:
        if L.N is n:
            ck.ob("ok", "successor-all-digits", where)
        elif cdiff(L.N, n) is not None and cdiff(L.N, n) < 0:
            ck.ob("viol", "successor-all-digits", where, "only %s of %s digits are looked at" % (pp(L.N), pp(n)))
        else:
            return stop("number of rounds " + pp(L.N))
        # the carry is still there
        if any(fs0(intnorm(subst(unfin(c, l), inv), fs0)) is False for c in p.facts if unfin(c, l).free & set(inv)):
            continue
        ret = subst(ret, inv)
        ck.require(ret is NONE, "successor-end", where, "after the last prefix %s is returned and not None" % pp(ret)[:200], (ret,))
    return end


def successor_models(paths):
    """the whole function in small models -> (countermodel or None, number of models, why others could not be evaluated)"""
    if paths is None:
        return None, 0, "not analysed"
    D0, B0 = T("sym", "*p0"), T("sym", "p1")
    roots = sorted({c for p in paths if p.st is not None for c in p.st.mem if c.op == "vroot" or "vroot" in pp(c)}, key=pp)
    cs = {abs(x.a[0]) for p in paths for f in tuple(p.facts) + (p.ret,) + tuple(v for v in p.st.mem.values() if isinstance(v, Term)) for x in subterms(f) if x.op in ("int", "lin")}
    bases = [2, 3, 4] + sorted({c + k for c in cs if 3 <= c <= 400 for k in (0, 1, 2)} - {2, 3, 4})[:12]
    n, hz = 0, None
    for b in bases:
        pool = range(b) if b <= 4 else sorted({0, 1, b // 2, b - 3, b - 2, b - 1} | {c for c in cs if 0 < c < b})
        for ln in (1, 2, 3):
            if len(pool) ** ln > 400:
                continue
            for v in itertools.product(pool, repeat=ln):
                k = sum(x * b ** (ln - 1 - i) for i, x in enumerate(v)) + 1
                want = tuple(k // b ** (ln - 1 - i) % b for i in range(ln)) if k < b ** ln else None
                env = {D0: v, B0: b}
                r = SM.outcome(paths, env, lambda p, e: (e.val(p.ret), tuple(e.val(p.st.mem[c]) for c in roots if c in p.st.mem)), None, SM.Ev, ln + 2)
                if r[0] == "hazy":
                    hz = r[1]
                    continue
                n += 1
                if r[0] == "none":
                    return "for the digits %s to the base %d there is no result" % (list(v), b), n, hz
                ret, mem = r[1]
                got = ret.f[0] if isinstance(ret, SM.A) and ret.v == 1 and ret.f else None
                if got != want:
                    return "for the digits %s to the base %d the result is %s, the next value is %s" % (list(v), b, got and list(got), want and list(want)), n, hz
                if want is not None and any(isinstance(m, tuple) and m != want for m in mem):
                    return "for the digits %s to the base %d the argument becomes %s, the next value is %s" % (list(v), b, list(mem[0]), list(want)), n, hz
    return None, n, hz


def prefixes(ck, config="default"):
    a = split(ck, config)
    b = successor(ck, config)
    if a and b:
        if a == b:
            ck.ob("ok", "same-digit-order", "solvers::exact")
        else:
            ck.ob("viol", "same-digit-order", "solvers::exact::get_next_value", "the successor starts at the other end of the digits than the pieces are written in")
