"""Rules for memory accesses which the compiler does not check: in bounds, not through shared borrows, no races."""
from lib import *
import small as SM

UNSAFE = ("get_unchecked", "get_unchecked_mut", "from_raw_parts", "from_raw_parts_mut", "transmute", "unwrap_unchecked", "set_len", "assume_init",
          "copy_nonoverlapping", "unreachable_unchecked", "swap_unchecked", "transmute_copy", "read_unaligned", "write_unaligned", "vget_unchecked",
          "row_unchecked", "from_utf8_unchecked", "offset_from", "split_at_unchecked", "split_at_mut_unchecked", "uget", "uget_mut")
RAWM = ("as_mut", "as_ref", "read", "write", "replace", "swap", "copy_from", "copy_to", "write_bytes", "read_volatile", "write_volatile")


def places(x):
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and all(isinstance(e, list) for e in x[1]):
            yield x
        for y in x:
            yield from places(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from places(y)


def sites(P, e, b):
    """the unchecked accesses in the MIR of a body"""
    t = [l[0] for l in b["locals"]]
    out = []
    for bl in b["blocks"]:
        for p in places(bl["s"]) if bl["s"] else ():
            if p[0] < len(t) and t[p[0]].startswith("*") and p[1] and p[1][0][0] == "*":
                out.append("*" + t[p[0]])
        k = bl["t"]
        if k[0] == "call":
            try:
                n = e.callee(k)
            except Exception:
                continue
            l = last(n)
            if l in UNSAFE or "ptr::" in n and l in RAWM:
                out.append(n)
    return out


def owner_of(P, b):
    i = b["dpath"].find("::{closure") if "dpath" in b else -1
    p = b["path"].split("::{closure")[0]
    return p


def inventory(config):
    """path of a function -> unchecked accesses in it and its closures"""
    P = prog(config)
    e = engine(config)
    inv = {}
    for b in P.bodies.values():
        s = sites(P, e, b)
        if s:
            inv.setdefault(owner_of(P, b), set()).update(s)
    return inv


# ------------------------------------------------------------------ collecting
class Acc:
    def __init__(self, ev, loops, par, facts):
        self.mode, (self.r, self.off, self.n, self.ext), self.facts, self.what = ev.name, ev.args, facts, ev.span
        self.loops, self.par = loops, par
        # the whole memory this is a part of, and the place in it
        self.base, self.at = self.r, self.off
        while self.base.op == "ref" and len(self.base.a) > 1 and self.base.a[-1].op == "psub":
            self.at = add(self.at, self.base.a[-1].a[0])
            self.base = T("ref", *self.base.a[:-1])


def collect(ev, loops=(), par=None):
    for i, x in enumerate(ev):
        if x.kind == "raw":
            yield Acc(x, loops, par, x.facts)
        L = x.x.get("loop") if x.kind in ("loop", "par") else None
        if L is not None:
            ispar = i and ev[i - 1].kind == "par" or x.kind == "par" or any(y.kind == "spawn" for q in L.backs for y in q.ev)
            for q in L.backs + L.exits:
                if q is not x.x.get("exit"):
                    yield from collect(q.ev, loops + (L,), par or (L if ispar else None))


def atoms(t, out):
    if t.op in ("lin", "ge0", "eq0", "not", "and", "or", "conj", "int", "max0", "imin", "imax", "div", "rem", "true", "false", "k", "bv", "abs_diff"):
        if t.op in ("k", "bv"):
            out.add(t)
        for x in children(t):
            atoms(x, out)
    else:
        out.add(t)


SIMPLE = {"dim", "len", "sym", "k", "idx", "named", "fld", "phi", "mpi"}


def simple(a):
    return a.op in SIMPLE and not any(x.op in ("loopval", "unk", "argopt", "cases", "find", "first") for x in subterms(a))


def countermodel(facts, goal, ranges=(0, 1, 2, 3, 4), limit=200000):
    """numbers which make the facts true and the goal false; only if everything is made of simple unknowns"""
    ats = set()
    atoms(goal, ats)
    if not all(simple(a) for a in ats):
        return None
    # the facts that matter: all which share unknowns, if simple
    use, grew = [], True
    while grew:
        grew = False
        for f in facts:
            if f in use:
                continue
            fa = set()
            atoms(f, fa)
            if fa & ats:
                num = all(a.op != "phi" or True for a in fa)
                if any(not simple(a) for a in fa):
                    if f.op in ("ge0", "eq0", "not"):
                        return None
                    continue
                use.append(f)
                if not fa <= ats:
                    ats |= fa
                    grew = True
    ats = sorted(ats, key=pp)
    # nested unknowns (the length of a value that is itself unknown) are numbers of their own
    if len(ranges) ** len(ats) > limit:
        return None
    for vs in itertools.product(ranges, repeat=len(ats)):
        env = dict(zip(ats, vs))
        ev = SM.Ev(env)
        try:
            if ev.conds(use) and not ev.val(goal):
                return env
        except (SM.Hazy, SM.Undef):
            return None
    return None


def poly(t, D):
    """t as (a, b) with t = a*D + b, for a D that is a single unknown -> or None"""
    if t.op != "lin":
        return None
    c, items = t.a
    a, rest = I(0), I(c)
    for m, k in items:
        prod = lambda xs: xs[0] if len(xs) == 1 else __import__("functools").reduce(mul, xs)
        if D in m:
            ms = list(m)
            ms.remove(D)
            a = add(a, mulc(prod(ms) if ms else I(1), k))
        else:
            rest = add(rest, mulc(prod(list(m)), k))
    return a, rest


def bounded(fs, off, n, ext):
    """0 <= off and off + n <= ext?"""
    if fs(ge0(off)) is True and fs(ge0(sub(ext, add(off, n)))) is True:
        return True
    if ext.op == "lin" and n is I(1):
        # the cell (b, a) of a matrix with D rows and columns
        c, items = ext.a
        if c == 0 and len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 2 and items[0][0][0] is items[0][0][1]:
            D = items[0][0][0]
            p = poly(off, D)
            if p is not None:
                a, b = p
                return all(fs(ge0(x)) is True and fs(ge0(sub(sub(D, x), I(1)))) is True for x in (a, b))
            return fs(ge0(off)) is True and fs(ge0(sub(sub(D, off), I(1)))) is True
    return False


def square(ext):
    if ext.op == "lin":
        c, items = ext.a
        if c == 0 and len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 2 and items[0][0][0] is items[0][0][1]:
            return items[0][0][0]
    return None


# ------------------------------------------------------------------ obligations
def accesses(ck, config, body):
    def mk():
        e = engine(config, own={body["id"]})
        e.raw_track = True
        return e
    e, paths, why = run("raw" + config, mk, body)
    ck.engines.append(e)
    if paths is None:
        return None, why
    out = []
    for p in paths:
        if FS(p.facts).dead:
            continue
        out += list(collect(p.ev))
    return out, None


def callers(config, path):
    """functions of the crate which call this one (or a trait method it implements)"""
    P = prog(config)
    e = engine(config)
    nm = last(path)
    out = set()
    for b in P.bodies.values():
        for bl in b["blocks"]:
            if bl["t"][0] == "call":
                try:
                    if last(e.callee(bl["t"])) == nm:
                        out.add(owner_of(P, b))
                except Exception:
                    pass
    out.discard(path)
    return out


def pre(config, body, acc):
    """what the contract of the function says about its arguments: the vertices of a matching are vertices, each at most once"""
    out = []
    ms = matching_of(config, body)
    if ms is None:
        return out
    for x in set(subterms(acc.off)):
        if x.op == "idx" and x.a[0].op == "idx" and x.a[0].a[0] is ms:
            D = square(acc.ext)
            if D is not None:
                out.append(ge0(sub(sub(D, x), I(1))))
    return out


def matching_of(config, body):
    for i, (ty, nm) in enumerate(locals_of(body)):
        if "Vec<[usize; 2]>" in ty and not ty.startswith("&mut"):
            return T("sym", ("*" if ty.startswith("&") else "") + "p%d" % i)
    return None


def shared(ty):
    return ty.startswith("&") and not ty.startswith("&mut")


def local(a, goal):
    """an access which is out of bounds for every value of the only argument in it"""
    ats = set()
    atoms(goal, ats)
    ks = {x for x in ats if x.op in ("k", "bv")}
    ds = ats - ks
    if len(ds) != 1 or next(iter(ds)).op not in ("dim", "len"):
        return False
    use = []
    for f in a.facts:
        fa = set()
        atoms(f, fa)
        if fa <= ats:
            use.append(f)
        elif fa & ks:
            return False
    for v in (2, 3, 4, 5):
        env = {next(iter(ds)): v}
        for vs in itertools.product(range(6), repeat=len(ks)):
            env.update(zip(ks, vs))
            try:
                e = SM.Ev(dict(env))
                if e.conds(use) and not e.val(goal):
                    break
            except (SM.Hazy, SM.Undef):
                return False
        else:
            return False
    return True


def judge(ck, config, path, body, accs, where, final):
    """-> whether everything was decided"""
    res = True
    done = set()
    for a in accs:
        key = (a.mode, a.r, a.off, a.n, a.ext, frozenset(a.facts))
        if key in done:
            continue
        done.add(key)
        text = "%s of element %s of %s" % ({"read": "read", "write": "write", "ref": "reference", "slice": "slice"}[a.mode], pp(a.off)[:120], pp(a.ext)[:80])
        fs = FS(list(a.facts) + pre(config, body, a))
        if fs.dead:
            continue
        if a.n is a.ext and const_int(a.off) == 0:
            ck.ob("ok", "raw-bounds", where)
        elif hazy(a.off, a.n, a.ext):
            if final:
                ck.ob("undecided", "raw-bounds", where, text)
            res = False
            continue
        elif bounded(fs, a.off, a.n, a.ext):
            ck.ob("ok", "raw-bounds", where)
        else:
            cm = None
            goal = conj([ge0(a.off), ge0(sub(a.ext, add(a.off, a.n)))])
            if final and fs(goal) is False:
                ck.ob("viol", "raw-bounds", where, text + " is outside of the memory")
                continue
            if not final and local(a, goal):
                ck.ob("viol", "raw-bounds", where, text + " is outside of the memory in every matrix of two or more rows")
                continue
            if final:
                cm = countermodel([f for f in a.facts] + pre(config, body, a), goal)
            if cm:
                ck.ob("viol", "raw-bounds", where, "%s outside of the memory, for example when %s" % (text, ", ".join("%s = %d" % (pp(k)[:60], v) for k, v in cm.items())))
            elif final:
                ck.ob("undecided", "raw-bounds", where, text + " under " + "; ".join(pp(f) for f in a.facts[-3:])[:200])
            res = False
            continue
        # who owns the memory
        if a.mode == "write":
            root = a.r.a[0] if a.r.op == "ref" else None
            if root is not None and root.op == "vroot" and root.a[0].op == "sym":
                m = re.match(r"^p(\d+)$", str(root.a[0].a[0]))
                ty = locals_of(body)[int(m.group(1))][0] if m else ""
                if shared(ty):
                    ck.ob("viol", "raw-shared-write", where, "%s through a pointer made from the shared borrow %s" % (text, ty))
                    continue
            elif root is not None and root.op == "cell" and root.a[0] in (body["path"], body["dpath"]) and 1 <= root.a[1] <= body["arg_count"]:
                ty = body["locals"][root.a[1]][0]
                if "ViewStorage" in ty and "ViewStorageMut" not in ty:
                    ck.ob("viol", "raw-shared-write", where, "%s through a pointer made from the shared view %s" % (text, ty[:80]))
                    continue
            ck.ob("ok", "raw-shared-write", where)
    return res


def races(ck, config, body, accs, where):
    pars = {}
    for a in accs:
        if a.par is not None:
            pars.setdefault(a.par.uid, []).append(a)
    for uid, xs in pars.items():
        L = xs[0].par
        K = L.K
        for w in xs:
            if w.mode not in ("write", "ref"):
                continue
            if w.mode == "ref" and not mutable(w):
                continue
            for o in xs:
                if o.base is not w.base:
                    continue
                race(ck, config, body, w, o, K, where)
            reads(ck, L, w, K, where)


def mutable(a):
    return True


def blocks(a, b, K, facts):
    """a and b are in block K of equal blocks: c*K + r with 0 <= r < c"""
    fs = FS(facts)
    def split(t):
        """-> [(c, r)]"""
        if t is K:
            return [(I(1), I(0))]
        if t.op != "lin":
            return []
        c0, items = t.a
        mine = [(m, k) for m, k in items if any(K in set(subterms(x)) for x in m)]
        if len(mine) != 1 or mine[0][0].count(K) != 1:
            return []
        m, k = mine[0]
        oth = [x for x in m if x is not K]
        if any(K in set(subterms(x)) for x in oth):
            return []
        c = I(k)
        for x in oth:
            c = mul(c, x)
        r = sub(t, mul(c, K))
        return [(c, r)]
    sa, sb = split(a), split(b)
    if not sa or not sb or sa[0][0] is not sb[0][0]:
        return False
    c = sa[0][0]
    pos = const_int(c) is not None and const_int(c) > 0 or c.op in ("dim", "len") or fs(ge0(sub(c, I(1)))) is True
    # the same offset inside of the block
    if sa[0][1] is sb[0][1] and pos:
        return True
    return all(fs(ge0(r)) is True and fs(ge0(sub(sub(c, r), I(1)))) is True for r in (sa[0][1], sb[0][1]))


def race(ck, config, body, w, o, K, where):
    K2 = T("k", "other")
    off2 = subst(o.at, {K: K2})
    D = square(w.ext)
    text = "the writes of element %s and the accesses of element %s" % (pp(w.at)[:100], pp(o.at)[:100])
    def indep(t):
        return K not in set(subterms(t))
    d = sub(w.at, off2)
    if blocks(w.at, o.at, K, list(w.facts) + list(o.facts)):
        return ck.ob("ok", "raw-race", where)
    if indep(w.at) and not hazy(w.at):
        if w.par.N is None or FS(w.facts)(eq0(sub(w.par.N, I(1)))) is not True:
            return ck.ob("viol", "raw-race", where, "all iterations write element %s" % pp(w.at)[:200])
    # cells (x, y) named by the two vertices of a pair of a matching
    ms = matching_of(config, body)
    if D is not None and ms is not None:
        pr = T("idx", ms, K)
        ends = {idx(pr, I(0)), idx(pr, I(1))}
        ps = [poly(w.at, D), poly(o.at, D)]
        if all(p is not None and p[0] in ends and p[1] in ends and p[0] is not p[1] for p in ps):
            return ck.ob("ok", "raw-race", where)   # different pairs share no vertex
        if all(p is not None and p[0] in ends and p[1] in ends for p in ps):
            return ck.ob("ok", "raw-race", where)
    kf = [f for f in w.facts] + [subst(f, {K: K2}) for f in o.facts] + [nt(eq0(sub(K, K2)))]
    cm = countermodel(kf, nt(eq0(d)))
    if cm:
        return ck.ob("viol", "raw-race", where, "%s of different iterations meet, for example when %s" % (text, ", ".join("%s = %d" % (pp(k)[:60], v) for k, v in cm.items())))
    ck.ob("undecided", "raw-race", where, text)


def reads(ck, L, w, K, where):
    """checked reads of the memory that is written, in other iterations"""
    phis = [ph for lf, ph in L.phi.items() if w.base.op == "ref" and lf[0] is w.base.a[0]]
    bad = False
    for q in L.backs + L.exits:
        ts = list(q.facts) + [getpath(q.st.mem[lf[0]], lf[1]) for lf in L.phi if lf[0] in q.st.mem]
        for t in ts:
            for x in subterms(t):
                if x.op == "idx" and x.a[0] in phis and x.a[1] is not w.at:
                    if blocks(x.a[1], w.at, K, list(w.facts) + list(q.facts)):
                        continue
                    cm = countermodel(list(w.facts) + [nt(eq0(sub(K, T("k", "other")))), ge0(T("k", "other")), ge0(sub(sub(L.N, T("k", "other")), I(1))) if L.N is not None else TRUE],
                                      nt(eq0(sub(subst(x.a[1], {K: T("k", "other")}), w.at)))) if not hazy(x.a[1]) else None
                    if cm:
                        ck.ob("viol", "raw-race", where, "element %s is read while another iteration writes element %s" % (pp(x.a[1])[:100], pp(w.at)[:100]))
                    else:
                        ck.ob("undecided", "raw-race", where, "read of element %s" % pp(x.a[1])[:100])
                    bad = True
    if not bad:
        ck.ob("ok", "raw-race", where)


def decide(ck, config, P, inv, p, top, seen, up=0):
    """judges the accesses in p (or in what p calls) -> were there any?"""
    if p in seen:
        return True
    seen.add(p)
    bs = [b for b in P.bodies.values() if b["path"] == p and "{closure" not in b["dpath"]]
    found = False
    open_ = []
    for b in bs:
        accs, why = accesses(ck, config, b)
        where = nice(b)
        if accs is None:
            if up == 0:
                ck.ob("undecided", "raw-analysis", where, why)
            continue
        found |= bool(accs)
        races(ck, config, b, accs, where)
        if not judge(ck, config, p, b, accs, where, False):
            open_.append((b, accs, where))
    if open_:
        # with what the callers know about the arguments
        cs = sorted(callers(config, p)) if up < 2 else []
        res = [decide(ck, config, P, inv, c, top, seen, up + 1) for c in cs]
        if not cs or not all(res):
            for b, accs, where in open_:
                judge(ck, config, p, b, accs, where, True)
    return found


def memory(ck, config="default"):
    P = prog(config)
    inv = inventory(config)
    seen = set()
    for path in sorted(inv):
        if not any(b["path"] == path and "{closure" not in b["dpath"] for b in P.bodies.values()):
            ck.ob("undecided", "raw-analysis", path, "no function found for this code")
        elif not decide(ck, config, P, inv, path, path, seen):
            ck.ob("undecided", "raw-analysis", path, "the unchecked accesses were not reached: %s" % ", ".join(sorted(inv[path]))[:200])
