"""Countermodels: closed summary terms are evaluated in small finite models to refute a claimed equality.

Nothing of the analysed program is run here.  The engine has reduced a function to formulas
(`condition -> value`); if such a formula is not in a normal form known to be right, a small model
in which it differs from the specification refutes it and is the witness that is reported.
A formula without a countermodel is not discharged by this: it stays undecided.
"""
import math, random, struct
from terms import *
from terms import uncases, subst_bv


class Hazy(Exception):
    """the term contains something without a known meaning"""


class Undef(Exception):
    """the term has no value in this model"""


class A:
    """an aggregate: variant and fields"""
    __slots__ = ("v", "f")

    def __init__(self, v, *f):
        self.v = v
        self.f = tuple(f)

    def __eq__(self, o):
        return isinstance(o, A) and self.v == o.v and self.f == o.f

    def __hash__(self):
        return hash((self.v, self.f))

    def __repr__(self):
        return "%s(%s)" % (self.v if self.v else "", ", ".join(map(repr, self.f)))


def S(*f):
    return A(0, *f)


class M:
    """a square matrix"""
    __slots__ = ("r",)

    def __init__(self, rows):
        self.r = tuple(tuple(x) for x in rows)

    def __eq__(self, o):
        return isinstance(o, M) and self.r == o.r

    def __hash__(self):
        return hash(self.r)

    def __repr__(self):
        return "matrix%s" % (self.r,)


LIMIT = 3000000
_dyn = {}


def dyn(t):
    """does the value depend on the state of an enclosing recurrence?"""
    r = _dyn.get(t)
    if r is None:
        r = _dyn[t] = t.op in ("lv", "old") or any(dyn(x) for x in children(t))
    return r


class Ev:
    def __init__(self, env, calls=None):
        self.env = env          # atom -> value
        self.calls = calls or {}
        self.memo = {}
        self.steps = 0

    def val(self, t):
        if t in self.env:
            return self.env[t]
        if not t.bvh and not t.free and not dyn(t):
            r = self.memo.get(t)
            if r is None:
                try:
                    r = (True, self.ev(t))
                except (Hazy, Undef) as ex:
                    r = (False, ex)
                self.memo[t] = r
            if not r[0]:
                raise r[1]
            return r[1]
        return self.ev(t)

    def bind(self, b, v, body):
        old = self.env.get(b)
        self.env[b] = v
        try:
            return self.val(body)
        finally:
            if old is None:
                self.env.pop(b, None)
            else:
                self.env[b] = old

    def conds(self, cs):
        bad = None
        for c in cs:
            try:
                if not self.val(c):
                    return False
            except (Hazy, Undef) as ex:
                bad = ex if not isinstance(bad, Hazy) else bad
        if bad:
            raise bad
        return True

    def seq(self, t):
        v = self.val(t)
        if not isinstance(v, tuple):
            raise Hazy("no sequence: %s" % (v,))
        return v

    def at(self, s, i):
        if not isinstance(s, tuple):
            raise Hazy("no sequence")
        if not isinstance(i, int) or not 0 <= i < len(s):
            raise Undef("index %s of %d" % (i, len(s)))
        return s[i]

    def each(self, n, l):
        """yields the evaluated context for k = 0.. n-1"""
        N = self.val(n)
        if N == math.inf:
            raise Hazy("unbounded")
        b = l.a[0]
        for k in range(max(0, N)):
            self.steps += 1
            if self.steps > LIMIT:
                raise Hazy("too large")
            old = self.env.get(b)
            self.env[b] = k
            try:
                yield k
            finally:
                if old is None:
                    self.env.pop(b, None)
                else:
                    self.env[b] = old

    def pick(self, cs):
        """the payload of the case that holds, or None"""
        hit = bad = None
        for c, p in cs:
            try:
                if not self.conds(c):
                    continue
            except Undef as ex:      # what this case supposes is not so
                bad = ex
                continue
            if hit is not None and hit != p:
                raise Hazy("ambiguous cases")
            hit = p
        if hit is None and bad:
            raise bad
        return hit

    def ev(self, t):
        o, a = t.op, t.a
        f = getattr(self, "o_" + o, None)
        if f is None:
            raise Hazy(o + " " + pp(t)[:60])
        return f(t, *a)

    # ---- constants and arithmetic
    def o_int(self, t, n): return n
    def o_flt(self, t, s): return float(s)
    def o_true(self, t): return True
    def o_false(self, t): return False
    def o_inf(self, t): return math.inf
    def o_unit(self, t): return S()

    def o_lin(self, t, c, items):
        s = c
        for m, k in items:
            v = k
            for x in m:
                y = self.val(x)
                if not isinstance(y, (int, float)):
                    raise Hazy("no number")
                v *= y
            s += v
        return s

    def o_div(self, t, a, b):
        y = self.val(b)
        if y == 0:
            raise Undef("division by zero")
        return self.val(a) // y

    def o_rem(self, t, a, b):
        y = self.val(b)
        if y == 0:
            raise Undef("division by zero")
        return self.val(a) % y

    def o_imin(self, t, *a): return min(self.val(x) for x in a)
    def o_imax(self, t, *a): return max(self.val(x) for x in a)
    def o_max0(self, t, a): return max(0, self.val(a))
    def o_pow(self, t, a, b): return self.val(a) ** self.val(b)
    def o_powi(self, t, a, b): return self.val(a) ** self.val(b)
    def o_tofloat(self, t, a, *r): return float(self.val(a))
    def o_fadd(self, t, *a): return math.fsum(self.val(x) for x in a) if not any(abs(self.val(x)) == math.inf for x in a) else sum(self.val(x) for x in a)
    def o_fsub(self, t, a, b): return self.val(a) - self.val(b)
    def o_fmul(self, t, a, b): return self.val(a) * self.val(b)
    def bits(self, f, a, b):
        x, y = self.val(a), self.val(b)
        if isinstance(x, bool) and isinstance(y, bool):
            return bool(f(x, y))
        if not isinstance(x, int) or not isinstance(y, int) or x < 0 or y < 0:
            raise Hazy("bits of no natural number")
        return f(x, y)

    def o_BitOr(self, t, a, b): return self.bits(lambda x, y: x | y, a, b)
    def o_BitAnd(self, t, a, b): return self.bits(lambda x, y: x & y, a, b)
    def o_BitXor(self, t, a, b): return self.bits(lambda x, y: x ^ y, a, b)
    def o_Shl(self, t, a, b, w):
        # without overflow checks, as in a release build
        w = self.val(w)
        return self.bits(lambda x, y: x << y % w & (1 << w) - 1, a, b)

    def o_popcnt(self, t, a): return bin(self.bits(lambda x, y: x, a, a)).count("1")
    def o_trailing_zeros(self, t, a, w):
        x = self.bits(lambda x, y: x, a, a)
        return (x & -x).bit_length() - 1 if x else self.val(w)

    def o_leading_zeros(self, t, a, w): return self.val(w) - self.bits(lambda x, y: x, a, a).bit_length()
    def o_Shr(self, t, a, b): return self.bits(lambda x, y: x >> y, a, b)
    def o_Rem(self, t, a, b): return self.fn(math.fmod, a, b)
    def o_fneg(self, t, a): return -self.val(a)
    def o_fabs(self, t, a): return abs(self.val(a))

    def o_fdiv(self, t, a, b):
        y = self.val(b)
        if y == 0:
            raise Undef("division by zero")
        return self.val(a) / y

    def o_fsqrt(self, t, a):
        x = self.val(a)
        if x < 0:
            raise Undef("root of a negative number")
        return math.sqrt(x)

    def o_fhypot(self, t, a, b=None):
        if b is None:
            raise Hazy("hypot")
        return math.hypot(self.val(a), self.val(b))

    def o_fto_bits(self, t, a): return struct.unpack("<Q", struct.pack("<d", float(self.val(a))))[0]
    def o_f32(self, t, a): return struct.unpack("<f", struct.pack("<f", float(self.val(a))))[0]
    def rnd(self, f, a):
        x = self.val(a)
        return float(x) if abs(x) == math.inf or x != x else float(f(x))

    def o_ffloor(self, t, a): return self.rnd(math.floor, a)
    def o_fceil(self, t, a): return self.rnd(math.ceil, a)
    def o_ftrunc(self, t, a): return self.rnd(math.trunc, a)

    def o_ffract(self, t, a):
        x = self.val(a)
        if abs(x) == math.inf:
            raise Undef("fraction of an infinity")
        return x - math.trunc(x)

    def fn(self, f, *a):
        try:
            return f(*[self.val(x) for x in a])
        except (ValueError, ZeroDivisionError, OverflowError) as ex:
            raise Undef("%s" % ex)

    def o_fexp(self, t, a): return self.fn(math.exp, a)
    def o_fln(self, t, a): return self.fn(math.log, a)
    def o_flog10(self, t, a): return self.fn(math.log10, a)
    def o_flog2(self, t, a): return self.fn(math.log2, a)
    def o_fcbrt(self, t, a): return self.fn(math.cbrt, a)
    def o_frecip(self, t, a): return self.fn(lambda x: 1 / x, a)
    def o_fsin(self, t, a): return self.fn(math.sin, a)
    def o_fcos(self, t, a): return self.fn(math.cos, a)
    def o_frem_euclid(self, t, a, b): return self.fn(lambda x, y: x - abs(y) * math.floor(x / abs(y)), a, b)
    def o_fcopysign(self, t, a, b): return self.fn(math.copysign, a, b)
    def o_fmul_add(self, t, a, b, c): return self.fn(lambda x, y, z: x * y + z, a, b, c)

    def o_fsignum(self, t, a):
        return math.copysign(1.0, self.val(a))

    def o_fround(self, t, a):
        x = self.val(a)
        return math.copysign(math.floor(abs(x) + 0.5), x)

    def o_toint(self, t, a):
        x = self.val(a)
        return max(0, int(x))

    def o_abs_diff(self, t, a, b): return abs(self.val(a) - self.val(b))

    def o_fmin2(self, t, a, b): return min(self.val(a), self.val(b))
    def o_fmax2(self, t, a, b): return max(self.val(a), self.val(b))

    # ---- conditions
    def o_ge0(self, t, a): return self.val(a) >= 0
    def o_eq0(self, t, a): return self.val(a) == 0
    def o_flt_(self, t, a, b): return self.val(a) < self.val(b)
    def o_feq(self, t, a, b): return self.val(a) == self.val(b)
    def o_eqv(self, t, a, b): return self.val(a) == self.val(b)
    def o_not(self, t, a): return not self.val(a)
    def o_and(self, t, *a): return self.conds(a)
    def o_conj(self, t, *a): return self.conds(a)

    def o_or(self, t, *a):
        bad = None
        for x in a:
            try:
                if self.val(x):
                    return True
            except (Hazy, Undef) as ex:
                bad = ex if not isinstance(bad, Hazy) else bad
        if bad:
            raise bad
        return False

    def o_exists(self, t, n, l):
        bad = None
        for k in self.each(n, l):
            try:
                if self.val(l.a[1]):
                    return True
            except (Hazy, Undef) as ex:
                bad = ex if not isinstance(bad, Hazy) else bad
        if bad:
            raise bad
        return False

    def o_first(self, t, n, l):
        if self.val(n) == math.inf:
            for k in range(200):
                if self.bind(l.a[0], k, l.a[1]):
                    return k
            raise Hazy("unbounded")
        for k in self.each(n, l):
            if self.val(l.a[1]):
                return k
        raise Undef("no such index")

    # ---- aggregates
    def o_agg(self, t, kind, variant, *f):
        if kind == "array":
            return tuple(self.val(x) for x in f)
        return A(variant, *[self.val(x) for x in f])

    def o_fld(self, t, x, i):
        v = self.val(x)
        if isinstance(v, A) and i < len(v.f):
            return v.f[i]
        raise Hazy("no field: " + pp(t)[:60])

    def o_with(self, t, b, i, x):
        v = self.val(b)
        if isinstance(v, A) and i < len(v.f):
            f = list(v.f)
            f[i] = self.val(x)
            return A(v.v, *f)
        raise Hazy("no field")

    def o_dc(self, t, x, n):
        v = self.val(x)
        if not isinstance(v, A):
            raise Hazy("no variant")
        if v.v != n:
            raise Undef("other variant")
        return v

    def o_isvar(self, t, x, n):
        v = self.val(x)
        if not isinstance(v, A):
            raise Hazy("no variant")
        return v.v == n

    # ---- sequences
    def o_seq0(self, t): return ()
    def o_len(self, t, s): return len(self.seq(s))
    def o_idx(self, t, s, i): return self.at(self.seq(s), self.val(i))
    def o_push(self, t, s, x): return self.seq(s) + (self.val(x),)

    def o_shuffled(self, t, s, site):
        """some rearrangement, the same one for the same shuffle"""
        s = self.seq(s)
        key = repr([self.val(x) if isinstance(x, Term) else x for x in site.a]) if isinstance(site, Term) else repr(site)
        return tuple(random.Random("%s %s" % (key, s)).sample(s, len(s)))

    def o_sorted(self, t, s):
        s = self.seq(s)
        if not all(isinstance(x, int) for x in s):
            raise Hazy("order of the elements")
        return tuple(sorted(s))

    def o_dedup(self, t, s):
        s = self.seq(s)
        return tuple(x for i, x in enumerate(s) if not i or x != s[i - 1])

    def o_rev(self, t, s): return self.seq(s)[::-1]
    def o_cat(self, t, a, b): return self.seq(a) + self.seq(b)
    def o_rep(self, t, x, n): return (self.val(x),) * max(0, self.val(n))
    def o_map(self, t, n, l): return tuple(self.val(l.a[1]) for k in self.each(n, l))
    def o_trunc(self, t, s, n):
        if n.op == "named":
            bits = {"u8": 8, "u16": 16}.get(n.a[0])
            if bits is None:
                raise Hazy("cast")
            return self.val(s) & ((1 << bits) - 1)
        return self.seq(s)[:self.val(n)]

    def o_pop(self, t, s):
        v = self.seq(s)
        if not v:
            raise Undef("pop of an empty sequence")
        return v[:-1]

    def o_upd(self, t, s, i, x):
        v, k = self.seq(s), self.val(i)
        self.at(v, k)
        return v[:k] + (self.val(x),) + v[k + 1:]

    def o_swap(self, t, s, i, j):
        v = list(self.seq(s))
        i, j = self.val(i), self.val(j)
        self.at(tuple(v), i), self.at(tuple(v), j)
        v[i], v[j] = v[j], v[i]
        return tuple(v)

    def o_sub(self, t, s, a, b):
        v, a, b = self.seq(s), self.val(a), self.val(b)
        if not 0 <= a <= b <= len(v):
            raise Undef("range")
        return v[a:b]

    def o_updsub(self, t, s, a, b, x):
        v, a, b, w = self.seq(s), self.val(a), self.val(b), self.seq(x)
        if not 0 <= a <= b <= len(v) or len(w) != b - a:
            raise Undef("range")
        return v[:a] + w + v[b:]

    def o_contains(self, t, s, x): return self.val(x) in self.seq(s)
    def o_setof(self, t, s): return frozenset(self.seq(s))
    def o_map0(self, t, *a): return frozenset()

    def o_setins(self, t, s, x):
        v = self.val(s)
        if not isinstance(v, frozenset):
            raise Hazy("no set")
        return v | {self.val(x)}

    def o_setlen(self, t, s):
        v = self.val(s)
        if not isinstance(v, frozenset):
            raise Hazy("no set")
        return len(v)

    def o_maphas(self, t, s, x):
        v = self.val(s)
        if not isinstance(v, frozenset):
            raise Hazy("no set")
        return self.val(x) in v

    def o_cases(self, t, *cs):
        p = self.pick(uncases(t))
        if p is None:
            raise Undef("no case")
        return self.val(p[0]) if len(p) == 1 else tuple(self.val(x) for x in p)

    o_casev = o_cases

    def o_collect(self, t, n, l):
        out = ()
        for k in self.each(n, l):
            p = self.pick(uncases(l.a[1]))
            if p is not None:
                out += tuple(self.val(x) for x in p)
        return out

    def o_fsum(self, t, n, body):
        if body.op != "lam":
            p = self.pick(uncases(body))
            return 0.0 if p is None else self.val(p[0]) * max(0, self.val(n))
        s = 0.0
        for k in self.each(n, body):
            p = self.pick(uncases(body.a[1]))
            if p is not None:
                s += self.val(p[0])
        return s

    def o_isum(self, t, n, body):
        s = 0
        for k in self.each(n, body):
            p = self.pick(uncases(body.a[1]))
            if p is not None:
                s += self.val(p[0])
        return s

    def o_argopt(self, t, kind, n, ini, tie, l):
        best = None
        if ini is not NONE_:
            best = (self.val(ini.a[0]), self.val(ini.a[1]))
        for k in self.each(n, l):
            p = self.pick(uncases(l.a[1]))
            if p is None:
                continue
            key = self.val(p[0])
            if best is None or (key < best[0] if kind == "min" else key > best[0]) or (tie == "last" and key == best[0]):
                best = (key, self.val(p[1]))
        if best is None:
            raise Undef("empty")
        return best[1]

    def o_scatter(self, t, base, n, l):
        v = list(self.seq(base))
        for k in self.each(n, l):
            p = self.pick(uncases(l.a[1]))
            if p is None:
                continue
            for ix, x in zip(p[::2], p[1::2]):
                i = self.val(ix)
                self.at(tuple(v), i)
                old = T("old", ix)
                o0 = self.env.get(old)
                self.env[old] = v[i]
                try:
                    v[i] = self.val(x)
                finally:
                    if o0 is None:
                        self.env.pop(old, None)
                    else:
                        self.env[old] = o0
        return tuple(v)

    def o_loopval(self, t, i, n, inits, l, b):
        st = [self.val(x) for x in inits.a]
        saved = {T("lv", b + j): self.env.get(T("lv", b + j)) for j in range(len(st))}
        try:
            for k in self.each(n, l):
                for j, v in enumerate(st):
                    self.env[T("lv", b + j)] = v
                p = self.pick(uncases(l.a[1]))
                if p is None:
                    raise Undef("no case")
                st = [self.val(x) for x in p]
        finally:
            for k, v in saved.items():
                if v is None:
                    self.env.pop(k, None)
                else:
                    self.env[k] = v
        return st[i]

    # ---- matrices
    def mat(self, t):
        v = self.val(t)
        if not isinstance(v, M):
            raise Hazy("no matrix: " + pp(t)[:60])
        return v

    def o_dim(self, t, m):
        v = self.val(m)
        if isinstance(v, A) and len(v.f) == 1:
            v = v.f[0]
        if isinstance(v, M):
            return len(v.r)
        if isinstance(v, tuple):
            return len(v)
        raise Hazy("no matrix")

    def o_idx2(self, t, m, i, j):
        v = self.val(m)
        if isinstance(v, A) and len(v.f) == 1:
            v = v.f[0]
        rows = v.r if isinstance(v, M) else v
        return self.at(self.at(rows, self.val(i)), self.val(j))

    def put(self, v, i, j, x):
        self.at(v.r, i), self.at(v.r[i], j)
        r = list(v.r)
        r[i] = r[i][:j] + (x,) + r[i][j + 1:]
        return M(r)

    def o_upd2(self, t, m, i, j, x):
        v = self.val(m)
        if isinstance(v, A) and len(v.f) == 1:
            if isinstance(v.f[0], M):
                return A(v.v, self.put(v.f[0], self.val(i), self.val(j), self.val(x)))
            w = self.put(M(v.f[0]), self.val(i), self.val(j), self.val(x))
            return A(v.v, w.r)
        if not isinstance(v, M):
            raise Hazy("no matrix")
        return self.put(v, self.val(i), self.val(j), self.val(x))

    def o_scatter2(self, t, base, n, l):
        v = self.mat(base)
        for k in self.each(n, l):
            p = self.pick(uncases(l.a[1]))
            if p is None:
                continue
            for ix, jx, x in zip(p[::3], p[1::3], p[2::3]):
                i, j = self.val(ix), self.val(jx)
                self.at(v.r, i), self.at(v.r[i], j)
                old = T("old", ix, jx)
                o0 = self.env.get(old)
                self.env[old] = v.r[i][j]
                try:
                    v = self.put(v, i, j, self.val(x))
                finally:
                    if o0 is None:
                        self.env.pop(old, None)
                    else:
                        self.env[old] = o0
        return v

    def o_mat(self, t, n, l):
        N = self.val(n)
        b1, b2 = l.a[0], l.a[1]
        s1, s2 = self.env.get(b1), self.env.get(b2)
        try:
            rows = []
            for i in range(N):
                self.env[b1] = i
                row = []
                for j in range(N):
                    self.env[b2] = j
                    row.append(self.val(l.a[2]))
                rows.append(row)
        finally:
            for b, s in ((b1, s1), (b2, s2)):
                if s is None:
                    self.env.pop(b, None)
                else:
                    self.env[b] = s
        return M(rows)

    def o_setdiag(self, t, m, l):
        v = [list(r) for r in self.mat(m).r]
        b = l.a[0]
        for i in range(len(v)):
            v[i][i] = self.bind(b, i, l.a[1])
        return M(v)

    def o_row(self, t, m, i): return self.at(self.mat(m).r, self.val(i))
    def o_col(self, t, m, j): return tuple(self.at(r, self.val(j)) for r in self.mat(m).r)

    def o_call(self, t, name, *args):
        f = self.calls.get(name.split("::<")[0])
        if f is None:
            raise Hazy("call " + name)
        return f(*[self.val(x) for x in args])


def kxs(p):
    """the unknown numbers of rounds in a path"""
    out = set()
    seen = set()
    todo = list(p.facts) + ([p.ret] if isinstance(p.ret, Term) else [])
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == "kx":
            out.add(t)
        todo.extend(children(t))
    return sorted(out, key=lambda t: repr(t.a))


def outcome(paths, env, out, calls=None, ev=Ev, rounds=8, strict=False):
    """-> ('value', v, path) | ('none',) no path applies (the program stops with a panic) | ('hazy', why)"""
    hits, hz, soft = [], None, None
    e = ev(dict(env), calls)
    for p in paths:
        ks = _kx.get(p)
        if ks is None:
            ks = _kx[p] = kxs(p)
        if len(ks) > 1 or ks and ks[0] in INNERKX:
            hz = "several loops without a bound"
            continue
        # the loop is left in the first round in which the conditions of this exit hold
        for r in range(rounds) if ks else (None,):
            if ks:
                e = ev(dict(env), calls)
                e.env[ks[0]] = r
            try:
                if not e.conds(p.facts):
                    continue
            except (Hazy, Undef) as ex:
                if isinstance(ex, Undef) and ks:
                    continue
                if hz is None or isinstance(ex, Hazy):
                    hz = "%s: %s" % (type(ex).__name__, ex)
                continue
            try:
                hits.append((out(p, e), p, r or 0))
            except (Hazy, Undef) as ex:
                if isinstance(ex, Undef) and any(_kx.setdefault(q, kxs(q)) for q in paths):
                    soft = "%s: %s" % (type(ex).__name__, ex)      # a loop which was left before
                elif hz is None or isinstance(ex, Hazy):
                    hz = "%s: %s" % (type(ex).__name__, ex)
            break
        if hits and len(paths) > 3 and not any(_kx.get(q) or q not in _kx for q in paths):
            break
    if strict and not hits and hz and hz.startswith("Undef") and not any(_kx.get(q) or q not in _kx for q in paths):
        return ("none",)       # no path is defined here
    if hz or soft and not hits:
        return ("hazy", hz or soft)
    if not hits:
        return ("none",)
    left = [x for x in hits if _kx[x[1]]]
    if left:      # a loop which is left early does not run to its end
        if len({_kx[x[1]][0] for x in left}) > 1:
            return ("hazy", "several loops are left early")
        r = min(x[2] for x in left)
        hits = [x for x in left if x[2] == r]
    if any(v != hits[0][0] for v, p, r in hits):
        return ("hazy", "ambiguous paths")
    return ("value", hits[0][0], hits[0][1])


_kx = {}


def refute(paths, models, spec, out=None, calls=None, same=None, ev=Ev):
    """-> (countermodel, got, want) or None; also the number of models that could be evaluated"""
    out = out or (lambda p, e: e.val(p.ret))
    same = same or close
    n, hz = 0, None
    for env, key in models:
        want = spec(key)
        if want is None:
            continue
        r = outcome(paths, env, out, calls, ev)
        if r[0] == "hazy":
            hz = r[1]
            continue
        n += 1
        got = r[1] if r[0] == "value" else "panic"
        if r[0] == "none" or not same(got, want):
            return (key, got, want), n, hz
    return None, n, hz


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or (math.isfinite(a) and math.isfinite(b) and abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, A) and isinstance(b, A):
        return a.v == b.v and close(a.f, b.f)
    if isinstance(a, M) and isinstance(b, M):
        return close(a.r, b.r)
    return a == b


class ModelCk:
    """A normal form which is not recognised is no violation by itself: small models of the whole function decide.
    models() -> (countermodel text or None, number of models evaluated, why others were not)"""

    def __init__(self, ck, models, local=()):
        self.ck, self.models, self.got, self.local = ck, models, None, set(local)

    def require(self, cond, rule, where, detail, terms=(), key=None):
        if cond or rule in self.local:
            return self.ck.require(cond, rule, where, detail, terms, key)
        return self.ob("undecided", rule, where, detail, key)

    def ob(self, status, rule, where, detail="", key=None):
        if status == "undecided":
            if self.got is None:
                try:
                    self.got = self.models()
                except RecursionError:
                    self.got = (None, 0, "recursion limit")
            bad, n, hz = self.got
            if bad:
                status, detail = "viol", bad + "; " + detail
            else:
                detail += " (%d models without a countermodel%s)" % (n, ", not evaluated: " + hz if hz else "")
        return self.ck.ob(status, rule, where, detail, key)

    def __getattr__(self, a):
        return getattr(self.ck, a)
