"""Instance files: which part of a document becomes which field, and what the generator writes."""
import re
from lib import *
from terms import uncases, cases
import small as SM
from small import A as AG, S as ST
from rules_data import analyse, writes, Opaque, solve, hits, fold
from rules_cli import pieces, flat, joined, to_stdout, Odd, disp

P0 = T("sym", "*p0")
# where the format (XML-TSPLIB) keeps each field; a missing one of the second group makes the document useless
NAMES = {
    "TravellingSalesmanProblemInstance": {"name": {"name"}, "source": {"source"}, "description": {"description"}, "double_precision": {"doublePrecision"},
                                          "ignored_digits": {"ignoredDigits"}, "graph": {"graph"}},
    "Graph": {"vertices": {"$value", "vertex"}},
    "Vertex": {"edges": {"$value", "edge"}},
    "Edge": {"to": {"$text", "$value"}, "cost": {"@cost"}},
}
NEEDED = {("TravellingSalesmanProblemInstance", "graph"), ("Edge", "to"), ("Edge", "cost")}


def anchors(config, ty, tail, trait="Deserialize<'de>"):
    pat = re.compile(r"impl serde::%s for (\w+::)*%s>::%s$" % (re.escape(trait), ty, tail))
    return [b for b in prog(config).bodies.values() if pat.search(b["path"])]


def fields_of(config, ty):
    for k, v in prog(config).adts.items():
        if re.search(r"(^|::)parser::%s$" % ty, k) and not v["enum"]:
            return [f[0] for f in v["variants"][0]["fields"]], k
    return None, None


def variant(t):
    """(variant, fields) of an aggregate"""
    if t.op == "agg" and t.a[0] != "array":
        return t.a[1], t.a[2:]
    return None, ()


def mapping(ck, config="default"):
    for ty, want in NAMES.items():
        fs, path = fields_of(config, ty)
        if fs is None:
            ck.ob("viol", "anchor", "parser::" + ty, "the public type is gone")
            continue
        missing = [f for f in want if f not in fs]
        if missing:
            ck.ob("viol", "anchor", "parser::" + ty, "the public field %s is gone" % ", ".join(missing))
            continue
        reading(ck, config, ty, want, fs)
        writing(ck, config, ty, want, fs)


def reading(ck, config, ty, want, fs):
    where = "parser::%s" % ty
    vs = anchors(config, ty, r"deserialize::__FieldVisitor as serde::de::Visitor<'de>>::visit_str")
    vm = anchors(config, ty, r"deserialize::__Visitor<'de> as serde::de::Visitor<'de>>::visit_map")
    if len(vs) != 1 or len(vm) != 1:
        ck.ob("undecided", "read", where, "not deserialized by derived code")
        return
    names = {}
    ps = analyse(ck, config, vs[0], "read")
    if ps is None:
        return
    for p in ps:
        eq = [f for f in p.facts if f.op == "eqv" and any(x.op == "str" for x in f.a)]
        v, f = variant(p.ret)
        if len(eq) != 1 or v != 0 or len(f) != 1 or variant(f[0])[0] is None:
            continue
        s = [x for x in eq[0].a if x.op == "str"][0]
        names[s.a[0]] = variant(f[0])[0]
    ps = analyse(ck, config, vm[0], "read")
    if ps is None:
        return
    if not ps:
        ck.ob("undecided", "read", where, "no path")
        return
    ls = [e for e in loops(ps[0].ev)]
    if len(ls) != 1:
        ck.ob("undecided", "read", where, "%d loops over the content" % len(ls))
        return
    L = ls[0].x["loop"]
    nv = [len(v["variants"]) for k, v in prog(config).adts.items() if re.search(r"for (\w+::)*%s>::deserialize::__Field$" % ty, k)]
    nv = nv[0] if len(nv) == 1 else len(names) + 1

    def is_key(t):
        # the field's name in Some(name) of a key that was read
        return (t.op == "fld" and t.a[0].op == "dc" and t.a[0].a[0].op == "fld" and t.a[0].a[0].a[0].op == "dc"
                and t.a[0].a[0].a[0].a[0].op == "unk" and str(t.a[0].a[0].a[0].a[0].a[0]).endswith("MapAccess::next_key"))
    reads = {}     # phi -> [(key variant, value)]
    for q in L.backs:
        ks = set(range(nv))
        for f in q.facts:
            neg_ = f.op == "not"
            f = f.a[0] if neg_ else f
            if f.op == "isvar" and is_key(f.a[0]):
                ks &= (set(range(nv)) - {f.a[1]}) if neg_ else {f.a[1]}
        key = ks.pop() if len(ks) == 1 else None
        for k, ph in L.phi.items():
            v = EE.getpath(q.st.mem[k[0]], k[1])
            if v is ph or any(x.op == "unk" and x.a[0] == "out0" and v is x for x in (v,)):
                continue
            vv, f = variant(v)
            if vv == 1 and len(f) == 1:
                reads.setdefault(ph, []).append((key, f[0]))
    oks = []
    for p in ps:
        v, f = variant(p.ret)
        if v == 0 and len(f) == 1 and variant(f[0])[0] is not None and len(variant(f[0])[1]) == len(fs):
            e = loops(p.ev)[0]
            oks.append((p, [unclose(x, e) for x in variant(f[0])[1]], [unclose(x, e) for x in p.facts]))
    if not oks:
        ck.ob("undecided", "read", where, "no path that returns the value")
        return
    for i, fl in enumerate(fs):
        if fl not in want:
            continue
        w2 = "%s.%s" % (where, fl)
        phs, bad, hz = set(), None, None
        for p, vals, facts in oks:
            v = vals[i]
            if v.op == "fld" and v.a[0].op == "dc" and v.a[0].a[0].op == "phi" and v.a[0].a[1] == 1:
                phs.add(v.a[0].a[0])
            elif any(x.op == "unk" and str(x.a[0]).endswith("missing_field") for x in subterms(v)):
                pass
            elif hazy(v) or any(x.op == "phi" for x in subterms(v)):
                hz = "is set to %s" % pp(v)[:100]
            elif (ty, fl) in NEEDED:
                bad = "if it is missing %s is used instead of an error" % pp(v)[:60]
        if bad:
            ck.ob("viol", "required", w2, bad)
            continue
        if hz or len(phs) != 1:
            ck.ob("undecided", "read", w2, hz or "not a single value read")
            continue
        ph = phs.pop()
        rd = reads.get(ph, [])
        if not rd or any(k is None for k, v in rd):
            ck.ob("undecided", "read", w2, "where it is read is not clear")
            continue
        got = sorted(n for n, k in names.items() if any(k is k2 or k == k2 for k2, v in rd))
        if not (set(got) & want[fl]):
            ck.ob("viol", "name", w2, "is read from %s instead of %s" % (" or ".join(got) or "nothing", " or ".join(sorted(want[fl]))))
            continue
        if any(n in got for f2, ns in want.items() if f2 != fl for n in ns):
            ck.ob("viol", "name", w2, "is also read from %s" % got)
            continue
        ck.ob("ok", "name", w2)
        for k, v in rd:
            value_read(ck, config, w2, v)


def plain_value(v):
    """is this the value as the deserializer delivers it?"""
    return v.op == "fld" and v.a[0].op == "dc" and v.a[0].a[0].op == "unk" and str(v.a[0].a[0].a[0]).endswith(("next_value", "::deserialize"))


def value_read(ck, config, where, v):
    if plain_value(v):
        ck.ob("ok", "verbatim", where)
        return
    if v.op == "fld" and plain_value(v.a[0]):
        # a wrapper of serde: the value comes from a function of the program
        ty = where.split("::")[-1].split(".")[0]
        bs = [b for b in prog(config).bodies.values() if re.search(r"for (\w+::)*%s>::deserialize::.*::visit_map::__DeserializeWith<'de> as serde::Deserialize<'de>>::deserialize$" % ty, b["path"])]
        if len(bs) == 1:
            target = bs[0]
            ps = analyse(ck, config, target, "verbatim")
            if ps is None:
                return
            for q in [prog(config).bodies[x] for x in reach(prog(config), bs[0]["id"])]:
                if any(re.search(r"(^|\W)f32(\W|$)", l[0]) for l in q["locals"]):
                    ck.ob("viol", "verbatim", where, "the value read is cut to single precision in %s" % nice(q))
                    return
            for p in ps:
                r, f = variant(p.ret)
                if r != 0:
                    continue
                x = variant(f[0])[1][0] if variant(f[0])[0] is not None and variant(f[0])[1] else f[0]
                if plain_value(x):
                    continue
                base = [y for y in subterms(x) if plain_value(y)]
                rest = subst(x, {b: T("sym", "value") for b in base})
                if base and not hazy(rest):
                    ck.ob("viol", "verbatim", where, "the value read is changed to %s" % pp(rest)[:120])
                else:
                    ck.ob("undecided", "verbatim", where, "the value is %s" % pp(x)[:120])
                return
            ck.ob("ok", "verbatim", where)
            return
    ck.ob("undecided", "verbatim", where, "the value is %s" % pp(v)[:120])


def writing(ck, config, ty, want, fs):
    where = "parser::%s" % ty
    bs = anchors(config, ty, "serialize", "Serialize")
    if len(bs) != 1:
        ck.ob("undecided", "write", where, "not serialized by derived code")
        return
    ps = analyse(ck, config, bs[0], "write")
    if ps is None:
        return
    # the longest path is the one on which nothing failed
    ws = {}
    for p in ps:
        for e in walk(p.ev):
            if e.kind == "ext" and e.name.endswith("::serialize_field") and len(e.args) == 3 and e.args[1].op == "str":
                ws[e.args[1].a[0]] = e.args[2]
    for i, fl in enumerate(fs):
        if fl not in want:
            continue
        w2 = "%s.%s" % (where, fl)
        ok = [n for n, v in ws.items() if n in want[fl]]
        if not ok:
            ck.ob("undecided" if not ws else "viol", "written", w2, "is not written as %s, only %s are written" % (" or ".join(sorted(want[fl])), ", ".join(sorted(ws))))
            continue
        v = ws[ok[0]]
        if v is fld(P0, i) or pp(v) == pp(fld(P0, i)):
            ck.ob("ok", "written", w2)
        elif hazy(v):
            ck.ob("undecided", "written", w2, "%s is written as %s" % (ok[0], pp(v)[:100]))
        else:
            ck.ob("viol", "written", w2, "%s is written as %s" % (ok[0], pp(v)[:100]))


# ---------------------------------------------------------------- the document as a tree with loops
class Elem:
    def __init__(self, name, attrs):
        self.name, self.attrs, self.kids = name, attrs, []

    def elems(self, name=None):
        return [k for k in self.kids if isinstance(k, Elem) and (name is None or k.name == name)]

    def __repr__(self):
        return "<%s %s>%s</>" % (self.name, self.attrs, self.kids)


class NoXml(Exception):
    pass


TAG = re.compile(r"<(?:\?[^>]*\?|!--.*?--|(/?)([A-Za-z_][\w.\-]*)((?:\s+[\w:.\-]+\s*=\s*(?:\"[^\"<]*\"|'[^'<]*'))*)\s*(/?))>", re.S)


def tree(items):
    """text and other items (values, loops) -> nodes; every element is closed where it was opened"""
    txt, tab = "", []
    for x in items:
        if isinstance(x, str):
            txt += x
        else:
            txt += chr(0xE000 + len(tab))
            tab.append(x)

    def cut(s, trim=True):
        out, buf = [], ""
        for c in s:
            if 0xE000 <= ord(c) < 0xE000 + len(tab):
                if buf.strip() or (buf and not trim):
                    out.append(buf)
                buf = ""
                out.append(tab[ord(c) - 0xE000])
            else:
                buf += c
        if buf.strip() or (buf and not trim):
            out.append(buf)
        return [x.strip() if isinstance(x, str) and trim else x for x in out]
    root = Elem("", {})
    stack = [root]
    i = 0
    while i < len(txt):
        j = txt.find("<", i)
        if j < 0:
            stack[-1].kids += cut(txt[i:])
            break
        stack[-1].kids += cut(txt[i:j])
        m = TAG.match(txt, j)
        if not m:
            raise NoXml("%r" % txt[j:j + 30])
        i = m.end()
        if not m.group(2):
            continue
        if m.group(1):
            if stack[-1].name != m.group(2) or len(stack) == 1:
                raise NoXml("</%s> closes %s" % (m.group(2), stack[-1].name or "nothing"))
            stack.pop()
            continue
        e = Elem(m.group(2), {k: cut(a or b, False) for k, a, b in re.findall(r"([\w:.\-]+)\s*=\s*(?:\"([^\"]*)\"|'([^']*)')", m.group(3))})
        stack[-1].kids.append(e)
        if not m.group(4):
            stack.append(e)
    if len(stack) != 1:
        raise NoXml("<%s> is not closed" % stack[-1].name)
    return root.kids


class LoopItem:
    def __init__(self, L, alts):
        self.L, self.alts = L, alts


def items(ev):
    out = []
    for e in ev:
        L = e.x.get("loop") if e.kind in ("loop", "par") else None
        if L is not None:
            alts = [(q, items(q.ev)) for q in L.backs]
            late = [items(q.ev) for q in L.exits]
            if any(a for q, a in alts) or any(late):
                if any(late) or e.kind == "par":
                    raise Odd("prints where a loop is left")
                out.append(LoopItem(L, alts))
        elif to_stdout(e):
            for q in pieces(e.args[0]):
                out += flat(q)
    return joined(out)


def expand(its):
    """the loops' bodies as trees, too"""
    return [LoopItem(x.L, [(q, tree(expand(a))) for q, a in x.alts]) if isinstance(x, LoopItem) else x for x in its]


# ---------------------------------------------------------------- small documents
SIZES = (0, 1, 2, 3, 4, 7, 12)
EXTREME = T("sym", "extreme numbers")


class Ev2(SM.Ev):
    def o_str(self, t, s):
        return s

    def o_rand(self, t, *a):
        # some number for each place and iteration
        h = 0
        for x in a:
            if isinstance(x, Term) and x.op == "site":
                for y in x.a:
                    if isinstance(y, Term):
                        h = h * 31 + 7 * self.val(y) + 1
                    else:
                        h = h * 31 + sum(ord(c) * (i + 1) for i, c in enumerate(str(y)))
            else:
                h = h * 31 + (x if isinstance(x, int) else sum(map(ord, str(x))))
        r = (h * 2654435761 % 1000003) / 1000003.0
        return (0.0 if r < 0.5 else 0.9990234375) if EXTREME in self.env else r


def show(e, q):
    if isinstance(q, str):
        return q
    if q.op != "fmtarg":
        raise SM.Hazy("formats " + pp(q)[:60])
    if str(q.a[0]).startswith("options"):
        inner = q.a[1]
        if len(q.a) > 2 and q.a[2].op == "int" and inner.op == "fmtarg" and inner.a[0] == "display":
            v = e.val(inner.a[1])
            if isinstance(v, float):
                return "%.*f" % (q.a[2].a[0], v)
        raise SM.Hazy("formats with options")
    if q.a[0] not in ("display", "debug"):
        raise SM.Hazy("formats " + pp(q)[:60])
    v = e.val(q.a[1])
    if isinstance(v, bool) or not isinstance(v, (int, float, str)):
        raise SM.Hazy("formats %s" % (v,))
    return v if isinstance(v, str) else repr(v)


def text(ev, e):
    """the text printed in a small model"""
    out = ""
    for x in ev:
        L = x.x.get("loop") if x.kind in ("loop", "par") else None
        if L is None:
            if to_stdout(x):
                for q in pieces(x.args[0]):
                    for y in flat(q):
                        out += show(e, y)
            continue
        if not any(to_stdout(y) for y in walk([x])):
            continue
        if x.kind == "par":
            raise SM.Hazy("prints in parallel")
        out += spin(L, e)
    return out


def spin(L, e):
    out, k = "", 0
    cur = {}
    for l, ph in L.phi.items():
        try:
            cur[ph] = e.val(L.init[l])
        except (SM.Hazy, SM.Undef):
            pass
    while True:
        if L.phi:
            e.memo = {}
        k += 1
        if k > 60:
            raise SM.Hazy("too many iterations")
        e.env[L.K] = k - 1
        for l in L.phi.values():
            e.env.pop(l, None)
        e.env.update(cur)
        hit = [q for q in list(L.backs) + list(L.exits) if e.conds(q.facts)]
        if not hit:
            raise SM.Undef("no way on")
        if len(hit) > 1:
            raise SM.Hazy("ambiguous paths")
        q = hit[0]
        out += text(q.ev, e)
        if any(q is x for x in L.exits):
            break
        nxt = {}
        for l, ph in L.phi.items():
            try:
                nxt[ph] = e.val(EE.getpath(q.st.mem[l[0]], l[1]))
            except (SM.Hazy, SM.Undef):
                pass
        cur = nxt
    e.env.pop(L.K, None)
    for ph in L.phi.values():
        e.env.pop(ph, None)
    e.memo = {}
    return out


def judge(doc, n, cost=None):
    """what is wrong with the document of an instance of n vertices"""
    try:
        top = [x for x in tree([doc])]
    except NoXml as ex:
        return "is no well formed document (%s)" % ex
    if len(top) != 1 or not isinstance(top[0], Elem):
        return "has no single root element"
    r = top[0]
    if r.name != "travellingSalesmanProblemInstance":
        return "has the root <%s>" % r.name
    for f in ("name", "source", "description", "doublePrecision", "ignoredDigits", "graph"):
        if len(r.elems(f)) != 1:
            return "has %d elements <%s>" % (len(r.elems(f)), f)
    for f in ("doublePrecision", "ignoredDigits"):
        t = "".join(map(str, r.elems(f)[0].kids))
        if not t.isdigit() or int(t) >= 2 ** 32:
            return "has %r in <%s>" % (t, f)
    vs = r.elems("graph")[0].kids
    if any(not isinstance(v, Elem) or v.name != "vertex" for v in vs) or len(vs) != n:
        return "has %d vertices" % len(vs)
    got = {}
    for i, v in enumerate(vs):
        for x in v.kids:
            if not isinstance(x, Elem) or x.name != "edge" or set(x.attrs) != {"cost"}:
                return "has %s in vertex %d" % (x, i)
            try:
                j, c = int("".join(x.kids)), float("".join(x.attrs["cost"]))
            except ValueError:
                return "has an edge %s" % x
            if (i, j) in got:
                return "has two edges from %d to %d" % (i, j)
            got[i, j] = c
    for i in range(n):
        for j in range(n):
            if (i == j) != ((i, j) not in got):
                return ("has no edge from %d to %d" if i != j else "has an edge from %d to %d") % (i, j)
    if set(got) - {(i, j) for i in range(n) for j in range(n)}:
        return "has an edge to a vertex that does not exist"
    for (i, j), c in got.items():
        if cost is not None:
            if not SM.close(c, cost(i, j)) or abs(c - cost(i, j)) > 1e-6:
                return "has the cost %r for the edge from %d to %d instead of %r" % (c, i, j, cost(i, j))
        elif got[j, i] != c:
            return "has different costs %r and %r for the edges between %d and %d" % (c, got[j, i], i, j)
        elif not 0 <= c < float("inf"):
            return "has the cost %r" % c
        else:
            for k in range(n):
                if k not in (i, j) and got[i, k] + got[k, j] < c - 1e-6:
                    return "has costs which are no distances (%d to %d)" % (i, j)
    return None


# ---------------------------------------------------------------- the generator
def distance(v, x, y):
    """is v the euclidean distance of point x and point y, each a function of its index?"""
    if v.op != "fsqrt":
        return False
    s = v.a[0]
    parts = list(s.a) if s.op == "fadd" else [s]
    z = T("k", "point")
    seen = []
    for q in parts:
        if not isinstance(q, Term) or q.op != "fmul" or len(q.a) != 2:
            return False
        ds = []
        for d in q.a:
            if d.op != "fsub":
                return False
            ds.append(frozenset(d.a))
        if ds[0] != ds[1] or len(ds[0]) != 2:
            return False
        a, b = tuple(q.a[0].a)
        ax, ay = x in a.free, y in a.free
        bx, by = x in b.free, y in b.free
        if ax and by and not ay and not bx and subst(a, {x: z}) is subst(b, {y: z}):
            seen.append(subst(a, {x: z}))
        elif ay and bx and not ax and not by and subst(a, {y: z}) is subst(b, {x: z}):
            seen.append(subst(a, {y: z}))
        else:
            return False
    return len(seen) == 2 and seen[0] is not seen[1]


def dims(t):
    """(rows, columns) of a vector of vectors"""
    while t.op in ("upd", "scatter", "loopval"):
        if t.op == "loopval":
            if t.a[0] != 0 or len(t.a[2].a) != 1:
                return None
            t = t.a[2].a[0]
        else:
            t = t.a[0]
    if t.op == "rep" and t.a[0].op == "rep":
        return t.a[1], t.a[0].a[1]
    if t.op in ("collect", "map"):
        return None
    return None


def form(nodes, n, square=None, entry=None):
    """why the document is not, in normal form, the complete graph of n vertices; None if it is"""
    if len(nodes) != 1 or not isinstance(nodes[0], Elem):
        return "root"
    r = nodes[0]
    if r.name != "travellingSalesmanProblemInstance":
        return "root <%s>" % r.name
    for f in ("name", "source", "description", "doublePrecision", "ignoredDigits", "graph"):
        if len(r.elems(f)) != 1:
            return "<%s>" % f
        if f != "graph" and any(not isinstance(x, (str, Term)) for x in r.elems(f)[0].kids):
            return "<%s>" % f
    for f in ("doublePrecision", "ignoredDigits"):
        k = r.elems(f)[0].kids
        if len(k) != 1 or not (isinstance(k[0], str) and k[0].isdigit() or isinstance(k[0], Term) and k[0].op == "fmtarg" and k[0].a[1].op == "int" and 0 <= k[0].a[1].a[0] < 2 ** 32):
            return "<%s>" % f
    g = r.elems("graph")[0].kids
    if len(g) != 1 or not isinstance(g[0], LoopItem) or g[0].L.N is None or not (g[0].L.N is n):
        return "loop over the vertices"
    row = g[0].L.K
    if len(g[0].alts) != 1:
        return "vertices left out"
    q, ns = g[0].alts[0]
    if len(ns) != 1 or not isinstance(ns[0], Elem) or ns[0].name != "vertex" or len(ns[0].kids) != 1 or not isinstance(ns[0].kids[0], LoopItem):
        return "vertex"
    l = ns[0].kids[0]
    col = l.L.K
    N = l.L.N
    if N is None:
        return "loop over the edges"
    if square is not None and N is length(idx(square, row)):
        N = n
    if N is not n:
        return "loop over the edges up to %s" % pp(N)[:60]
    some = False
    for q, ns in l.alts:
        f = FS(list(q.facts))
        if f.dead:
            continue
        same = f(ieq(row, col))
        if not ns:
            if same is not True:
                return "edges left out if %s" % ", ".join(pp(x)[:60] for x in q.facts)
            continue
        if same is not False:
            return "edge from a vertex to itself"
        e = ns[0]
        if len(ns) != 1 or not isinstance(e, Elem) or e.name != "edge" or set(e.attrs) != {"cost"}:
            return "edge"
        if len(e.kids) != 1 or e.kids[0] is not disp(col):
            return "target %s" % e.kids
        c = e.attrs["cost"]
        if len(c) != 1 or not isinstance(c[0], Term) or c[0].op != "fmtarg" or c[0].a[0] not in ("display", "debug") or not entry(c[0].a[1], row, col):
            return "cost %s" % c
        some = True
    return None if some else "no edge"


def generator(ck):
    config = "gen"
    mains = [b for b in prog(config).bodies.values() if b["path"].endswith("::main") and b["path"].count("::") == 1]
    for b in [x for x in prog(config).bodies.values() if last(x["path"]) == "euclidean_distance"]:
        ps = analyse(ck, config, b, "distance")
        if ps is None:
            continue
        a, c = P0, T("sym", "*p1")

        def sq(i):
            x, y = fld(a, i), fld(c, i)
            return [fmul(fsub(x, y), fsub(x, y)), fmul(fsub(y, x), fsub(y, x))]
        forms = [T("fsqrt", fadd(p, q)) for p in sq(0) for q in sq(1)]
        from rules_data import verdict
        pts = [(0.0, 0.0), (3.0, 4.0), (-4.0, 9.0), (1.0, 7.0), (1.0, -7.0)]
        verdict(ck, "distance", nice(b), len(ps) == 1 and any(ps[0].ret is f for f in forms), ps,
                lambda: (({P0: ST(*x), T("sym", "*p1"): ST(*y)}, (x, y)) for x in pts for y in pts),
                lambda k: ((k[0][0] - k[1][0]) ** 2 + (k[0][1] - k[1][1]) ** 2) ** 0.5)
    for b in [x for x in prog(config).bodies.values() if last(x["path"]) == "generate_xml_from_matrix"]:
        ps = analyse(ck, config, b, "document")
        if ps is None:
            continue
        where = nice(b)
        n = length(P0)

        def entry(v, r, c):
            return v is idx(idx(P0, r), c)

        def models():
            for k in SIZES:
                m = tuple(tuple(0.0 if i == j else 1.0 + (min(i, j) * 7 + max(i, j) * 5) % 11 / 7.0 for j in range(k)) for i in range(k))
                yield {P0: m}, k, lambda i, j, m=m: m[i][j]
            m = ((0.0, 0.0, 5.0), (0.0, 0.0, 5.0), (5.0, 5.0, 0.0))
            yield {P0: m}, 3, lambda i, j, m=m: m[i][j]
        decide(ck, "document", where, ps, n, P0, entry, models)
    if len(mains) != 1:
        ck.ob("undecided", "instance", "gen_matrix_fast::main", "no main function")
        return
    b = mains[0]
    ps = analyse(ck, config, b, "instance")
    if ps is None:
        return
    # the paths on which a graph is written
    full = [p for p in ps if any(to_stdout(e) and any(isinstance(y, str) and "<graph>" in y for q in safe_pieces(e) for y in flat(q)) for e in walk(p.ev))]
    if not full:
        ck.ob("undecided", "instance", nice(b), "no path that prints a graph")
        return
    num = {t for p in full for f in list(p.facts) + [e.x["loop"].N for e in loops(p.ev) if e.x["loop"].N is not None] for t in subterms(f)
           if t.op == "fld" and t.a[0].op == "dc" and t.a[0].a[1] == 0 and t.a[0].a[0].op == "unk" and str(t.a[0].a[0].a[0]).endswith(("parse", "from_str"))}
    num = [t for t in num if not any(t is not u and t in subterms(u) for u in num)]
    if len(num) != 1:
        ck.ob("undecided", "instance", nice(b), "the number of vertices is not a single number parsed")
        return
    n = num[0]
    src = n.a[0].a[0]
    args = T("named", "env::args")
    env0 = {}
    for t in {t for p in full for f in p.facts for t in subterms(f)}:
        if t.op == "unk" and str(t.a[0]).endswith("collect") and len(t.a) == 2 and t.a[1] is args:
            env0[t] = ("program", "number", "other")
    try:
        v = Ev2(dict(env0)).val(src.a[1])
        ck.require(v == "number", "argument", nice(b), "the number of vertices is parsed from %s instead of the first argument" % (v,))
    except (SM.Hazy, SM.Undef) as ex:
        ck.ob("undecided", "argument", nice(b), "%s" % ex)

    def entry(v, r, c):
        if v.op == "idx" and v.a[1] is c and v.a[0].op == "idx" and v.a[0].a[1] is r:
            if dims(v.a[0].a[0]) != (n, n):
                return False
            N = T("sym", "n")

            def lens(c):
                # the lengths do not change
                return subst(c, {x: N for x in subterms(c) if x.op == "len" and (x.a[0].op == "lv" or x.a[0].op == "idx" and x.a[0].a[0].op == "lv")})
            try:
                base, ws = writes(subst(v.a[0].a[0], {n: N}), None, lens)
            except Opaque:
                return False
            for bs, cs, x, y, w in ws:
                if not distance(w, x, y):
                    return False
            i, j = T("k", "di"), T("k", "dj")
            rng = [ge0(i), ge0(j), lt(i, N), lt(j, N)]
            return all(any(hits(w, i, j, rng + [case]) for w in ws) for case in (lt(i, j), lt(j, i)))
        return distance(v, r, c)

    def spans():
        """the distance of two points as a function of their indices, if the costs are made from one"""
        x, y = T("k", "p"), T("k", "q")
        ds = set()
        for p in full:
            for e in walk(p.ev):
                for v in {t for a in e.args for t in subterms(a)} if to_stdout(e) else ():
                    if v.op == "fsqrt" and len({k for k in v.free if k.op == "k"}) == 2:
                        k, l = sorted((k for k in v.free if k.op == "k"), key=lambda k: k.id)
                        if distance(v, k, l):
                            ds.add(subst(v, {k: x, l: y}))
                    if v.op == "loopval" and dims(v) == (n, n):
                        try:
                            base, ws = writes(subst(v, {n: T("sym", "n")}), None, lambda c: TRUE)
                        except Opaque:
                            continue
                        for bs, cs, i, j, w in ws:
                            for t in subterms(w):
                                if t.op == "fsqrt" and i.op == j.op == "k" and distance(t, i, j):
                                    ds.add(subst(t, {i: x, j: y}))
        forms = set()
        for d in ds:
            forms.add(frozenset((d, subst(subst(subst(d, {x: T("k", "r")}), {y: x}), {T("k", "r"): y}))))
        return (lambda i, j, d=list(forms)[0]: subst(list(d)[0], {x: I(i), y: I(j)})) if len(forms) == 1 else None

    def models():
        d = spans()
        for k in SIZES:
            for ext in (False, True) if k > 3 else (False,):
                e = dict(env0)
                e[src] = AG(0, k)
                if ext:
                    e[EXTREME] = True
                yield e, k, (lambda i, j, e=e: Ev2(dict(e)).val(d(i, j))) if d else None
    sq = None
    for p in full:
        for e in walk(p.ev):
            L = e.x.get("loop") if e.kind == "loop" else None
            if L is not None and L.N is not None and L.N.op == "len" and L.N.a[0].op == "idx" and dims(L.N.a[0].a[0]) == (n, n):
                sq = L.N.a[0].a[0]
    decide(ck, "instance", nice(b), full, n, sq, entry, models, "for the argument")


def safe_pieces(e):
    try:
        return pieces(e.args[0])
    except Odd:
        return []


def decide(ck, rule, where, ps, n, square, entry, models, what="for a matrix of size"):
    why = None
    for p in ps:
        try:
            nodes = tree(expand(items(p.ev)))
            why = form(nodes, n, square, entry)
        except (Odd, NoXml) as ex:
            why = "%s" % ex
        if why:
            break
    if not why:
        ck.ob("ok", rule, where)
        return
    hz, cnt = None, 0
    for env, k, cost in models():
        e = Ev2(dict(env))
        docs = []
        try:
            for p in ps:
                if e.conds(p.facts):
                    docs.append(text(p.ev, e))
        except (SM.Hazy, SM.Undef, Odd) as ex:
            hz = "%s: %s" % (type(ex).__name__, ex)
            continue
        if len(docs) != 1:
            hz = "%d paths" % len(docs)
            continue
        cnt += 1
        bad = judge(docs[0], k, cost)
        if bad:
            ck.ob("viol", rule, where, "%s %d, the document %s" % (what, k, bad))
            return
    ck.ob("undecided", rule, where, "unrecognised form (%s), no counterexample in %d small models%s" % (why, cnt, " (%s)" % hz if hz else ""))
