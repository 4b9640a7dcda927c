"""Models of the library functions walky calls (std, rayon, nalgebra, priority-queue, rand, mpi).

Every model maps a call in an abstract state to the list of (state, result term) it can produce.
A callee without a model yields an `unk` term: nothing is concluded from it.
"""
import re
from terms import *
import engine as E
from engine import (Ev, Facts, St, assume, fork, ref, CELL, PF, PI, PI2, PSUB, PROW, PCOL, PFLAT, PSING, norm_path, cat,
                    Unsupported, Loop)

MODELS = {}
NOOP = []


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def ld(eng, st, v):
    """value behind a reference (or the value itself)"""
    return eng.load(st, v) if v.op in ("ref", "ptr") or (v.op == "guard") else (eng.load(st, v))


def val(eng, st, v):
    n = 0
    while v.op in ("ref", "ptr", "box") and n < 8:
        v = eng.load(st, v)
        n += 1
    return v


def sref(v, *path):
    """reference to a part of what v points to"""
    if v.op == "ref":
        return ref(v.a[0], norm_path(tuple(v.a[1:]) + tuple(path)))
    if v.op == "box":
        return ref(v.a[0], tuple(path))
    return ref(T("vroot", v), tuple(path))


def fresh(eng, st, c, x, tag=""):
    root = T("vroot", T("tmp", eng.site(st, c.fid), tag, x))
    st.mem[root] = x
    return ref(root)


def ev(st, kind, name, args=(), ret=None, span="", **x):
    st = st.copy()
    st.ev = st.ev + (Ev(kind, name, tuple(args), ret, st.facts, span, **x),)
    return st


def trunc(s, n):
    while s.op == "push":
        d = cdiff(length(s.a[0]), n)
        if d is None or d < 0:
            break
        s = s.a[0]
    if length(s) is n:
        return s
    if n.op == "int" and n.a[0] == 0:
        return SEQ0
    return subseq(s, I(0), n)


# ------------------------------------------------------------------ trivial
@model("Clone::clone", "ToOwned::to_owned", "slice::to_vec", "Arc::clone", "slice::to_owned", "Vec::to_vec", "Option::cloned_ref")
def m_clone(eng, st, c):
    return [(st, ld(eng, st, c.args[0]))]


@model("Clone::clone_from", "slice::clone_from_slice_all", "ToOwned::clone_into")
def m_clone_from(eng, st, c):
    st = st.copy()
    d, s = (c.args[1], c.args[0]) if c.name.endswith("clone_into") else (c.args[0], c.args[1])
    eng.store(st, d, ld(eng, st, s))
    return [(st, UNIT)]


def local_from(eng, src, r):
    """the local impl From<src> for r"""
    nl = lambda t: re.sub(r"'\w+ ", "", t).replace("walky::", "")
    for b in eng.prog.bodies.values():
        if (b.get("trait_item") or "").endswith("convert::From::from") and b["arg_count"] == 1 \
                and nl(b["locals"][1][0]) == nl(src) and nl(b["locals"][0][0]) == nl(r):
            return b
    return None


@model("Into::into", "From::from")
def m_into(eng, st, c):
    v = c.args[0]
    r = c.retty
    src = c.argtys[0]
    if r == src:
        return [(st, v)]
    if "OrderedFloat" in r and src == "f64":
        return [(st, agg("OrderedFloat", 0, v))]
    if "PriorityQueue" in r:
        return [(st, T("pq", v))]
    if src == "f64" or r == "f64":
        if "OrderedFloat" in src:
            return [(st, fld(v, 0))]
        return [(st, T("tofloat", v))]
    if r in E.INT_TYS and src in E.INT_TYS:
        return [(st, v)]
    if r in E.INT_TYS and src == "bool":
        return [(s, I(1) if b else I(0)) for s, b in fork(st, v)]
    if r.startswith("std::string::String") or src == "&str":
        return [(st, v)]
    if r.startswith("std::vec::Vec<") and (src.startswith("[") or src.startswith("&[")):
        return [(st, val(eng, st, v) if v.op == "ref" else v)]
    if "NonZero" in src and r in E.INT_TYS:
        return [(st, T("nonzero_get", v) if v.op not in ("lin", "int") else v)]
    if c.name.endswith("into"):
        b = local_from(eng, src, r)
        if b is not None:
            return eng.call_local(st, b, [v], c.fid, c.span, [src], r)
    if r.startswith("anyhow") or "Error" in r:
        return [(st, T("error", v))]
    return eng.unknown(st, c.name + " " + src + " -> " + r, c.args, c.fid, c.span, c.argtys, c.retty)


@model("TryInto::try_into", "TryFrom::try_from")
def m_try(eng, st, c):
    r = c.retty
    v = c.args[0]
    m = re.match(r"std::result::Result<(\w+),", r)
    if m and m.group(1) in E.INT_TYS:
        return [(st, ok(v))]
    m = re.match(r"std::result::Result<\[[^;]*; (\d+)\],", r)
    if m:
        n = int(m.group(1))
        s = val(eng, st, v)
        out = []
        for s2, b in fork(st, ieq(length(s), I(n))):
            if b:
                out.append((s2, ok(agg("array", 0, *[eng.sidx(s2, s, I(i)) for i in range(n)]))))
            else:
                out.append((s2, err(T("error", v))))
        return out
    return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)


@model("Default::default")
def m_default(eng, st, c):
    r = c.retty
    if r in E.INT_TYS:
        return [(st, I(0))]
    if r in ("f64", "f32"):
        return [(st, F0)]
    if r == "bool":
        return [(st, FALSE)]
    if r.startswith("std::vec::Vec"):
        return [(st, SEQ0)]
    if "Hasher" in r:
        return [(st, T("hasher0"))]
    if "HashMap" in r or "HashSet" in r or "BTree" in r:
        return [(st, T("map0"))]
    if r.startswith("std::option::Option"):
        return [(st, NONE)]
    if "String" in r:
        return [(st, T("str", ""))]
    return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)


@model("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut",
       "Vec::as_slice", "Vec::as_mut_slice", "slice::as_ref", "String::as_str", "str::as_ref", "hint::black_box",
       "Matrix::as_view", "UserDatatype::as_ref")
def m_deref(eng, st, c):
    v = c.args[0]
    if v.op == "ref":
        x = ld(eng, st, v)
        if x.op == "guard":
            return [(st, x.a[0])]
        if x.op == "arc":
            return [(st, ref(x.a[0]))]
        if x.op == "box":
            return [(st, ref(x.a[0]))]
        if "LazyLock" in c.argtys[0] or "lazy" in c.argtys[0].lower():
            return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)
        sty = c.argtys[0]
        if "OrderedFloat" in sty:
            return [(st, sref(v, PF(0)))]
    return [(st, v)]


@model("mem::drop", "hint::spin_loop", "mem::forget", "Vec::reserve", "Vec::shrink_to_fit", "Vec::reserve_exact")
def m_unit(eng, st, c):
    if c.name.endswith("drop") and c.args and c.args[0].op == "guard":
        st = ev(st, "unlock", "drop", (c.args[0],), None, c.span)
    return [(st, UNIT)]


@model("mem::swap")
def m_swap(eng, st, c):
    st = st.copy()
    a, b = c.args
    x, y = ld(eng, st, a), ld(eng, st, b)
    eng.store(st, a, y)
    eng.store(st, b, x)
    return [(st, UNIT)]


@model("mem::replace")
def m_replace(eng, st, c):
    st = st.copy()
    x = ld(eng, st, c.args[0])
    eng.store(st, c.args[0], c.args[1])
    return [(st, x)]


@model("mem::take")
def m_take(eng, st, c):
    st = st.copy()
    x = ld(eng, st, c.args[0])
    t = c.retty
    eng.store(st, c.args[0], SEQ0 if "Vec<" in t else NONE if "Option" in t else I(0) if t in E.INT_TYS else T("unk", "take"))
    return [(st, x)]


@model("Box::new", "boxed::box_new")
def m_box(eng, st, c):
    st = st.copy()
    r = fresh(eng, st, c, c.args[0], "box")
    return [(st, T("box", r.a[0]))]


@model("slice::into_vec")
def m_into_vec(eng, st, c):
    return [(st, pushes(val(eng, st, c.args[0])))]


@model("Box::new_uninit")
def m_box_uninit(eng, st, c):
    st = st.copy()
    r = fresh(eng, st, c, agg("MaybeUninit", 0, UNIT, agg("ManuallyDrop", 0, agg("MaybeDangling", 0, T("unk", "uninit")))), "box")
    return [(st, T("box", r.a[0]))]


def pushes(v):
    """a vector of few given elements"""
    if v.op == "agg" and v.a[0] == "array" and len(v.a) <= 6:
        s = SEQ0
        for x in v.a[2:]:
            s = push(s, x)
        return s
    return v


@model("boxed::box_assume_init_into_vec_unsafe")
def m_into_vec2(eng, st, c):
    v = val(eng, st, c.args[0])
    if v.op == "agg" and v.a[0] == "MaybeUninit":
        v = v.a[3]
        while v.op == "agg" and v.a[0] in ("ManuallyDrop", "MaybeDangling"):
            v = v.a[2]
    return [(st, pushes(v))]


@model("Vec::splice")
def m_splice(eng, st, c):
    s = ld(eng, st, c.args[0])
    a, b = range_of(eng, st, c.args[1], s)
    if a is None:
        return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)
    x = val(eng, st, c.args[2])
    if not (c.argtys[2].startswith("std::vec::Vec") or E.seqlike(x) or (x.op == "agg" and x.a[0] == "array")):
        return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)
    st = st.copy()
    eng.store(st, c.args[0], cat(cat(subseq(s, I(0), a), x), subseq(s, b, length(s))))
    return [(st, It(T("dval", subseq(s, a, b))))]


# ------------------------------------------------------------------ panics
@model("panicking::panic", "panicking::panic_fmt", "panicking::panic_default_msg", "panicking::panic_display",
       "panicking::unreachable_display", "panicking::unimplemented_default_msg", "panicking::assert_failed", "panicking::panic_explicit", "process::exit",
       "panicking::panic_nounwind", "rt::begin_panic", "option::unwrap_failed", "option::expect_failed",
       "result::unwrap_failed", "panicking::panic_str_2015", "process::abort")
def m_panic(eng, st, c):
    eng.panics.append((c.fr.body["dpath"] if c.fr else "?", c.span, st.facts))
    return []


# ------------------------------------------------------------------ Vec / slice
@model("Vec::new", "Vec::with_capacity", "String::new")
def m_vecnew(eng, st, c):
    if "String" in c.name:
        return [(st, T("str", ""))]
    return [(st, SEQ0)]


@model("vec::from_elem")
def m_from_elem(eng, st, c):
    return [(st, T("rep", c.args[0], c.args[1]))]


@model("Vec::push")
def m_push(eng, st, c):
    st = st.copy()
    s = ld(eng, st, c.args[0])
    eng.store(st, c.args[0], push(s, c.args[1]))
    return [(st, UNIT)]


@model("Vec::pop")
def m_pop(eng, st, c):
    s = ld(eng, st, c.args[0])
    out = []
    for s2, b in fork(st, lt(I(0), length(s))):
        if b:
            s2 = s2.copy()
            x = eng.sidx(s2, s, sub(length(s), I(1)))
            eng.store(s2, c.args[0], pop(s))
            out.append((s2, some(x)))
        else:
            out.append((s2, NONE))
    return out


@model("Vec::clear", "Vec::truncate", "HashMap::clear", "HashSet::clear")
def m_clear(eng, st, c):
    st = st.copy()
    s = ld(eng, st, c.args[0])
    eng.store(st, c.args[0], trunc(s, c.args[1]) if len(c.args) > 1 else SEQ0 if "Vec" in c.name else T("map0"))
    return [(st, UNIT)]


@model("bool::then", "bool::then_some")
def m_then(eng, st, c):
    out = []
    for s, b in fork(st, c.args[0]):
        if not b:
            out.append((s, NONE))
        elif c.name.endswith("then"):
            out += [(s2, some(r)) for s2, r in eng.call_value(s, c.args[1], [], c.fid, c.span)]
        else:
            out.append((s, some(c.args[1])))
    return out


@model("Vec::resize")
def m_resize(eng, st, c):
    s, n, x = ld(eng, st, c.args[0]), c.args[1], val(eng, st, c.args[2])
    out = []
    for s2, more in fork(st, le(length(s), n)):
        s2 = s2.copy()
        d = sub(n, length(s))
        eng.store(s2, c.args[0], (s if d is I(0) else T("cat", s, T("rep", x, d))) if more else trunc(s, n))
        out.append((s2, UNIT))
    return out


@model("Vec::split_off")
def m_split_off(eng, st, c):
    st = st.copy()
    s = ld(eng, st, c.args[0])
    at = c.args[1]
    eng.store(st, c.args[0], trunc(s, at))
    return [(st, subseq(s, at, length(s)))]


@model("Vec::extend_from_slice", "Vec::append")
def m_extend_slice(eng, st, c):
    st = st.copy()
    s = ld(eng, st, c.args[0])
    o = val(eng, st, c.args[1])
    eng.store(st, c.args[0], cat(s, o))
    if c.name.endswith("append"):
        eng.store(st, c.args[1], SEQ0)
    return [(st, UNIT)]


@model("Vec::insert")
def m_insert(eng, st, c):
    st = st.copy()
    s = ld(eng, st, c.args[0])
    i, x = c.args[1:]
    eng.store(st, c.args[0], cat(push(subseq(s, I(0), i), x), subseq(s, i, length(s))))
    return [(st, UNIT)]


@model("Vec::remove")
def m_remove(eng, st, c):
    st = st.copy()
    s = ld(eng, st, c.args[0])
    i = c.args[1]
    eng.store(st, c.args[0], cat(subseq(s, I(0), i), subseq(s, add(i, I(1)), length(s))))
    return [(st, eng.sidx(st, s, i))]


@model("Vec::swap_remove")
def m_swap_remove(eng, st, c):
    st = st.copy()
    s = ld(eng, st, c.args[0])
    i = c.args[1]
    last = sub(length(s), I(1))
    eng.store(st, c.args[0], pop(upd(s, i, eng.sidx(st, s, last))))
    return [(st, eng.sidx(st, s, i))]


@model("Vec::len", "slice::len", "HashSet::len", "HashMap::len", "str::len", "String::len")
def m_len(eng, st, c):
    s = ld(eng, st, c.args[0])
    if "Hash" in c.name:
        return [(st, T("setlen", s))]
    return [(st, length(s))]


@model("slice::is_empty", "Vec::is_empty", "str::is_empty", "String::is_empty")
def m_is_empty(eng, st, c):
    return [(st, ieq(length(ld(eng, st, c.args[0])), I(0)))]


def opt_elem(eng, st, r, s, i, cond):
    out = []
    for s2, b in fork(st, cond):
        out.append((s2, some(sref(r, PI(i))) if b else NONE))
    return out


@model("slice::first", "slice::first_mut")
def m_first(eng, st, c):
    s = ld(eng, st, c.args[0])
    return opt_elem(eng, st, c.args[0], s, I(0), lt(I(0), length(s)))


@model("slice::last", "slice::last_mut")
def m_last(eng, st, c):
    s = ld(eng, st, c.args[0])
    return opt_elem(eng, st, c.args[0], s, sub(length(s), I(1)), lt(I(0), length(s)))


@model("slice::get", "slice::get_mut", "Vec::get", "Vec::get_mut")
def m_get(eng, st, c):
    s = ld(eng, st, c.args[0])
    i = c.args[1]
    if i.op == "agg":
        a, b = range_of(eng, st, i, s)
        if a is None:
            return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)
        out = []
        for s2, t in fork(st, conj([le(a, b), le(b, length(s))])):
            out.append((s2, some(sref(c.args[0], PSUB(a, b))) if t else NONE))
        return out
    return opt_elem(eng, st, c.args[0], s, i, lt(i, length(s)))


@model("slice::get_unchecked", "slice::get_unchecked_mut")
def m_getu(eng, st, c):
    st = st.copy()
    eng.raw(st, "ref", c.args[0], c.args[1], I(1), length(ld(eng, st, c.args[0])), c.name)
    return [(st, sref(c.args[0], PI(c.args[1])))]


def key_of(x):
    return x


@model("slice::contains", "Vec::contains")
def m_contains(eng, st, c):
    return [(st, contains(val(eng, st, c.args[0]), val(eng, st, c.args[1])))]


@model("slice::swap")
def m_sswap(eng, st, c):
    st = st.copy()
    r, i, j = c.args
    s = ld(eng, st, r)
    eng.store(st, r, swapseq(s, i, j))
    return [(st, UNIT)]


@model("slice::reverse")
def m_reverse(eng, st, c):
    st = st.copy()
    s = ld(eng, st, c.args[0])
    eng.store(st, c.args[0], rev(s))
    return [(st, UNIT)]


@model("slice::copy_from_slice", "slice::clone_from_slice")
def m_copy(eng, st, c):
    st = st.copy()
    eng.store(st, c.args[0], val(eng, st, c.args[1]))
    return [(st, UNIT)]


@model("slice::fill")
def m_fill(eng, st, c):
    st = st.copy()
    s = ld(eng, st, c.args[0])
    eng.store(st, c.args[0], T("rep", c.args[1], length(s)))
    return [(st, UNIT)]


@model("slice::split_at", "slice::split_at_mut")
def m_split_at(eng, st, c):
    s = ld(eng, st, c.args[0])
    k = c.args[1]
    return [(st, tup(sref(c.args[0], PSUB(I(0), k)), sref(c.args[0], PSUB(k, length(s)))))]


@model("slice::concat")
def m_concat(eng, st, c):
    s = val(eng, st, c.args[0])
    if s.op == "agg" and s.a[0] == "array":
        r = SEQ0
        for x in s.a[2:]:
            r = cat(r, val(eng, st, x))
        return [(st, r)]
    return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)


def range_of(eng, st, r, s):
    k = r.a[0].split("::")[-1].split("<")[0]
    n = length(s)
    if k == "Range":
        return r.a[2], r.a[3]
    if k == "RangeFrom":
        return r.a[2], n
    if k == "RangeTo":
        return I(0), r.a[2]
    if k == "RangeToInclusive":
        return I(0), add(r.a[2], I(1))
    if k == "RangeFull":
        return I(0), n
    if k == "It" and r.a[2].op == "drange":
        return r.a[2].a[0], r.a[2].a[1]
    return None, None


@model("Index::index", "IndexMut::index_mut")
def m_index(eng, st, c):
    v, i = c.args
    ty = c.argtys[0]
    if i.op == "agg":
        if i.a[0] == "tuple":
            v = mview(eng, st, v)
            if v.op == "ref" and len(v.a) > 1 and v.a[-1].op in ("prow", "pcol"):
                # a view has a single row or column
                one, other = (2, 3) if v.a[-1].op == "prow" else (3, 2)
                return [(s2, sref(v, PI(i.a[other]))) for s2, t in fork(st, ieq(i.a[one], I(0))) if t]
            return [(st, sref(v, PI2(i.a[2], i.a[3])))]
        s = ld(eng, st, v)
        a, b = range_of(eng, st, i, s)
        if a is None:
            return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)
        s2 = st
        for cond in (le(a, b), le(b, length(s))):
            s2 = assume(s2, cond)
            if s2 is None:
                eng.panics.append((c.fr.body["dpath"] if c.fr else "?", c.span, st.facts))
                return []
        return [(s2, sref(v, PSUB(a, b)))]
    if c.argtys[1].startswith("std::ops::Range") or c.argtys[1].startswith("("):
        if c.argtys[1].startswith("("):
            return [(st, sref(v, PI2(fld(i, 0), fld(i, 1))))]
        return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)
    if "HashMap" in ty:
        m = ld(eng, st, v)
        st = st.copy()
        return [(st, fresh(eng, st, c, T("mapget", m, val(eng, st, i))))]
    if "Matrix<" in ty:
        # a row or column view, or the flat (column major) storage
        v = mview(eng, st, v)
        if v.op == "ref" and len(v.a) > 1 and v.a[-1].op in ("prow", "pcol"):
            return [(st, sref(v, PI(i)))]
        return [(st, sref(v, PFLAT, PI(i)))]
    s = ld(eng, st, v)
    s2 = assume(st, lt(i, length(s)))
    if s2 is None:
        eng.panics.append((c.fr.body["dpath"] if c.fr else "?", c.span, st.facts))
        return []
    return [(s2, sref(v, PI(i)))]


# ------------------------------------------------------------------ raw pointers
@model("slice::as_ptr", "slice::as_mut_ptr", "Vec::as_ptr", "Vec::as_mut_ptr")
def m_asptr(eng, st, c):
    return [(st, T("ptr", c.args[0], I(0)))]


def mview(eng, st, v):
    """a reference to a matrix view is as good as the view"""
    while v.op == "ref":
        x = eng.load(st, v)
        if x.op != "ref":
            break
        v = x
    return v


@model("Matrix::as_ptr", "Matrix::as_mut_ptr")
def m_asptr2(eng, st, c):
    v = mview(eng, st, c.args[0])
    if v.op == "ref" and len(v.a) > 1 and v.a[-1].op in ("prow", "pcol"):
        # storage is column major
        up = T("ref", *v.a[:-1])
        i = v.a[-1].a[0]
        return [(st, T("ptr", sref(up, PFLAT), i if v.a[-1].op == "prow" else mul(i, dim(ld(eng, st, up)))))]
    return [(st, T("ptr", sref(c.args[0], PFLAT), I(0)))]


@model("ptr::add", "ptr::offset", "ptr::wrapping_add")
def m_ptradd(eng, st, c):
    p, n = c.args
    if p.op == "ptr":
        return [(st, T("ptr", p.a[0], add(p.a[1], n)))]
    if p.op == "ref":
        return [(st, T("ptr", p, n))]
    return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)


@model("ptr::as_mut", "ptr::as_ref")
def m_ptrmut(eng, st, c):
    st = st.copy()
    eng.raw_ptr(st, "ref", c.args[0], c.name)
    root, path = eng.deref(c.args[0])
    return [(st, some(ref(root, path)))]


@model("slice::from_raw_parts", "slice::from_raw_parts_mut")
def m_raw(eng, st, c):
    p, n = c.args
    if p.op == "ptr":
        st = st.copy()
        eng.raw(st, "slice", p.a[0], p.a[1], n, length(ld(eng, st, p.a[0])), c.name)
        return [(st, sref(p.a[0], PSUB(p.a[1], add(p.a[1], n))))]
    if p.op == "ref" and len(p.a) > 2 and p.a[-1] is PI(I(0)) and p.a[-2] is PI(I(0)):
        # &s[0][0] with the length of all arrays in s together
        up = T("ref", *p.a[:-2])
        N = length(ld(eng, st, up))
        for w in (2, 3, 4):
            if n is mulc(N, w):
                st = st.copy()
                eng.raw(st, "slice", up, I(0), N, N, c.name)
                return [(st, sref(up, PSING(w)))]
    return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)


@model("ptr::write")
def m_ptrwrite(eng, st, c):
    st = st.copy()
    eng.raw_ptr(st, "write", c.args[0], c.name)
    eng.store(st, c.args[0], c.args[1])
    return [(st, UNIT)]


@model("ptr::read")
def m_ptrread(eng, st, c):
    st = st.copy()
    eng.raw_ptr(st, "read", c.args[0], c.name)
    return [(st, ld(eng, st, c.args[0]))]


# ------------------------------------------------------------------ Option / Result
def is_res(c):
    return "Result" in c.name


def variants(eng, st, v, okv):
    """fork on v being its payload variant -> [(st, bool)]"""
    if v.op == "agg":
        return [(st, v.a[1] == okv)]
    return fork(st, isvar(v, 1) if okv == 1 else nt(isvar(v, 1)))


def payload(v, okv):
    return fld(dc(v, okv), 0)


@model("Option::unwrap", "Option::expect", "Option::unwrap_unchecked", "Result::unwrap", "Result::expect")
def m_unwrap(eng, st, c):
    v = c.args[0]
    okv = 0 if is_res(c) else 1
    out = []
    for s, b in variants(eng, st, v, okv):
        if b:
            out.append((s, payload(v, okv)))
        else:
            eng.panics.append((c.fr.body["dpath"] if c.fr else "?", c.span, s.facts))
    return out


@model("Result::unwrap_err", "Result::expect_err")
def m_unwrap_err(eng, st, c):
    v = c.args[0]
    return [(s, payload(v, 1)) for s, b in variants(eng, st, v, 0) if not b]


@model("Option::unwrap_or", "Result::unwrap_or", "Option::unwrap_or_else", "Result::unwrap_or_else", "Option::unwrap_or_default")
def m_unwrap_or(eng, st, c):
    v = c.args[0]
    okv = 0 if is_res(c) else 1
    out = []
    for s, b in variants(eng, st, v, okv):
        if b:
            out.append((s, payload(v, okv)))
        elif c.name.endswith("_else"):
            out += eng.call_value(s, c.args[1], [payload(v, 1)] if is_res(c) else [], c.fid, c.span)
        elif c.name.endswith("_default"):
            out += m_default(eng, s, c)
        else:
            out.append((s, c.args[1]))
    return out


@model("Option::map", "Result::map", "Option::and_then", "Result::and_then", "Option::map_or", "Option::map_or_else",
       "Result::map_err", "Option::is_some_and", "Option::is_none_or", "Option::filter", "Option::ok_or", "Option::ok_or_else",
       "Option::or", "Option::or_else", "Result::map_or", "Option::inspect", "Result::is_ok_and", "Result::or_else")
def m_optmap(eng, st, c):
    nm = c.name.split("::")[-1]
    res = is_res(c)
    okv = 0 if res else 1
    v = c.args[0]
    out = []
    for s, b in variants(eng, st, v, okv):
        x = payload(v, okv) if b else None
        e = payload(v, 1) if res and not b else None
        wrap = ok if res else some
        nope = err(e) if res and not b else NONE
        if nm == "map":
            out += [(s2, wrap(r)) for s2, r in eng.call_value(s, c.args[1], [x], c.fid, c.span)] if b else [(s, nope)]
        elif nm == "and_then":
            out += eng.call_value(s, c.args[1], [x], c.fid, c.span) if b else [(s, nope)]
        elif nm == "map_or":
            out += eng.call_value(s, c.args[2], [x], c.fid, c.span) if b else [(s, c.args[1])]
        elif nm == "map_or_else":
            out += eng.call_value(s, c.args[2] if b else c.args[1], [x] if b else [], c.fid, c.span)
        elif nm == "map_err":
            out += [(s, ok(x))] if b else [(s2, err(r)) for s2, r in eng.call_value(s, c.args[1], [e], c.fid, c.span)]
        elif nm in ("is_some_and", "is_ok_and"):
            out += eng.call_value(s, c.args[1], [x], c.fid, c.span) if b else [(s, FALSE)]
        elif nm == "is_none_or":
            out += eng.call_value(s, c.args[1], [x], c.fid, c.span) if b else [(s, TRUE)]
        elif nm == "filter":
            if not b:
                out.append((s, NONE))
            else:
                s = s.copy()
                for s2, r in eng.call_value(s, c.args[1], [fresh(eng, s, c, x)], c.fid, c.span):
                    for s3, t in fork(s2, r):
                        out.append((s3, some(x) if t else NONE))
        elif nm == "ok_or":
            out.append((s, ok(x) if b else err(c.args[1])))
        elif nm == "ok_or_else":
            out += [(s, ok(x))] if b else [(s2, err(r)) for s2, r in eng.call_value(s, c.args[1], [], c.fid, c.span)]
        elif nm == "or":
            out.append((s, v if b else c.args[1]))
        elif nm == "or_else":
            out += [(s, v)] if b else eng.call_value(s, c.args[1], [e] if res else [], c.fid, c.span)
        elif nm == "inspect":
            out.append((s, v))
    return out


@model("Option::is_none", "Option::is_some", "Result::is_ok", "Result::is_err")
def m_isnone(eng, st, c):
    v = ld(eng, st, c.args[0])
    nm = c.name.split("::")[-1]
    x = isvar(v, 1)
    return [(st, x if nm in ("is_some", "is_err") else nt(x))]


@model("Option::as_ref", "Option::as_mut", "Result::as_ref", "Option::as_deref", "Option::as_deref_mut")
def m_optref(eng, st, c):
    v = ld(eng, st, c.args[0])
    out = []
    okv = 0 if is_res(c) else 1
    for s, b in variants(eng, st, v, okv):
        p = sref(c.args[0], E.PDC(okv), PF(0)) if v.op != "agg" else sref(c.args[0], PF(0))
        if b:
            out.append((s, ok(p) if is_res(c) else some(p)))
        else:
            out.append((s, err(sref(c.args[0], PF(0))) if is_res(c) else NONE))
    return out


@model("Option::copied", "Option::cloned")
def m_copied(eng, st, c):
    v = c.args[0]
    return [(s, some(ld(eng, s, payload(v, 1))) if b else NONE) for s, b in variants(eng, st, v, 1)]


@model("Result::ok")
def m_resok(eng, st, c):
    v = c.args[0]
    return [(s, some(payload(v, 0)) if b else NONE) for s, b in variants(eng, st, v, 0)]


@model("Option::take")
def m_opttake(eng, st, c):
    st = st.copy()
    v = ld(eng, st, c.args[0])
    eng.store(st, c.args[0], NONE)
    return [(st, v)]


@model("Option::insert", "Option::replace")
def m_optinsert(eng, st, c):
    st = st.copy()
    v = ld(eng, st, c.args[0])
    eng.store(st, c.args[0], some(c.args[1]))
    return [(st, v if c.name.endswith("replace") else sref(c.args[0], PF(0)))]


CF = "std::ops::ControlFlow"


@model("Try::branch")
def m_branch(eng, st, c):
    v = c.args[0]
    res = "Result" in c.argtys[0]
    okv = 0 if res else 1
    out = []
    for s, b in variants(eng, st, v, okv):
        if b:
            out.append((s, agg(CF, 0, payload(v, okv))))
        else:
            out.append((s, agg(CF, 1, err(payload(v, 1)) if res else NONE)))
    return out


@model("FromResidual::from_residual")
def m_residual(eng, st, c):
    v = c.args[0]
    if "Result" in c.retty:
        return [(st, err(T("error", payload(v, 1))))]
    return [(st, v)]


@model("Try::from_output")
def m_fromout(eng, st, c):
    return [(st, ok(c.args[0]) if "Result" in c.retty else some(c.args[0]))]


# ------------------------------------------------------------------ comparison
def float_ty(t):
    return "f64" in t or "f32" in t or "OrderedFloat" in t


def strip_ref(t):
    return re.sub(r"^(&('\w+ )?(mut )?)+", "", t)


def local_impl(eng, trait_item, ty):
    """body of a trait method implemented in the crate for type ty"""
    for b in eng.prog.bodies.values():
        if b.get("trait_item") and b["trait_item"].endswith(trait_item) and b.get("self_ty") and b["self_ty"].endswith(ty):
            return b
    return None


def newtype(v):
    """(for OrderedFloat and Reverse) the wrapped value"""
    n = 0
    while v.op == "agg" and v.a[0].split("::")[-1] in ("OrderedFloat", "NotNan", "Wrapping") and n < 4:
        v = v.a[2]
        n += 1
    return v


def cmp_terms(eng, st, a, b, ty):
    """-> list of (st, Ordering term)"""
    ty = strip_ref(ty)
    a, b = val(eng, st, a), val(eng, st, b)
    if "Reverse<" in ty:
        return cmp_terms(eng, st, fld(b, 0), fld(a, 0), re.search(r"Reverse<(.*)>", ty).group(1))
    if "OrderedFloat" in ty and ty.startswith("ordered_float"):
        return [(st, mkcmp(fld(a, 0), fld(b, 0), "f"))]
    if ty in ("f64", "f32"):
        return [(st, mkcmp(a, b, "f"))]
    if ty in E.INT_TYS:
        return [(st, mkcmp(a, b, "i"))]
    if ty.startswith("("):
        parts = split_args(ty[1:-1])
        outs = []
        work = [(st, 0)]
        while work:
            s, i = work.pop()
            if i == len(parts):
                outs.append((s, EQUAL))
                continue
            if i == len(parts) - 1:
                outs += cmp_terms(eng, s, fld(a, i), fld(b, i), parts[i])
                continue
            for s2, o in cmp_terms(eng, s, fld(a, i), fld(b, i), parts[i]):
                for s3, q in fork(s2, cmp_is(o, 0)):
                    if q:
                        work.append((s3, i + 1))
                    else:
                        outs.append((s3, o))
        return outs
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and len(a.a) == 3:
        return cmp_terms(eng, st, a.a[2], b.a[2], "f64" if newtype(a) is not a else "usize")
    return [(st, T("unk", "cmp " + ty, a, b))]


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        if ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def mkcmp(a, b, s):
    if a is b:
        return EQUAL
    if s == "i":
        d = cdiff(a, b)
        if d is not None:
            return LESS if d < 0 else EQUAL if d == 0 else GREATER
    return T("cmp", a, b, s)


def cmp_is(o, sign):
    """atom: the ordering o has this sign (-1/0/1)"""
    if o.op == "agg":
        return B(o.a[1] - 1 == sign)
    if o.op == "cmp":
        a, b, s = o.a
        if s == "f":
            return {-1: flt(a, b), 0: feq(a, b), 1: flt(b, a)}[sign]
        return {-1: lt(a, b), 0: ieq(a, b), 1: lt(b, a)}[sign]
    return T("isvar", o, sign + 1)


@model("Ord::cmp", "PartialOrd::partial_cmp", "f64::total_cmp")
def m_cmp(eng, st, c):
    ty = strip_ref(c.argtys[0])
    outs = cmp_terms(eng, st, c.args[0], c.args[1], ty)
    if c.name.endswith("partial_cmp"):
        outs = [(s, some(o)) for s, o in outs]
    return outs


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def m_lt(eng, st, c):
    nm = c.name.split("::")[-1]
    ty = strip_ref(c.argtys[0])
    # a crate type with its own ordering
    b = local_impl(eng, "PartialOrd::partial_cmp", ty)
    if b is not None and not b["derived"]:
        outs = []
        for s, o in eng.call_local(st, b, c.args, c.fid, c.span, c.argtys, "?"):
            outs.append((s, payload(o, 1)))
    else:
        outs = cmp_terms(eng, st, c.args[0], c.args[1], ty)
    res = []
    for s, o in outs:
        r = {"lt": cmp_is(o, -1), "le": nt(cmp_is(o, 1)), "gt": cmp_is(o, 1), "ge": nt(cmp_is(o, -1))}[nm]
        res.append((s, r))
    return res


@model("PartialEq::eq", "PartialEq::ne")
def m_eq(eng, st, c):
    a, b = eng.deep(st, val(eng, st, c.args[0])), eng.deep(st, val(eng, st, c.args[1]))
    ty = strip_ref(c.argtys[0])
    out = []
    if ty.startswith("std::option::Option") or (a.op == "agg" and a.a[0] == OPT) or (b.op == "agg" and b.a[0] == OPT):
        for s, x in variants(eng, st, a, 1):
            for s2, y in variants(eng, s, b, 1):
                if x != y:
                    out.append((s2, FALSE))
                elif not x:
                    out.append((s2, TRUE))
                else:
                    out.append((s2, eqt(eng.deep(s2, val(eng, s2, payload(a, 1))), eng.deep(s2, val(eng, s2, payload(b, 1))), ty)))
    else:
        out = [(st, eqt(a, b, ty))]
    if c.name.endswith("ne"):
        out = [(s, nt(r)) for s, r in out]
    return out


def eqt(a, b, ty):
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
        return eqv(a, b)
    m = re.search(r"(f64|usize|i32|u64|isize|u32|u8)", ty)
    if "Vec" in ty or "[" in ty or "HashSet" in ty:
        return eqv(a, b)
    if m:
        return feq(a, b) if m.group(1) == "f64" else ieq(a, b)
    if ty == "bool":
        return nt(T("xor", *sorted((a, b), key=lambda t: t.id))) if a.op not in ("true", "false") else (b if a is TRUE else nt(b))
    return eqv(a, b)


@model("Ordering::then_with", "Ordering::then")
def m_then(eng, st, c):
    o = c.args[0]
    out = []
    for s, b in fork(st, cmp_is(o, 0)):
        if not b:
            out.append((s, o))
        elif c.name.endswith("then_with"):
            out += eng.call_value(s, c.args[1], [], c.fid, c.span)
        else:
            out.append((s, c.args[1]))
    return out


@model("Ordering::reverse")
def m_ordrev(eng, st, c):
    o = c.args[0]
    if o.op == "cmp":
        return [(st, T("cmp", o.a[1], o.a[0], o.a[2]))]
    if o.op == "agg":
        return [(st, agg(ORD, 2 - o.a[1]))]
    return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)


@model("Ordering::is_lt", "Ordering::is_le", "Ordering::is_gt", "Ordering::is_ge", "Ordering::is_eq", "Ordering::is_ne")
def m_ordis(eng, st, c):
    o = c.args[0]
    nm = c.name.split("::")[-1]
    return [(st, {"is_lt": cmp_is(o, -1), "is_le": nt(cmp_is(o, 1)), "is_gt": cmp_is(o, 1), "is_ge": nt(cmp_is(o, -1)),
                  "is_eq": cmp_is(o, 0), "is_ne": nt(cmp_is(o, 0))}[nm])]


@model("Ord::min", "Ord::max", "cmp::min", "cmp::max", "f64::min", "f64::max")
def m_minmax(eng, st, c):
    a, b = c.args
    mx = c.name.endswith("max")
    if float_ty(c.argtys[0]):
        if "OrderedFloat" in c.argtys[0]:
            return [(st, agg("OrderedFloat", 0, (fmax2 if mx else fmin2)(fld(a, 0), fld(b, 0))))]
        return [(st, fmax2(a, b) if mx else fmin2(a, b))]
    if c.argtys[0] in E.INT_TYS:
        return [(st, iminmax(st, a, b, mx))]
    outs = []
    for s, o in cmp_terms(eng, st, a, b, c.argtys[0]):
        for s2, g in fork(s, cmp_is(o, 1)):
            # min: a unless a > b;  max: b unless a > b
            outs.append((s2, (a if g else b) if mx else (b if g else a)))
    return outs


def iminmax(st, a, b, mx):
    d = Facts.decide(st, le(a, b))
    if d is True:
        return b if mx else a
    d2 = Facts.decide(st, le(b, a))
    if d2 is True:
        return a if mx else b
    return T("imax" if mx else "imin", *sorted((a, b), key=lambda t: t.id))


# ------------------------------------------------------------------ numbers
@model("usize::pow", "u64::pow", "u32::pow")
def m_pow(eng, st, c):
    a, b = c.args
    return [(st, powi(a, b))]


@model("f64::powi")
def m_powi(eng, st, c):
    a, b = c.args
    if b.op == "int" and b.a[0] == 2:
        return [(st, fmul(a, a))]
    return [(st, T("powi", a, b))]


@model("f64::sqrt", "f64::abs", "f64::is_nan", "f64::is_infinite", "f64::is_finite", "f64::hypot", "f64::round", "f64::floor", "f64::ceil", "f64::trunc", "f64::to_bits", "f64::signum",
       "f64::fract", "f64::exp", "f64::ln", "f64::log10", "f64::log2", "f64::cbrt", "f64::recip", "f64::sin", "f64::cos", "f64::rem_euclid", "f64::copysign", "f64::mul_add")
def m_f1(eng, st, c):
    nm = c.name.split("::")[-1]
    if nm == "is_infinite":
        return [(st, disj([feq(c.args[0], INF), feq(c.args[0], NINF)]))]
    if nm == "is_finite":
        return [(st, nt(disj([feq(c.args[0], INF), feq(c.args[0], NINF)])))]
    if nm == "is_nan":
        return [(st, FALSE)]
    return [(st, T("f" + nm, *c.args))]


@model(*["%s::%s" % (t, m) for t in ("u8", "u16", "u32", "u64", "u128", "usize") for m in ("count_ones", "count_zeros", "trailing_zeros", "leading_zeros")])
def m_bitcount(eng, st, c):
    t, nm = c.name.split("::")[-2:]
    w = {"usize": 64}.get(t) or int(t[1:])
    if nm == "count_zeros":
        return [(st, sub(I(w), T("popcnt", c.args[0])))]
    if nm == "count_ones":
        return [(st, T("popcnt", c.args[0]))]
    return [(st, T(nm, c.args[0], I(w)))]


@model("usize::abs_diff")
def m_absdiff(eng, st, c):
    return [(st, T("abs_diff", *sorted(c.args, key=lambda t: t.id)))]


@model("usize::wrapping_add", "usize::wrapping_sub", "usize::wrapping_mul", "usize::saturating_sub", "usize::saturating_add",
       "usize::div_ceil", "usize::checked_sub", "usize::checked_add", "usize::rem_euclid", "usize::checked_rem", "usize::is_power_of_two")
def m_wrap(eng, st, c):
    a, b = c.args[0], c.args[-1]
    nm = c.name.split("::")[-1]
    if nm in ("wrapping_add", "saturating_add"):
        return [(st, add(a, b))]
    if nm == "wrapping_sub":
        return [(st, sub(a, b))]
    if nm == "wrapping_mul":
        return [(st, mul(a, b))]
    if nm == "saturating_sub":
        d = Facts.decide(st, le(b, a))
        return [(st, sub(a, b) if d is True else I(0) if d is False else max0(sub(a, b)))]
    if nm == "div_ceil":
        return [(st, div(sub(add(a, b), I(1)), b))]
    if nm == "rem_euclid":
        return [(st, rem(a, b))]
    if nm == "checked_add":
        return [(st, some(add(a, b)))]
    if nm == "checked_sub":
        return [(s, some(sub(a, b)) if t else NONE) for s, t in fork(st, le(b, a))]
    return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)


OPS = {"Add::add": "Add", "Sub::sub": "Sub", "Mul::mul": "Mul", "Div::div": "Div", "Rem::rem": "Rem"}


def _arith(op):
    def f(eng, st, c):
        a, b = val(eng, st, c.args[0]), val(eng, st, c.args[1])
        t = strip_ref(c.argtys[0])
        if "OrderedFloat" in t:
            x = eng.binop(op, fld(a, 0) if a.op == "agg" or "OrderedFloat" in t else a,
                          fld(b, 0) if "OrderedFloat" in strip_ref(c.argtys[1]) else b, "f64")
            return [(st, agg("OrderedFloat", 0, x))]
        if t in E.INT_TYS or t == "f64":
            return [(st, eng.binop(op, a, b, t))]
        return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)
    return f


def _arith_assign(op):
    def f(eng, st, c):
        st = st.copy()
        a, b = val(eng, st, c.args[0]), val(eng, st, c.args[1])
        t = strip_ref(c.argtys[0])
        if t in E.INT_TYS or t == "f64":
            eng.store(st, c.args[0], eng.binop(op, a, b, t))
            return [(st, UNIT)]
        if "OrderedFloat" in t:
            eng.store(st, c.args[0], agg("OrderedFloat", 0, eng.binop(op, fld(a, 0), fld(b, 0) if "Ordered" in c.argtys[1] else b, "f64")))
            return [(st, UNIT)]
        return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)
    return f


for _k, _o in OPS.items():
    MODELS[_k] = _arith(_o)
    _n = _k.split("::")[0]
    MODELS["%sAssign::%s_assign" % (_n, _n.lower())] = _arith_assign(_o)


@model("Not::not")
def m_not(eng, st, c):
    return [(st, nt(val(eng, st, c.args[0])))]


# ------------------------------------------------------------------ iterators
def It(dom, pos=None):
    return agg("It", 0, dom, pos if pos is not None else I(0))


def is_range(v):
    return v.op == "agg" and v.a[0].split("::")[-1].startswith("Range") and "Inclusive" not in v.a[0] and len(v.a) == 4


def to_dom(v):
    """indexable domain of an iterator value, or None"""
    if v.op != "agg":
        return None
    if is_range(v):
        return T("drange", v.a[2], v.a[3])
    if v.a[0] == "It":
        if v.a[3].op == "int" and v.a[3].a[0] == 0:
            return v.a[2]
        return T("dskip", v.a[2], v.a[3])
    return None


def dlen(eng, st, d):
    o = d.op
    if o == "drange":
        return sub(d.a[1], d.a[0])
    if o == "dseq":
        return length(eng.load(st, d.a[0]))
    if o == "dval":
        return length(d.a[0])
    if o in ("denum", "drev", "dmap", "ddrf"):
        return dlen(eng, st, d.a[0])
    if o == "dzip":
        a, b = dlen(eng, st, d.a[0]), dlen(eng, st, d.a[1])
        if a is b:
            return a
        return iminmax(st, a, b, False)
    if o == "dskip":
        return sub(dlen(eng, st, d.a[0]), d.a[1])
    if o == "dtake":
        return iminmax(st, dlen(eng, st, d.a[0]), d.a[1], False)
    if o == "dstep":
        return div(sub(add(dlen(eng, st, d.a[0]), d.a[1]), I(1)), d.a[1])
    if o == "dwin":
        return sub(length(eng.load(st, d.a[0])), sub(d.a[1], I(1)))
    if o == "dchk":
        return div(length(eng.load(st, d.a[0])), d.a[1])
    if o == "dchs":
        return div(add(length(eng.load(st, d.a[0])), sub(d.a[1], I(1))), d.a[1])
    if o in ("drows", "dcols"):
        return dim(matval(eng, st, d.a[0]))
    if o == "dflat":
        D = dim(matval(eng, st, d.a[0]))
        return mul(D, D)
    if o == "drow":
        return dim(matval(eng, st, d.a[0]))
    if o == "dinf":
        return T("inf")
    if o == "donce":
        return I(1)
    raise Unsupported("dlen " + o)


def matval(eng, st, r):
    return eng.load(st, r)


def ditem(eng, st, d, i, c):
    """-> [(st, item)]"""
    o = d.op
    if o == "drange":
        return [(st, add(d.a[0], i))]
    if o == "dseq":
        return [(st, sref(d.a[0], PI(i)))]
    if o == "dval":
        return [(st, eng.sidx(st, d.a[0], i))]
    if o == "denum":
        return [(s, tup(i, x)) for s, x in ditem(eng, st, d.a[0], i, c)]
    if o == "dzip":
        out = []
        for s, x in ditem(eng, st, d.a[0], i, c):
            for s2, y in ditem(eng, s, d.a[1], i, c):
                out.append((s2, tup(x, y)))
        return out
    if o == "drev":
        return ditem(eng, st, d.a[0], sub(sub(dlen(eng, st, d.a[0]), I(1)), i), c)
    if o == "dskip":
        return ditem(eng, st, d.a[0], add(i, d.a[1]), c)
    if o == "dtake":
        return ditem(eng, st, d.a[0], i, c)
    if o == "dstep":
        return ditem(eng, st, d.a[0], mul(i, d.a[1]), c)
    if o == "dmap":
        out = []
        for s, x in ditem(eng, st, d.a[0], i, c):
            out += eng.call_value(s, d.a[1], [x], c.fid + "/m%d" % d.a[2], c.span)
        return out
    if o == "ddrf":
        return [(s, eng.load(s, x)) for s, x in ditem(eng, st, d.a[0], i, c)]
    if o == "dwin":
        return [(st, sref(d.a[0], PSUB(i, add(i, d.a[1]))))]
    if o == "dchk":
        return [(st, sref(d.a[0], PSUB(mul(i, d.a[1]), mul(add(i, I(1)), d.a[1]))))]
    if o == "dchs":
        # the last one may be shorter
        L, e = length(eng.load(st, d.a[0])), mul(add(i, I(1)), d.a[1])
        return [(s, sref(d.a[0], PSUB(mul(i, d.a[1]), e if g else L))) for s, g in fork(st, le(e, L))]
    if o == "drows":
        return [(st, sref(d.a[0], PROW(i)))]
    if o == "dcols":
        return [(st, sref(d.a[0], PCOL(i)))]
    if o == "dflat":
        return [(st, sref(d.a[0], PFLAT, PI(i)))]
    if o == "drow":
        return [(st, sref(d.a[0], PI(i)))]
    if o == "donce":
        return [(st, d.a[0])]
    raise Unsupported("ditem " + o)


def it_next(eng, st, r, c):
    """next() on the iterator stored at reference r -> [(st, None|item|'retry')]"""
    v = eng.load(st, r)
    n = 0
    while v.op == "ref" and n < 5:      # &mut I is an iterator too
        r = v
        v = eng.load(st, r)
        n += 1
    if v.op == "arc":
        raise Unsupported("shared iterator")
    if v.op != "agg":
        return None
    k = v.a[0]
    if is_range(v):
        out = []
        for s, b in fork(st, lt(v.a[2], v.a[3])):
            if b:
                s = s.copy()
                eng.store(s, sref(r, PF(0)), add(v.a[2], I(1)))
                out.append((s, v.a[2]))
            else:
                out.append((s, None))
        return out
    if k.split("::")[-1] == "RangeFrom":
        s = st.copy()
        eng.store(s, sref(r, PF(0)), add(v.a[2], I(1)))
        return [(s, v.a[2])]
    if k == "It":
        d, pos = v.a[2], v.a[3]
        n = dlen(eng, st, d)
        out = []
        for s, b in fork(st, lt(pos, n)):
            if b:
                s = s.copy()
                if n.op == "imin":
                    for x in n.a:
                        s = assume(s, lt(pos, x)) or s
                    s = s.copy()
                eng.store(s, sref(r, PF(1)), add(pos, I(1)))
                for s2, x in ditem(eng, s, d, pos, c):
                    out.append((s2, x))
            else:
                out.append((s, None))
        return out
    if k == "Filter":
        out = []
        inner = it_next(eng, st, sref(r, PF(0)), c)
        if inner is None:
            return None
        for s, x in inner:
            if x is None or x == "retry":
                out.append((s, x))
                continue
            s = s.copy()
            for s2, q in eng.call_value(s, v.a[3], [fresh(eng, s, c, x, "flt")], c.fid + "/f", c.span):
                for s3, b in fork(s2, q):
                    out.append((s3, x if b else "retry"))
        return out
    if k in ("Map", "FilterMap", "TakeWhile", "MapWhile", "Inspect"):
        out = []
        inner = it_next(eng, st, sref(r, PF(0)), c)
        if inner is None:
            return None
        for s, x in inner:
            if x is None or x == "retry":
                out.append((s, x))
                continue
            if k == "Map":
                out += eng.call_value(s, v.a[3], [x], c.fid + "/f", c.span)
            elif k == "Inspect":
                s = s.copy()
                out += [(s2, x) for s2, _ in eng.call_value(s, v.a[3], [fresh(eng, s, c, x, "insp")], c.fid + "/f", c.span)]
            elif k == "TakeWhile":
                s = s.copy()
                for s2, q in eng.call_value(s, v.a[3], [fresh(eng, s, c, x, "tw")], c.fid + "/f", c.span):
                    for s3, b in fork(s2, q):
                        out.append((s3, x if b else None))
            else:
                for s2, q in eng.call_value(s, v.a[3], [x], c.fid + "/f", c.span):
                    for s3, b in variants(eng, s2, q, 1):
                        out.append((s3, payload(q, 1) if b else "retry" if k == "FilterMap" else None))
        return out
    if k == "Enumerate":
        out = []
        inner = it_next(eng, st, sref(r, PF(0)), c)
        if inner is None:
            return None
        for s, x in inner:
            if x is None or x == "retry":
                out.append((s, x))
                continue
            s = s.copy()
            eng.store(s, sref(r, PF(1)), add(v.a[3], I(1)))
            out.append((s, tup(v.a[3], x)))
        return out
    if k == "Zip":
        out = []
        inner = it_next(eng, st, sref(r, PF(0)), c)
        if inner is None:
            return None
        for s, x in inner:
            if x is None or x == "retry":
                out.append((s, x))
                continue
            inner2 = it_next(eng, s, sref(r, PF(1)), c)
            if inner2 is None:
                return None
            for s2, y in inner2:
                if y == "retry":
                    raise Unsupported("zip with a filtered iterator")
                out.append((s2, None if y is None else tup(x, y)))
        return out
    if k == "Cloned":
        inner = it_next(eng, st, sref(r, PF(0)), c)
        if inner is None:
            return None
        return [(s, x if x is None or x == "retry" else eng.load(s, x)) for s, x in inner]
    if k == "Take":
        out = []
        for s, b in fork(st, lt(I(0), v.a[3])):
            if not b:
                out.append((s, None))
                continue
            s = s.copy()
            eng.store(s, sref(r, PF(1)), sub(v.a[3], I(1)))
            inner = it_next(eng, s, sref(r, PF(0)), c)
            if inner is None:
                return None
            for s2, x in inner:
                out.append((s2, x))
        return out
    return None


@model("Iterator::next")
def m_next(eng, st, c):
    if "Range<" in c.argtys[0] and c.args[0].op == "ref":
        pass
    r = it_next(eng, st, c.args[0], c)
    if r is None:
        return eng.unknown(st, c.name + " " + c.argtys[0][:80], c.args, c.fid, c.span, c.argtys, c.retty)
    return [(s, "retry" if x == "retry" else NONE if x is None else some(x)) for s, x in r]


@model("DoubleEndedIterator::next_back")
def m_next_back(eng, st, c):
    r = c.args[0]
    v = ld(eng, st, r)
    if v.op == "agg" and is_range(v):
        out = []
        for s, b in fork(st, lt(v.a[2], v.a[3])):
            if b:
                s = s.copy()
                x = sub(v.a[3], I(1))
                eng.store(s, sref(r, PF(1)), x)
                out.append((s, some(x)))
            else:
                out.append((s, NONE))
        return out
    return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)


@model("RangeInclusive::new")
def m_rangeincl(eng, st, c):
    a, b = c.args
    return [(st, It(T("drange", a, add(b, I(1)))))]


@model("RangeInclusive::contains", "Range::contains", "RangeBounds::contains")
def m_range_contains(eng, st, c):
    v = ld(eng, st, c.args[0])
    x = val(eng, st, c.args[1])
    d = to_dom(v)
    if d is None:
        return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)
    return [(st, conj([le(d.a[0], x), lt(x, d.a[1])]))]


@model("Range::is_empty", "ExactSizeIterator::is_empty")
def m_range_empty(eng, st, c):
    v = ld(eng, st, c.args[0])
    return [(st, le(v.a[3], v.a[2]))]


@model("ExactSizeIterator::len")
def m_eslen(eng, st, c):
    v = ld(eng, st, c.args[0])
    d = to_dom(v)
    if d is None:
        return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)
    return [(st, dlen(eng, st, d))]


def to_iter(eng, st, v, ty, c):
    """IntoIterator"""
    if v.op == "agg" and (v.a[0] in ITER_AGGS or is_range(v)):
        return v
    t = ty
    if t.startswith("&"):
        inner = eng.load(st, v)
        if inner.op == "agg" and (inner.a[0] in ITER_AGGS or is_range(inner)):
            return v            # &mut I
        it = strip_ref(t)
        if "Matrix<" in it and "NAMatrix" not in it:
            w = mview(eng, st, v)
            if w.op == "ref" and len(w.a) > 1 and w.a[-1].op in ("prow", "pcol"):
                return It(T("drow", w))
            return It(T("dflat", w))
        if inner.op == "agg" and inner.a[0] == OPT:
            return It(T("donce", sref(v, PF(0)))) if inner.a[1] == 1 else It(T("drange", I(0), I(0)))
        if "Hash" in it or "Map" in it:
            return None
        return It(T("dseq", v))
    if v.op == "ref":
        return It(T("dseq", v))
    if v.op == "agg" and v.a[0] == OPT:
        return It(T("donce", v.a[2])) if v.a[1] == 1 else It(T("drange", I(0), I(0)))
    if "Vec<" in t or "[" in t or E.seqlike(v) or (v.op == "agg" and v.a[0] == "array"):
        if "Hash" not in t.split("<")[0]:
            return It(T("dval", v))
    if v.op in ("deref", "fld", "sym", "phi", "idx", "call", "out", "lv", "k") and not v.unk and ("Vec" in t or t.startswith("[")):
        return It(T("dval", v))
    return None


ITER_AGGS = {"It", "Filter", "Map", "FilterMap", "TakeWhile", "MapWhile", "Enumerate", "Zip", "Cloned", "Take", "FlatMap", "Flatten",
             "Chain", "Inspect", "SkipWhile", "Fold", "Scan"}


@model("IntoIterator::into_iter", "IntoParallelIterator::into_par_iter", "slice::iter", "slice::iter_mut", "IntoParallelRefIterator::par_iter",
       "IntoParallelRefMutIterator::par_iter_mut", "Vec::into_iter", "Vec::iter", "Vec::iter_mut", "Vec::drain", "Option::iter", "Option::into_iter")
def m_into_iter(eng, st, c):
    v = c.args[0]
    ty = c.argtys[0]
    if c.name.endswith("drain"):
        s = ld(eng, st, v)
        a, b = range_of(eng, st, c.args[1], s)
        if a is None:
            return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)
        st = st.copy()
        eng.store(st, v, cat(subseq(s, I(0), a), subseq(s, b, length(s))))
        return [(st, It(T("dval", subseq(s, a, b))))]
    if ty.startswith("&") and ("slice::" in c.name):
        r = It(T("dseq", v))
    elif "HashSet" in ty.split("<")[0] and "HashMap" not in ty:
        m = ld(eng, st, v) if ty.startswith("&") else v
        r = It(T("dval", T("setelems", m)))
    else:
        r = to_iter(eng, st, v, ty, c)
    if r is None:
        return eng.unknown(st, c.name + " " + ty[:60], c.args, c.fid, c.span, c.argtys, c.retty)
    if "par_" in c.name:
        st = ev(st, "par", c.name, (), None, c.span)
        r = mark_par(r)
    return [(st, r)]


def mark_par(r):
    return r


@model("Matrix::iter", "Matrix::iter_mut")
def m_mat_iter(eng, st, c):
    v = mview(eng, st, c.args[0])
    if v.op == "ref" and len(v.a) > 1 and v.a[-1].op in ("prow", "pcol"):
        return [(st, It(T("drow", v)))]
    return [(st, It(T("dflat", v)))]


@model("Matrix::row_iter_mut", "Matrix::row_iter")
def m_rows(eng, st, c):
    return [(st, It(T("drows", c.args[0])))]


@model("Matrix::column_iter", "Matrix::column_iter_mut", "Matrix::par_column_iter_mut", "Matrix::par_column_iter")
def m_cols(eng, st, c):
    if "par_" in c.name:
        st = ev(st, "par", c.name, (), None, c.span)
    return [(st, It(T("dcols", c.args[0])))]


@model("slice::windows")
def m_windows(eng, st, c):
    return [(st, It(T("dwin", c.args[0], c.args[1])))]


@model("slice::chunks_exact", "slice::chunks_exact_mut", "ParallelSliceMut::par_chunks_exact_mut", "ParallelSlice::par_chunks_exact")
def m_chunks(eng, st, c):
    if "par_" in c.name:
        st = ev(st, "par", c.name, (), None, c.span)
    return [(st, It(T("dchk", c.args[0], c.args[1])))]


@model("slice::chunks", "slice::chunks_mut", "ParallelSliceMut::par_chunks_mut", "ParallelSlice::par_chunks")
def m_chunks_all(eng, st, c):
    if "par_" in c.name:
        st = ev(st, "par", c.name, (), None, c.span)
    return [(st, It(T("dchs", c.args[0], c.args[1])))]


@model("ParallelSlice::par_windows")
def m_parwin(eng, st, c):
    st = ev(st, "par", c.name, (), None, c.span)
    return [(st, It(T("dwin", c.args[0], c.args[1])))]


def full(v):
    """dom of an untouched indexable iterator"""
    return to_dom(v)


_mid = [0]


def lazy_closure(eng, st, clo, c):
    return clo


@model("Iterator::map", "ParallelIterator::map", "Iterator::inspect")
def m_map(eng, st, c):
    it, f = c.args
    if c.name.endswith("inspect"):
        return [(st, agg("Inspect", 0, it, f))]
    d = to_dom(it)
    if d is not None:
        return [(st, It(T("dmap", d, f, depth_of(d))))]
    return [(st, agg("Map", 0, it, f))]


def depth_of(d):
    n = 0
    while isinstance(d, Term) and d.op.startswith("d") and d.a and isinstance(d.a[0], Term):
        d = d.a[0]
        n += 1
    return n


@model("Iterator::filter", "ParallelIterator::filter")
def m_filter(eng, st, c):
    return [(st, agg("Filter", 0, c.args[0], c.args[1]))]


@model("Iterator::filter_map", "ParallelIterator::filter_map")
def m_filter_map(eng, st, c):
    return [(st, agg("FilterMap", 0, c.args[0], c.args[1]))]


@model("Iterator::flat_map", "ParallelIterator::flat_map", "ParallelIterator::flat_map_iter")
def m_flat_map(eng, st, c):
    return [(st, agg("FlatMap", 0, c.args[0], c.args[1], T("tystr", c.f.get("args", ["", "", ""])[1] if len(c.f.get("args", [])) > 1 else "")))]


@model("Iterator::flatten", "ParallelIterator::flatten")
def m_flatten(eng, st, c):
    return [(st, agg("Flatten", 0, c.args[0]))]


@model("Iterator::chain", "ParallelIterator::chain")
def m_chain(eng, st, c):
    b = to_iter(eng, st, c.args[1], c.argtys[1], c)
    if b is None:
        return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)
    return [(st, agg("Chain", 0, c.args[0], b))]


@model("iter::once")
def m_once(eng, st, c):
    return [(st, It(T("donce", c.args[0])))]


@model("Iterator::take_while", "Iterator::map_while")
def m_tw(eng, st, c):
    return [(st, agg("TakeWhile" if "take" in c.name else "MapWhile", 0, c.args[0], c.args[1]))]


@model("Iterator::skip_while")
def m_sw(eng, st, c):
    return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)


@model("Iterator::enumerate", "IndexedParallelIterator::enumerate")
def m_enum(eng, st, c):
    d = to_dom(c.args[0])
    return [(st, It(T("denum", d)) if d is not None else agg("Enumerate", 0, c.args[0], I(0)))]


@model("Iterator::zip", "IndexedParallelIterator::zip", "iter::zip")
def m_zip(eng, st, c):
    b = to_iter(eng, st, c.args[1], c.argtys[1], c)
    a = to_iter(eng, st, c.args[0], c.argtys[0], c)
    if a is None or b is None:
        return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)
    da, db = to_dom(a), to_dom(b)
    if da is not None and db is not None:
        return [(st, It(T("dzip", da, db)))]
    return [(st, agg("Zip", 0, a, b))]


@model("Iterator::rev", "IndexedParallelIterator::rev")
def m_rev(eng, st, c):
    it = c.args[0]
    if it.op == "agg" and it.a[0] in ("Filter", "Map", "FilterMap", "Cloned", "Inspect"):
        inner = rev_of(it.a[2])
        if inner is not None:
            return [(st, T("agg", it.a[0], it.a[1], inner, *it.a[3:]))]
    r = rev_of(it)
    if r is None:
        return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)
    return [(st, r)]


def rev_of(it):
    d = to_dom(it)
    if d is None:
        return None
    if d.op == "drev":
        return It(d.a[0])
    return It(T("drev", d))


@model("Iterator::skip", "Iterator::take", "Iterator::step_by", "IndexedParallelIterator::skip", "IndexedParallelIterator::take", "IndexedParallelIterator::step_by")
def m_skip(eng, st, c):
    d = to_dom(c.args[0])
    nm = c.name.split("::")[-1]
    if d is None:
        if c.args[0].op == "agg" and c.args[0].a[0].split("::")[-1] == "RangeFrom" and nm == "take":
            a = c.args[0].a[2]
            return [(st, It(T("drange", a, add(a, c.args[1]))))]
        if nm == "take" and c.args[0].op == "agg":
            return [(st, agg("Take", 0, c.args[0], c.args[1]))]
        return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)
    if nm == "skip" and d.op == "drange":
        return [(st, It(T("drange", add(d.a[0], c.args[1]), d.a[1])))]
    return [(st, It(T({"skip": "dskip", "take": "dtake", "step_by": "dstep"}[nm], d, c.args[1])))]


@model("Iterator::cloned", "Iterator::copied", "ParallelIterator::cloned", "ParallelIterator::copied")
def m_cloned(eng, st, c):
    d = to_dom(c.args[0])
    return [(st, It(T("ddrf", d)) if d is not None else agg("Cloned", 0, c.args[0]))]


@model("Iterator::by_ref", "IndexedParallelIterator::with_min_len", "IndexedParallelIterator::with_max_len", "Iterator::fuse", "Iterator::peekable",
       "ParallelBridge::par_bridge", "ParallelIterator::into_par_iter", "Iterator::into_iter")
def m_same(eng, st, c):
    if c.name.endswith("peekable"):
        return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)
    return [(st, c.args[0])]


def is_sub_driven(v):
    """iterators whose traversal is a nest of loops"""
    if v.op != "agg":
        return False
    if v.a[0] in ("FlatMap", "Flatten", "Chain"):
        return True
    if v.a[0] in ("Filter", "Map", "FilterMap", "Cloned", "Inspect"):
        return is_sub_driven(v.a[2])
    return False


_drv = [0]


def drive(eng, st, it, body, c, tag, depth=0):
    """run body(st, item) -> [(label, st)] (label None: go on) over all items
    -> [(label, st)] with label 'end' when the iterator is exhausted"""
    tag = "%s%d" % (tag, depth)
    if is_sub_driven(it):
        k = it.a[0]
        if k == "Chain":
            out = []
            for lab, s in drive(eng, st, it.a[2], body, c, tag + "a", depth + 1):
                if lab == "end":
                    out += drive(eng, s, it.a[3], body, c, tag + "b", depth + 1)
                else:
                    out.append((lab, s))
            return out
        if k in ("FlatMap", "Flatten"):
            def outer(s, x):
                res = []
                xs = eng.call_value(s, it.a[3], [x], c.fid + "/fm" + tag, c.span) if k == "FlatMap" else [(s, x)]
                for s2, inner in xs:
                    i2 = to_iter(eng, s2, inner, "Vec<" if inner.op not in ("ref",) else "&", c)
                    if i2 is None:
                        raise Unsupported("flat_map over " + inner.op)
                    for lab, s3 in drive(eng, s2, i2, body, c, tag + "i", depth + 1):
                        res.append((None if lab == "end" else lab, s3))
                return res
            return drive(eng, st, it.a[2], outer, c, tag + "o", depth + 1)

        def mid(s, x):
            res = []
            if k == "Filter":
                s = s.copy()
                for s2, q in eng.call_value(s, it.a[3], [fresh(eng, s, c, x, "flt")], c.fid + "/f" + tag, c.span):
                    for s3, b in fork(s2, q):
                        res += body(s3, x) if b else [(None, s3)]
            elif k == "Map":
                for s2, y in eng.call_value(s, it.a[3], [x], c.fid + "/f" + tag, c.span):
                    res += body(s2, y)
            elif k == "Cloned":
                res += body(s, eng.load(s, x))
            elif k == "Inspect":
                s = s.copy()
                for s2, y in eng.call_value(s, it.a[3], [fresh(eng, s, c, x, "insp")], c.fid + "/f" + tag, c.span):
                    res += body(s2, x)
            else:
                for s2, q in eng.call_value(s, it.a[3], [x], c.fid + "/f" + tag, c.span):
                    for s3, b in variants(eng, s2, q, 1):
                        res += body(s3, payload(q, 1)) if b else [(None, s3)]
            return res
        return drive(eng, st, it.a[2], mid, c, tag + "m", depth + 1)
    st = st.copy()
    if it.op == "ref":
        cell = it
    else:
        root = CELL(c.fid + "/it" + tag, 0)
        st.mem[root] = it
        cell = ref(root)

    def run(s):
        backs, exits = [], []
        r = it_next(eng, s, cell, c)
        if r is None:
            raise Unsupported("iterator " + str(eng.load(s, cell))[:80])
        for s2, x in r:
            if x is None:
                exits.append(("end", s2))
            elif x == "retry":
                backs.append(s2)
            else:
                for lab, s3 in body(s2, x):
                    if lab is None:
                        backs.append(s3)
                    else:
                        exits.append((lab, s3))
        return backs, exits
    return eng.loop(st, run, (c.fr.body["dpath"] if c.fr else "?"), c.span)


def consumer(eng, st, c, it, body):
    return drive(eng, st, it, body, c, "d")


def unk(eng, st, c):
    return eng.unknown(st, c.name, c.args, c.fid, c.span, c.argtys, c.retty)


def itarg(eng, st, c):
    it = c.args[0]
    if it.op == "ref":
        return it
    if it.op == "agg" and (it.a[0] in ITER_AGGS or is_range(it)):
        return it
    return to_iter(eng, st, it, c.argtys[0], c)


@model("Iterator::for_each", "ParallelIterator::for_each")
def m_for_each(eng, st, c):
    it = itarg(eng, st, c)
    if it is None:
        return unk(eng, st, c)
    par = c.name.startswith("rayon") or "Parallel" in c.name
    if par:
        st = ev(st, "par", c.name, (), None, c.span)

    def body(s, x):
        return [(None, s2) for s2, _ in eng.call_value(s, c.args[1], [x], c.fid + "/b", c.span)]
    return [(s, UNIT) for lab, s in consumer(eng, st, c, it, body)]


def acc_cell(eng, st, c, x):
    st = st.copy()
    root = CELL(c.fid + "/acc", 0)
    st.mem[root] = x
    return st, root


@model("Iterator::fold", "Iterator::sum", "ParallelIterator::sum", "Iterator::count", "ParallelIterator::count", "Iterator::last", "Iterator::product")
def m_fold(eng, st, c):
    it = itarg(eng, st, c)
    if it is None:
        return unk(eng, st, c)
    nm = c.name.split("::")[-1]
    fl = c.retty in ("f64", "f32")
    if nm == "count":
        d = to_dom(it) if it.op == "agg" else None
        if d is not None:
            n = dlen(eng, st, d)
            return [(st, n if Facts.nonneg(st, n) else max0(n))]
    if nm == "last":
        d = to_dom(it) if it.op == "agg" else None
        if d is None:
            return unk(eng, st, c)
        n = dlen(eng, st, d)
        out = []
        for s, b in fork(st, lt(I(0), n)):
            out += [(s2, some(x)) for s2, x in ditem(eng, s, d, sub(n, I(1)), c)] if b else [(s, NONE)]
        return out
    init = {"fold": lambda: c.args[1], "sum": lambda: F0 if fl else I(0), "count": lambda: I(0),
            "product": lambda: F(1.0) if fl else I(1)}[nm]()
    if nm in ("sum", "product") and not fl and c.retty not in E.INT_TYS:
        return unk(eng, st, c)
    st, root = acc_cell(eng, st, c, init)

    def body(s, x):
        a = s.mem[root]
        if nm == "fold":
            out = []
            for s2, r in eng.call_value(s, c.args[2], [a, x], c.fid + "/b", c.span):
                s2 = s2.copy()
                s2.mem[root] = r
                out.append((None, s2))
            return out
        s = s.copy()
        x = val(eng, s, x)
        s.mem[root] = add(a, I(1)) if nm == "count" else (fadd(a, x) if fl else add(a, x)) if nm == "sum" else (fmul(a, x) if fl else mul(a, x))
        return [(None, s)]
    return finish(consumer(eng, st, c, it, body), root)


def finish(outs, root, f=None):
    res = []
    for lab, s in outs:
        s = s.copy()
        r = s.mem.pop(root)
        res.append((s, r))
    return res


@model("ParallelIterator::reduce")
def m_preduce(eng, st, c):
    # identity(), op: sequential left fold
    it = itarg(eng, st, c)
    if it is None:
        return unk(eng, st, c)
    out = []
    for s, idn in eng.call_value(st, c.args[1], [], c.fid + "/id", c.span):
        s, root = acc_cell(eng, s, c, idn)

        def body(s, x):
            o = []
            for s2, r in eng.call_value(s, c.args[2], [s.mem[root], x], c.fid + "/b", c.span):
                s2 = s2.copy()
                s2.mem[root] = r
                o.append((None, s2))
            return o
        out += finish(consumer(eng, s, c, it, body), root)
    return out


@model("Iterator::any", "Iterator::all", "ParallelIterator::any", "ParallelIterator::all")
def m_any(eng, st, c):
    it = itarg(eng, st, c)
    if it is None:
        return unk(eng, st, c)
    anyq = c.name.endswith("any")

    def body(s, x):
        out = []
        for s2, q in eng.call_value(s, c.args[1], [x], c.fid + "/b", c.span):
            for s3, b in fork(s2, q):
                out.append(("hit" if b == anyq else None, s3))
        return out
    res = []
    for lab, s in consumer(eng, st, c, it, body):
        res.append((s, B((lab == "hit") == anyq)))
    return res


@model("Iterator::find", "Iterator::position", "Iterator::find_map", "ParallelIterator::find_any", "ParallelIterator::find_first",
       "IndexedParallelIterator::position_first", "IndexedParallelIterator::position_any", "Iterator::rposition")
def m_find(eng, st, c):
    it = itarg(eng, st, c)
    nm = c.name.split("::")[-1]
    if it is None or is_sub_driven(it):
        return unk(eng, st, c)
    total = None
    if nm == "rposition":
        if it.op == "ref":
            it = eng.load(st, it)
        d = to_dom(it)
        it = rev_of(it)
        if it is None:
            return unk(eng, st, c)
        total = dlen(eng, st, d)
    st, root = acc_cell(eng, st, c, I(0))
    res = c.fid + "/hit"

    def body(s, x):
        out = []
        s = s.copy()
        arg = fresh(eng, s, c, x, "fnd") if nm in ("find", "find_any", "find_first") else x
        pos = s.mem[root]
        for s2, q in eng.call_value(s, c.args[1], [arg], c.fid + "/b", c.span):
            if nm == "find_map":
                for s3, b in variants(eng, s2, q, 1):
                    s3 = s3.copy()
                    if b:
                        s3.mem[CELL(res, 0)] = payload(q, 1)
                    out.append(("hit" if b else None, s3))
                continue
            for s3, b in fork(s2, q):
                s3 = s3.copy()
                if b:
                    s3.mem[CELL(res, 0)] = sub(sub(total, I(1)), pos) if total is not None else pos if nm.startswith("position") else x
                else:
                    s3.mem[root] = add(pos, I(1))
                out.append(("hit" if b else None, s3))
        return out
    outs = []
    for lab, s in consumer(eng, st, c, it, body):
        s = s.copy()
        s.mem.pop(root, None)
        x = s.mem.pop(CELL(res, 0), None)
        outs.append((s, some(x) if lab == "hit" else NONE))
    return outs


KEY2 = [0]


@model("Iterator::min_by", "Iterator::max_by", "Iterator::min_by_key", "Iterator::max_by_key", "Iterator::min", "Iterator::max",
       "ParallelIterator::min_by", "ParallelIterator::max_by", "ParallelIterator::min_by_key", "ParallelIterator::max_by_key",
       "ParallelIterator::min", "ParallelIterator::max")
def m_opt(eng, st, c):
    it = itarg(eng, st, c)
    if it is None or is_sub_driven(it):
        return unk(eng, st, c)
    nm = c.name.split("::")[-1]
    kind = nm[:3]
    tie = "first" if kind == "min" else "last"
    # the items and the conditions under which they are candidates
    got = []
    st, root = acc_cell(eng, st, c, T("optacc"))

    def bad(s):
        s = s.copy()
        s.mem[root] = T("optbad", s.ks[-1])
        return [(None, s)]

    def body(s, x):
        K = s.ks[-1]
        s0 = s.copy()
        s = s.copy()
        x_by_val = byval(eng, s, x)
        outs = []
        if nm.endswith("_by_key"):
            for s2, key in eng.call_value(s, c.args[1], [fresh(eng, s, c, x, "key")], c.fid + "/b", c.span):
                outs.append((s2, [(None, key)]))
        elif nm in ("min", "max"):
            outs.append((s, [(None, val(eng, s, x))]))
        else:
            KEY2[0] += 1
            K2 = T("k", "y%d" % KEY2[0])
            y = subst(x, {K: K2})
            s = s.copy()
            for f in s.facts:
                if K in f.free:
                    s = assume(s, subst(f, {K: K2})) or s
            s = s.copy()
            # memory written while computing this item is not indexed by K: only plain reads are understood
            ax, ay = fresh(eng, s, c, x, "x"), fresh(eng, s, c, y, "y")
            r2 = eng.call_value(s, c.args[1], [ax, ay], c.fid + "/b", c.span)
            if len(r2) != 1:
                return bad(s0)
            s2, o = r2[0]
            if o.op == "cmp" and subst(o.a[0], {K: K2}) is o.a[1]:
                outs.append((s2, [("n", o.a[0])]))
            elif o.op == "cmp" and subst(o.a[1], {K: K2}) is o.a[0]:
                outs.append((s2, [("r", o.a[1])]))
            else:
                return bad(s0)
            s2 = s0
            outs = [(s0, outs[0][1])]
        res = []
        for s2, keys in outs:
            for dr, key in keys:
                s2 = s2.copy()
                s2.mem[root] = T("optitem", s2.mem[root], T("optdir", dr or "n"), newtype(key), x_by_val)
            res.append((None, s2))
        return res
    outs = []
    for lab, s in drive_raw(eng, st, it, body, c, root):
        outs.append((lab, s))
    res = []
    for s, info in outs:
        s = s.copy()
        s.mem.pop(root, None)
        if info is None:
            res += unk(eng, s, c)
            continue
        n, K, cs, empties = info
        dirs = {d for _, d, _, _ in cs}
        if len(dirs) > 1:
            res += unk(eng, s, c)
            continue
        kd = kind
        ti = tie
        if dirs == {"r"}:
            kd = "max" if kind == "min" else "min"
        t = argopt(kd, n, NONE_, ti, [(cc, (k, i)) for cc, d, k, i in cs], K)
        ne = disj([exists(n, cc, K) if cc else lt(I(0), unmax(n)) for cc, d, k, i in cs])
        for s2, b in fork(s, ne):
            if b:
                s2 = s2.copy()
                res.append((s2, some(unval(eng, s2, c, t, cs[0][3]))))
            else:
                res.append((s2, NONE))
    return res


def byval(eng, st, x):
    """an item with references replaced by marked values"""
    if x.op == "ref":
        return T("agg", "byref", 0, eng.deep(st, x))
    if x.op == "agg" and x.a[0] == "tuple" and len(x.a) > 2:
        return T("agg", "tuple", 0, *[byval(eng, st, y) for y in x.a[2:]])
    return x


def unval(eng, st, c, t, shape, tag=""):
    if shape.op == "agg" and shape.a[0] == "byref":
        return fresh(eng, st, c, fld(t, 0), "opt" + tag)
    if shape.op == "agg" and shape.a[0] == "tuple" and len(shape.a) > 2:
        return tup(*[unval(eng, st, c, fld(t, i), y, tag + str(i)) for i, y in enumerate(shape.a[2:])])
    return t


def drive_raw(eng, st, it, body, c, root):
    """traverse once and hand out (exit state, (n, K, candidates)) instead of a closed form"""
    seen = {}
    outs = drive(eng, st, it, body, c, "o")
    res = []
    for lab, s in outs:
        t = s.mem.get(root)
        info = None
        if t is not None:
            # the loop's summary of the accumulator: read the candidates from the loop event
            le = None
            for e in reversed(s.ev):
                if e.kind == "loop" and any(cell is root for cell, _ in e.x["loop"].phi):
                    le = e
                    break
            if le is not None:
                L = le.x["loop"]
                lf = (root, ())
                phi = L.phi[lf]
                if L.N is not None and not L.brk:
                    common = None
                    for p in L.backs:
                        common = set(p.facts) if common is None else common & set(p.facts)
                    cs = []
                    good = True
                    for p in L.backs:
                        v = p.st.mem[root]
                        if v is phi:
                            continue
                        if v.op != "optitem" or v.a[0] is not phi:
                            good = False
                            break
                        cc = [f for f in p.facts if f is not L.guard]
                        cs.append((cc, v.a[1].a[0], v.a[2], v.a[3]))
                    if good and all(not (x.free & set(L.phi.values()) ) for cc, d, k, i in cs for x in list(cc) + [k, i]):
                        info = (L.N, L.K, cs, None)
            elif t.op == "optacc":
                info = None
        res.append((s, info))
    return res


@model("Iterator::collect", "ParallelIterator::collect", "FromIterator::from_iter", "Iterator::partition", "Iterator::unzip")
def m_collect(eng, st, c):
    nm = c.name.split("::")[-1]
    it = itarg(eng, st, c)
    rt = c.retty
    if it is None or nm in ("partition", "unzip"):
        return unk(eng, st, c)
    vec = rt.startswith("std::vec::Vec<") or rt.startswith("std::boxed::Box<[")
    sett = "HashSet" in rt.split("<")[0] or "BTreeSet" in rt.split("<")[0]
    if rt.startswith("std::result::Result<std::vec::Vec") or rt.startswith("std::option::Option<std::vec::Vec"):
        res = rt.startswith("std::result")
        st, root = acc_cell(eng, st, c, SEQ0)
        bad = CELL(c.fid + "/bad", 0)

        def body(s, x):
            out = []
            for s2, b in variants(eng, s, x, 0 if res else 1):
                s2 = s2.copy()
                if b:
                    s2.mem[root] = push(s2.mem[root], payload(x, 0 if res else 1))
                    out.append((None, s2))
                else:
                    s2.mem[bad] = err(payload(x, 1)) if res else NONE
                    out.append(("bad", s2))
            return out
        outs = []
        for lab, s in consumer(eng, st, c, it, body):
            s = s.copy()
            a = s.mem.pop(root)
            b = s.mem.pop(bad, None)
            outs.append((s, b if lab == "bad" else (ok(a) if res else some(a))))
        return outs
    if not vec and not sett:
        return unk(eng, st, c)
    st, root = acc_cell(eng, st, c, SEQ0)

    def body(s, x):
        s = s.copy()
        s.mem[root] = push(s.mem[root], x if vec else val(eng, s, x))
        return [(None, s)]
    outs = finish(consumer(eng, st, c, it, body), root)
    if sett:
        outs = [(s, T("setof", x)) for s, x in outs]
    return outs


@model("Vec::extend", "Extend::extend", "ParallelExtend::par_extend")
def m_extend(eng, st, c):
    if "Vec" not in c.argtys[0]:
        return unk(eng, st, c)
    it = to_iter(eng, st, c.args[1], c.argtys[1], c)
    if it is None:
        return unk(eng, st, c)
    m = re.search(r"Vec<(.*)>$", c.argtys[0])

    def body(s, x):
        s = s.copy()
        if x.op == "ref" and m and not m.group(1).startswith("&"):
            x = eng.load(s, x)
        eng.store(s, c.args[0], push(eng.load(s, c.args[0]), x))
        return [(None, s)]
    return [(s, UNIT) for lab, s in consumer(eng, st, c, it, body)]


@model("Vec::retain", "Vec::retain_mut")
def m_retain(eng, st, c):
    s0 = ld(eng, st, c.args[0])
    st, root = acc_cell(eng, st, c, SEQ0)

    def body(s, x):
        out = []
        s = s.copy()
        for s2, q in eng.call_value(s, c.args[1], [fresh(eng, s, c, x, "ret")], c.fid + "/b", c.span):
            for s3, b in fork(s2, q):
                s3 = s3.copy()
                if b:
                    s3.mem[root] = push(s3.mem[root], x)
                out.append((None, s3))
        return out
    res = []
    for lab, s in consumer(eng, st, c, It(T("dval", s0)), body):
        s = s.copy()
        r = s.mem.pop(root)
        eng.store(s, c.args[0], r)
        res.append((s, UNIT))
    return res


# ------------------------------------------------------------------ nalgebra
@model("Matrix::shape", "Matrix::nrows", "Matrix::ncols", "Matrix::len")
def m_shape(eng, st, c):
    v = mview(eng, st, c.args[0])
    nm = c.name.split("::")[-1]
    if v.op == "ref" and len(v.a) > 1 and v.a[-1].op in ("prow", "pcol"):
        D = dim(ld(eng, st, T("ref", *v.a[:-1])))
        r, k = (I(1), D) if v.a[-1].op == "prow" else (D, I(1))
        return [(st, tup(r, k) if nm == "shape" else D if nm == "len" else r if nm == "nrows" else k)]
    D = dim(ld(eng, st, v))
    return [(st, tup(D, D) if nm == "shape" else mul(D, D) if nm == "len" else D)]


@model("Matrix::row", "Matrix::row_mut")
def m_row(eng, st, c):
    return [(st, sref(c.args[0], PROW(c.args[1])))]


@model("Matrix::column", "Matrix::column_mut")
def m_column(eng, st, c):
    return [(st, sref(c.args[0], PCOL(c.args[1])))]


@model("Matrix::as_slice", "Matrix::as_mut_slice")
def m_as_slice(eng, st, c):
    return [(st, sref(c.args[0], PFLAT))]


def constmat(n, x):
    return T("mat", n, lam2(x, T("k", "cm1"), T("k", "cm2")))


@model("Matrix::from_element", "Matrix::repeat", "Matrix::from_element_generic")
def m_from_element(eng, st, c):
    x = c.args[-1]
    if len(c.args) == 3:
        return [(st, constmat(c.args[0], x))]
    return [(st, T("rep", x, c.args[0]))]


@model("Matrix::zeros")
def m_zeros(eng, st, c):
    return [(st, constmat(c.args[0], F0))]


@model("Matrix::set_diagonal", "Matrix::fill_diagonal")
def m_set_diag(eng, st, c):
    st = st.copy()
    m = ld(eng, st, c.args[0])
    d = val(eng, st, c.args[1])
    x = d if c.name.endswith("fill_diagonal") else idx(d, T("k", "diag"))
    eng.store(st, c.args[0], T("setdiag", m, lam(x, T("k", "diag")) if c.name.endswith("set_diagonal") else lam(x, T("k", "diag"))))
    return [(st, UNIT)]


@model("Matrix::map")
def m_matmap(eng, st, c):
    m = ld(eng, st, c.args[0]) if c.argtys[0].startswith("&") else c.args[0]
    k, l = T("k", "mm1"), T("k", "mm2")
    r = eng.call_value(st, c.args[1], [idx2(m, k, l)], c.fid + "/b", c.span)
    if len(r) != 1:
        return unk(eng, st, c)
    if r[0][1] is idx2(m, k, l):
        return [(st, m)]
    return [(r[0][0], T("mat", dim(m), lam2(r[0][1], k, l)))]


@model("Matrix::from_fn")
def m_from_fn(eng, st, c):
    k, l = T("k", "mm1"), T("k", "mm2")
    r = eng.call_value(st, c.args[2], [k, l], c.fid + "/b", c.span)
    if len(r) == 1:
        return [(r[0][0], T("mat", c.args[0], lam2(r[0][1], k, l)))]
    cs = [(s.facts[len(st.facts):], (x,)) for s, x in r]
    return [(st, T("mat", c.args[0], lam2(T("casev", *normcases(cs)), k, l)))]


@model("Matrix::from_vec", "Matrix::from_row_slice", "Matrix::from_column_slice", "Matrix::from_row_iterator")
def m_from_vec(eng, st, c):
    return [(st, T("mat_from_row" if "row" in c.name else "mat_from_col", c.args[0], val(eng, st, c.args[2])))]


@model("Matrix::transpose")
def m_transpose(eng, st, c):
    m = ld(eng, st, c.args[0])
    k, l = T("k", "mm1"), T("k", "mm2")
    return [(st, T("mat", dim(m), lam2(idx2(m, l, k), k, l)))]


@model("Matrix::get", "Matrix::get_unchecked", "Matrix::get_unchecked_mut")
def m_matget(eng, st, c):
    i = c.args[1]
    if i.op == "agg" and i.a[0] == "tuple":
        r = sref(c.args[0], PI2(i.a[2], i.a[3]))
        if "unchecked" in c.name:
            st = st.copy()
            D = dim(ld(eng, st, c.args[0]))
            eng.raw(st, "ref", c.args[0], i.a[2], I(1), D, c.name)
            eng.raw(st, "ref", c.args[0], i.a[3], I(1), D, c.name)
            return [(st, r)]
        D = dim(ld(eng, st, c.args[0]))
        return [(s, some(r) if b else NONE) for s, b in fork(st, conj([lt(i.a[2], D), lt(i.a[3], D)]))]
    return unk(eng, st, c)


# ------------------------------------------------------------------ priority queue / maps / hash
@model("PriorityQueue::peek")
def m_pqpeek(eng, st, c):
    q = ld(eng, st, c.args[0])
    out = []
    for s, b in fork(st, T("pqnonempty", q)):
        if b:
            s = s.copy()
            x = T("pqtop", q)
            out.append((s, some(tup(fresh(eng, s, c, T("pqitem", x), "i"), fresh(eng, s, c, T("pqprio", x), "p")))))
        else:
            out.append((s, NONE))
    return out


@model("PriorityQueue::pop")
def m_pqpop(eng, st, c):
    q = ld(eng, st, c.args[0])
    out = []
    for s, b in fork(st, T("pqnonempty", q)):
        if b:
            s = s.copy()
            x = T("pqtop", q)
            eng.store(s, c.args[0], T("pqrem", q, T("pqitem", x)))
            out.append((s, some(tup(T("pqitem", x), T("pqprio", x)))))
        else:
            out.append((s, NONE))
    return out


@model("PriorityQueue::remove")
def m_pqrem(eng, st, c):
    st = st.copy()
    q = ld(eng, st, c.args[0])
    k = val(eng, st, c.args[1])
    eng.store(st, c.args[0], T("pqrem", q, k))
    return [(st, T("pqremoved", q, k))]


@model("PriorityQueue::change_priority", "PriorityQueue::push", "PriorityQueue::push_increase", "PriorityQueue::push_decrease")
def m_pqchg(eng, st, c):
    st = st.copy()
    q = ld(eng, st, c.args[0])
    k = val(eng, st, c.args[1])
    p = c.args[2]
    nm = c.name.split("::")[-1]
    eng.store(st, c.args[0], T("pqset" if nm in ("change_priority", "push") else nm, q, k, p))
    return [(st, T("pqold", q, k))]


@model("PriorityQueue::get_priority")
def m_pqget(eng, st, c):
    q = ld(eng, st, c.args[0])
    k = val(eng, st, c.args[1])
    out = []
    for s, b in fork(st, T("pqhas", q, k)):
        if b:
            s = s.copy()
            out.append((s, some(fresh(eng, s, c, T("pqget", q, k)))))
        else:
            out.append((s, NONE))
    return out


@model("PriorityQueue::is_empty", "PriorityQueue::len")
def m_pqempty(eng, st, c):
    q = ld(eng, st, c.args[0])
    return [(st, nt(T("pqnonempty", q)) if c.name.endswith("is_empty") else T("setlen", q))]


@model("PriorityQueue::new", "PriorityQueue::with_capacity")
def m_pqnew(eng, st, c):
    return [(st, T("pq", SEQ0))]


@model("HashMap::entry", "BTreeMap::entry")
def m_entry(eng, st, c):
    return [(st, T("entry", c.args[0], c.args[1]))]


@model("Entry::or_insert", "Entry::or_insert_with")
def m_or_insert(eng, st, c):
    e = c.args[0]
    if e.op != "entry":
        return unk(eng, st, c)
    vs = [(st, c.args[1])] if c.name.endswith("insert") else eng.call_value(st, c.args[1], [], c.fid + "/b", c.span)
    out = []
    for s, v in vs:
        m = eng.load(s, e.a[0])
        s = ev(s, "cache", "or_insert", (m, eng.deep(s, e.a[1]), v), None, c.span)
        eng.store(s, e.a[0], T("mapins", m, eng.deep(s, e.a[1]), v))
        out.append((s, fresh(eng, s, c, T("cached", m, eng.deep(s, e.a[1]), v))))
    return out


@model("HashMap::get")
def m_mapget(eng, st, c):
    m = ld(eng, st, c.args[0])
    k = eng.deep(st, val(eng, st, c.args[1]))
    out = []
    for s, b in fork(st, maphas(m, k)):
        if b:
            s = s.copy()
            out.append((s, some(fresh(eng, s, c, T("mapget", m, k)))))
        else:
            out.append((s, NONE))
    return out


@model("HashMap::insert")
def m_mapins(eng, st, c):
    m = ld(eng, st, c.args[0])
    k = eng.deep(st, c.args[1])
    s = ev(st, "cache", "insert", (m, k, c.args[2]), None, c.span)
    eng.store(s, c.args[0], T("mapins", m, k, c.args[2]))
    return [(s, T("unk", "map old"))]


@model("HashMap::contains_key", "HashSet::contains", "BTreeSet::contains")
def m_maphas(eng, st, c):
    m = ld(eng, st, c.args[0])
    k = eng.deep(st, val(eng, st, c.args[1]))
    return [(st, sethas(eng, st, m, k))]


def sethas(eng, st, m, k):
    return maphas(m, k)


@model("HashSet::insert", "BTreeSet::insert")
def m_setins(eng, st, c):
    st = st.copy()
    m = ld(eng, st, c.args[0])
    k = eng.deep(st, c.args[1])
    had = sethas(eng, st, m, k)
    m2 = T("setof", push(m.a[0], k)) if m.op == "setof" else T("setof", push(SEQ0, k)) if m.op == "map0" else T("setins", m, k)
    eng.store(st, c.args[0], m2)
    return [(st, nt(had))]


@model("HashMap::new", "HashSet::new", "HashMap::with_capacity", "HashSet::with_capacity", "HashMap::with_hasher", "HashMap::with_capacity_and_hasher",
       "HashSet::with_capacity_and_hasher", "HashSet::with_hasher", "BTreeSet::new", "BTreeMap::new")
def m_map0(eng, st, c):
    return [(st, T("map0"))]


@model("Hash::hash")
def m_hash(eng, st, c):
    st = st.copy()
    h = ld(eng, st, c.args[1])
    eng.store(st, c.args[1], T("hash", h, eng.deep(st, val(eng, st, c.args[0]))))
    return [(st, UNIT)]


@model("Hasher::finish")
def m_finish(eng, st, c):
    return [(st, T("hfin", ld(eng, st, c.args[0])))]


@model("BuildHasher::hash_one")
def m_hash_one(eng, st, c):
    return [(st, T("hfin", T("hash", T("hasher0"), eng.deep(st, val(eng, st, c.args[1])))))]


# ------------------------------------------------------------------ threads
@model("Arc::new", "Rc::new")
def m_arc(eng, st, c):
    st = st.copy()
    root = T("vroot", T("arc", eng.site(st, c.fid)))
    st.mem[root] = c.args[0]
    return [(st, T("arc", root))]


@model("Arc::try_unwrap", "Arc::into_inner")
def m_unarc(eng, st, c):
    v = c.args[0]
    if v.op != "arc":
        return unk(eng, st, c)
    x = st.mem.get(v.a[0], T("unk", "arc"))
    return [(st, ok(x) if c.name.endswith("try_unwrap") else some(x))]


@model("Mutex::new", "RwLock::new")
def m_mutex(eng, st, c):
    return [(st, agg("Mutex", 0, c.args[0]))]


LOCKN = [0]


@model("Mutex::lock", "Mutex::try_lock", "RwLock::write", "RwLock::read", "RwLock::try_write", "RwLock::try_read")
def m_lock(eng, st, c):
    if "try_" in c.name.split("::")[-1]:
        # whether the lock is free depends on the other threads
        free = isvar(T("lockfree", eng.site(st, c.fid)), 0)
        out = []
        for cond, ok_ in ((free, True), (nt(free), False)):
            s2 = assume(st, cond)
            if s2 is None:
                continue
            out += lock1(eng, s2, c) if ok_ else [(s2, err(T("lockfree", eng.site(st, c.fid))))]
        return out
    return lock1(eng, st, c)


def lock1(eng, st, c):
    r = sref(c.args[0], PF(0))
    st = st.copy()
    pre = eng.load(st, r)
    inst = T("lockinst", eng.site(st, c.fid), len([e for e in st.ev if e.kind == "lock"]))
    # another thread may have changed the content in the meantime
    content = T("locked", inst, r)
    eng.store(st, r, content)
    g = T("guard", r, inst)
    st.ev = st.ev + (Ev("lock", c.name.split("::")[-1], (r, pre, content), g, st.facts, c.span),)
    return [(st, ok(g))]


@model("Mutex::into_inner")
def m_into_inner(eng, st, c):
    v = c.args[0]
    return [(st, ok(fld(v, 0)))]


@model("Mutex::get_mut")
def m_get_mut(eng, st, c):
    return [(st, ok(sref(c.args[0], PF(0))))]


@model("rayon::scope", "thread::scope", "rayon::in_place_scope")
def m_scope(eng, st, c):
    st = ev(st, "scope", c.name, (), None, c.span)
    outs = eng.call_value(st, c.args[0], [T("scopeobj", c.fid)], c.fid + "/sc", c.span)
    return [(ev(s, "scope_end", c.name, (), None, c.span), r) for s, r in outs]


@model("Scope::spawn")
def m_spawn(eng, st, c):
    st = ev(st, "spawn", c.name, (), None, c.span)
    n = eng.clo_args(c.args[1])
    a = [T("scopeobj", c.fid)] if n != 0 else []
    outs = eng.call_value(st, c.args[1], a, c.fid + "/sp", c.span)
    return [(ev(s, "spawn_end", c.name, (), None, c.span), UNIT) for s, r in outs]


@model("rayon::join")
def m_join(eng, st, c):
    out = []
    for s, a in eng.call_value(st, c.args[0], [], c.fid + "/j1", c.span):
        for s2, b in eng.call_value(s, c.args[1], [], c.fid + "/j2", c.span):
            out.append((s2, tup(a, b)))
    return out


@model("thread::available_parallelism")
def m_avail(eng, st, c):
    return [(st, ok(T("named", "available_parallelism"))), ]


@model("rayon::current_num_threads")
def m_nthreads(eng, st, c):
    return [(st, T("named", "num_threads"))]


@model("NonZero::get", "NonZeroUsize::get")
def m_nzget(eng, st, c):
    return [(st, c.args[0])]


@model("slice::sort", "slice::sort_unstable")
def m_sort(eng, st, c):
    st = st.copy()
    s = ld(eng, st, c.args[0])
    eng.store(st, c.args[0], T("sorted", s))
    return [(st, UNIT)]


@model("Vec::dedup")
def m_dedup(eng, st, c):
    st = st.copy()
    s = ld(eng, st, c.args[0])
    eng.store(st, c.args[0], T("dedup", s))
    return [(st, UNIT)]


# ------------------------------------------------------------------ randomness
@model("rand::thread_rng", "SeedableRng::seed_from_u64", "SeedableRng::from_entropy", "rand::rng")
def m_rng(eng, st, c):
    st = ev(st, "rand", c.name, (), None, c.span)
    return [(st, T("rng"))]


@model("SliceRandom::shuffle")
def m_shuffle(eng, st, c):
    st = st.copy()
    s = ld(eng, st, c.args[0])
    eng.store(st, c.args[0], T("shuffled", s, eng.site(st, c.fid)))
    return [(ev(st, "rand", "shuffle", (s,), None, c.span), UNIT)]


@model("rand::random", "Rng::gen", "Rng::gen_range", "Rng::gen_bool", "Rng::random", "Rng::random_range", "Rng::sample", "Distribution::sample")
def m_random(eng, st, c):
    st = ev(st, "rand", c.name, c.args, None, c.span)
    return [(st, T("rand", c.name.split("::")[-1], eng.site(st, c.fid), len([e for e in st.ev if e.kind == "rand"]), *c.args))]


# ------------------------------------------------------------------ output / formatting
@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_exp", "Argument::new_upper_exp")
def m_fmtarg(eng, st, c):
    return [(st, T("fmtarg", c.name.split("_")[-1], eng.deep(st, val(eng, st, c.args[0]))))]


@model("Arguments::new", "Arguments::from_str", "Arguments::new_v1", "Arguments::new_const")
def m_fmtargs(eng, st, c):
    return [(st, T("fmt", *[eng.deep(st, a) for a in c.args]))]


@model("fmt::format", "string::format", "fmt::Arguments::to_string")
def m_format(eng, st, c):
    return [(st, T("fmtstr", *[eng.deep(st, a) for a in c.args]))]


@model("io::_print", "io::_eprint")
def m_print(eng, st, c):
    return [(ev(st, "print", c.name.split("_")[-1], c.args, None, c.span), UNIT)]


@model("hint::must_use", "hint::black_box")
def m_must_use(eng, st, c):
    return [(st, c.args[0])]


@model("io::stdout", "io::stderr", "Stdout::lock", "Stderr::lock")
def m_stdout(eng, st, c):
    n = c.name.split("::")[-1]
    return [(st, T(n) if n != "lock" else val(eng, st, c.args[0]))]


@model("Write::flush", "io::Write::flush")
def m_flush(eng, st, c):
    return res_outcomes(st, T("wr", eng.site(st, c.fid), len(st.ev)), UNIT)


@model("Write::write_fmt", "io::Write::write_fmt")
def m_write_fmt(eng, st, c):
    st = ev(st, "write", "write_fmt", (c.args[1],), None, c.span, to=eng.deep(st, val(eng, st, c.args[0])))
    return res_outcomes(st, T("wr", eng.site(st, c.fid), len(st.ev)), UNIT)


@model("ToString::to_string", "str::to_string", "String::from")
def m_to_string(eng, st, c):
    return [(st, T("tostring", eng.deep(st, val(eng, st, c.args[0]))))]


def res_outcomes(st, t, okval=None):
    """a fallible library call: both outcomes are possible"""
    out = []
    for s, b in fork(st, nt(isvar(t, 1))):
        out.append((s, ok(okval if okval is not None else fld(dc(t, 0), 0)) if b else err(fld(dc(t, 1), 0))))
    return out


@model("File::open", "fs::read_to_string", "File::create")
def m_open(eng, st, c):
    t = T("io", c.name.split("::")[-1], eng.deep(st, val(eng, st, c.args[0])))
    return res_outcomes(st, t)


@model("Read::read_to_string")
def m_rts(eng, st, c):
    st = st.copy()
    f = eng.deep(st, c.args[0])
    t = T("io", "read_to_string", f)
    eng.store(st, c.args[1], T("content", f))
    return res_outcomes(st, t)


@model("Read::by_ref", "BufReader::new", "BufReader::with_capacity")
def m_reader(eng, st, c):
    """another way to read the same file"""
    a = c.args[-1]
    return [(st, a if c.name.endswith("by_ref") else eng.deep(st, val(eng, st, a)))]


@model("Read::take")
def m_read_take(eng, st, c):
    return [(st, T("take", eng.deep(st, val(eng, st, c.args[0])), c.args[1]))]


@model("io::read_to_string")
def m_io_rts(eng, st, c):
    f = eng.deep(st, val(eng, st, c.args[0]))
    return res_outcomes(st, T("io", "read_to_string", f), T("content", f))


@model("de::from_str", "quick_xml::de::from_str", "de::from_reader", "quick_xml::de::from_reader")
def m_from_str(eng, st, c):
    t = T("io", "xml", eng.deep(st, val(eng, st, c.args[0])))
    return res_outcomes(st, t)


@model("env::args", "env::args_os")
def m_args(eng, st, c):
    return [(st, T("named", "env::args"))]


@model("Parser::parse", "Parser::parse_from")
def m_parse(eng, st, c):
    return [(st, T("named", "cli"))]


@model("any::type_name")
def m_type_name(eng, st, c):
    return [(st, T("str", "type"))]


# ------------------------------------------------------------------ mpi
def mpi_ev(eng, st, op, args, ret, span, **x):
    return ev(st, "mpi", op, args, ret, span, **x)


@model("mpi::initialize", "mpi::initialize_with_threading")
def m_mpi_init(eng, st, c):
    st = mpi_ev(eng, st, "initialize", (), None, c.span)
    return [(st, some(T("universe")))]


@model("Universe::world", "SystemCommunicator::world", "SimpleCommunicator::world")
def m_world(eng, st, c):
    return [(st, T("world"))]


@model("Communicator::rank", "Communicator::size")
def m_rank(eng, st, c):
    return [(st, T("mpi", c.name.split("::")[-1]))]


@model("Communicator::process_at_rank", "Communicator::any_process", "Communicator::this_process")
def m_proc(eng, st, c):
    nm = c.name.split("::")[-1]
    return [(st, T("proc", c.args[1]) if nm == "process_at_rank" else T("proc", T("named", nm)))]


@model("Destination::send", "Destination::send_with_tag", "Destination::synchronous_send", "Destination::synchronous_send_with_tag",
       "Destination::buffered_send", "Destination::buffered_send_with_tag")
def m_send(eng, st, c):
    p = val(eng, st, c.args[0])
    tag = c.args[2] if c.name.endswith("with_tag") else I(0)
    st = mpi_ev(eng, st, "send", (p, eng.deep(st, c.args[1]), tag), None, c.span, ty=c.argtys[1])
    return [(st, UNIT)]


@model("Source::receive", "Source::receive_with_tag", "Source::receive_vec", "Source::receive_vec_with_tag", "Source::receive_into", "Source::receive_into_with_tag",
       "Source::matched_receive")
def m_recv(eng, st, c):
    nm = c.name.split("::")[-1]
    p = val(eng, st, c.args[0])
    tag = c.args[-1] if nm.endswith("with_tag") else T("named", "anytag")
    n = len([e for e in st.ev if e.kind == "mpi"])
    site = eng.site(st, c.fid)
    msg = T("recv", site, n, p)
    status = T("status", site, n, p)
    st = mpi_ev(eng, st, "receive", (p, tag), msg, c.span, ty=c.retty, status=status)
    if "into" in nm:
        eng.store(st, c.args[1], msg)
        return [(st, status)]
    return [(st, tup(msg, status))]


@model("Status::source_rank", "Status::tag")
def m_status(eng, st, c):
    return [(st, T("statusof", c.name.split("::")[-1], val(eng, st, c.args[0])))]


@model("Root::broadcast_into", "Root::reduce_into", "Root::reduce_into_root", "CommunicatorCollectives::all_reduce_into",
       "CommunicatorCollectives::barrier", "Root::gather_into", "Root::gather_into_root", "Root::scatter_into", "Root::scatter_into_root",
       "CommunicatorCollectives::all_gather_into")
def m_coll(eng, st, c):
    nm = c.name.split("::")[-1]
    st = st.copy()
    rootp = val(eng, st, c.args[0])
    args = tuple(eng.deep(st, a) for a in c.args[1:])
    n = len([e for e in st.ev if e.kind == "mpi"])
    site = eng.site(st, c.fid)
    kinds = {"broadcast_into": 1, "reduce_into_root": 2, "all_reduce_into": 2, "gather_into_root": 2, "all_gather_into": 2, "scatter_into": 1, "scatter_into_root": 2}
    out = None
    if nm in kinds:
        buf = c.args[kinds[nm]]
        pre = eng.load(st, buf)
        out = T("coll", nm, site, n, rootp, *args)
        if nm == "broadcast_into":
            # the root keeps its own value
            out = T("bcast", site, n, rootp, pre)
        eng.store(st, buf, out)
    st = mpi_ev(eng, st, nm, (rootp,) + args, out, c.span, tys=tuple(c.argtys))
    return [(st, UNIT)]


@model("UserOperation::commutative", "UserOperation::associative", "SystemOperation::max", "SystemOperation::min", "SystemOperation::sum")
def m_op(eng, st, c):
    return [(st, T("mpiop", c.name.split("::")[-1], *c.args))]


@model("DynBuffer::downcast", "DynBufferMut::downcast")
def m_downcast(eng, st, c):
    return [(st, some(T("buf", c.args[0])))]


@model("UncommittedUserDatatype::structured", "UserDatatype::structured")
def m_dt(eng, st, c):
    return [(st, T("datatype"))]


@model("Instant::now", "SystemTime::now")
def m_now(eng, st, c):
    st = ev(st, "time", c.name, (), None, c.span)
    return [(st, T("time", eng.site(st, c.fid)))]
