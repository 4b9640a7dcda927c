"""Determinism: where chance, time, hash order or the schedule of threads come in, and where they may end up.

A flow analysis over the MIR of every function: labels (sources of nondeterminism, parameters) of locals (with one
level of fields), flow sensitive within a function, summaries (result and what is written through references) between
functions, implicit flows by control dependence.
"""
import re
from lib import *
from collections import defaultdict

RAND = re.compile(r"^(rand|rand_core|rand_chacha|getrandom|fastrand|oorandom)::")
TIME = re.compile(r"time::(Instant|SystemTime)::(now|elapsed)|time::UNIX_EPOCH|mpi::time|::wtime$")
ENV = re.compile(r"^std::env::(?!args)|^std::process::id|^std::thread::current$|ThreadId|available_parallelism|num_cpus|rayon::(current_num_threads|current_thread_index|max_num_threads)|^std::net::|gethostname")
ANY = {"find_any", "position_any", "find_map_any", "par_bridge", "try_for_each", "try_reduce", "try_fold", "take_any", "take_any_while", "skip_any", "skip_any_while", "while_some"}
SAFE = {"insert", "contains", "contains_key", "get", "get_mut", "remove", "len", "is_empty", "entry", "clear", "with_capacity", "new", "default", "clone",
        "reserve", "eq", "ne", "is_subset", "is_superset", "is_disjoint", "index", "retain", "capacity", "take", "replace", "get_or_insert_with", "drop",
        "with_hasher", "with_capacity_and_hasher", "shrink_to_fit", "hasher", "get_key_value", "remove_entry", "extend", "from_iter", "collect", "deref", "deref_mut",
        "borrow", "borrow_mut", "as_ref", "as_mut", "lock", "unwrap", "expect", "fmt", "from", "into", "branch", "from_residual"}
ORDER = "order"
SORTS = re.compile(r"^(par_)?sort(_unstable)?(_by|_by_key|_by_cached_key)?$")
FOLDS = {"count", "len", "all", "any", "min", "max", "is_empty", "contains", "sum", "product"}
UNORDERED = re.compile(r"(HashMap|HashSet|BTreeMap|BTreeSet|IndexSet)<")
INTS = {"usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "bool"}


class Label(tuple):
    """(kind, where, what)"""


def split_generics(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return [x for x in out if not x.startswith("'")]


def random_order(ty):
    """a hash table (or an iterator over one) with randomly keyed hashes"""
    if "RandomState" in ty:
        return True
    for m in re.finditer(r"(?:hash_map::|hash_set::|HashMap|HashSet)(\w*)<", ty):
        i, d = m.end(), 1
        j = i
        while j < len(ty) and d:
            d += (ty[j] == "<") - (ty[j] == ">" and ty[j - 1] != "-")
            j += 1
        n = len(split_generics(ty[i:j - 1]))
        nm = m.group(0)
        if nm.startswith("HashMap<") and n == 2 or nm.startswith("HashSet<") and n == 1:
            return True
    return False


# ------------------------------------------------------------------ one function
class Fn:
    def __init__(self, A, b):
        self.A, self.b = A, b
        self.n = len(b["blocks"])
        self.tys = [l[0] for l in b["locals"]]
        self.succ = [self.succs(bl["t"]) for bl in b["blocks"]]
        self.pred = defaultdict(list)
        for i, ss in enumerate(self.succ):
            for s in ss:
                self.pred[s].append(i)
        self.cdep = self.control()
        self.points, self.clos = self.pointers()

    @staticmethod
    def succs(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return sorted({x[1] for x in t[3]} | {t[4]})
        if k == "call":
            return [t[4]] if t[4] >= 0 else []
        if k == "drop":
            return [t[2]]
        if k == "assert":
            return [t[4]]
        return []

    def control(self):
        """block -> the switches it depends on"""
        n = self.n
        # only what can still return counts (panics are no results)
        live = set()
        todo = [i for i in range(n) if self.b["blocks"][i]["t"][0] == "return"]
        while todo:
            i = todo.pop()
            if i not in live:
                live.add(i)
                todo += self.pred[i]
        full = frozenset(live) | {"x"}
        pd = {i: full for i in live}
        ss = {i: [s for s in self.succ[i] if s in live] or ["x"] for i in live}
        pd["x"] = frozenset({"x"})
        ch = True
        while ch:
            ch = False
            for i in sorted(live, reverse=True):
                v = frozenset.intersection(*[pd[s] for s in ss[i]]) | {i}
                if v != pd[i]:
                    pd[i] = v
                    ch = True
        dep = defaultdict(set)
        for i in live:
            if len(ss[i]) < 2:
                continue
            for s in ss[i]:
                # everything from s up to the first block which comes after i anyway
                for j in pd[s]:
                    if j != "x" and (j not in pd[i] or j == i):
                        dep[j].add(i)
        return dep

    def pointers(self):
        """local -> the locals it may point into; local -> closures"""
        pts = defaultdict(set)
        clo = defaultdict(set)

        def ops(x):
            if isinstance(x, dict):
                if "p" in x and x.get("k") in ("copy", "move"):
                    yield ("op", x["p"][0])
                elif "closure" in x:
                    yield ("clo", x["closure"])
            elif isinstance(x, list):
                for y in x:
                    yield from ops(y)
        ch = True
        while ch:
            ch = False
            before = (sum(map(len, pts.values())), sum(map(len, clo.values())))
            for bl in self.b["blocks"]:
                for s in bl["s"]:
                    if s[0] != "=":
                        continue
                    d, rv = s[1][0], s[2]
                    if rv[0] in ("ref", "rawptr"):
                        base, pr = rv[1]
                        if any(e[0] == "*" for e in pr):
                            pts[d] |= pts[base] | ({base} if base <= self.b["arg_count"] else set())
                        else:
                            pts[d] |= {base}
                        clo[d] |= clo[base]
                    elif rv[0] == "agg":
                        if rv[1].get("a") == "closure":
                            clo[d].add(rv[1]["inst"])
                        for k, v in ops(rv[2]):
                            if k == "op":
                                pts[d] |= pts[v]
                                clo[d] |= clo[v]
                                if v <= self.b["arg_count"] and self.refty(v):
                                    pts[d].add(v)
                            else:
                                clo[d].add(v)
                    elif rv[0] in ("use", "cast", "repeat"):
                        for k, v in ops(rv[1:]):
                            if k == "op":
                                pts[d] |= pts[v]
                                clo[d] |= clo[v]
                                if v <= self.b["arg_count"] and self.refty(v):
                                    pts[d].add(v)
                            else:
                                clo[d].add(v)
                t = bl["t"]
                if t[0] == "call":
                    d = t[3][0]
                    if "&" in self.tys[d] or "*" in self.tys[d] or re.search(r"\b(iter|Iter|Drain|Guard|Ref|RefMut|Entry|View|Chunk|Zip|Map|Enumerate|Rev|Filter)", self.tys[d]):
                        for k, v in ops(t[2]):
                            if k == "op":
                                pts[d] |= pts[v]
                                if v <= self.b["arg_count"] and self.refty(v):
                                    pts[d].add(v)
                    for k, v in ops(t[2]) if re.search(r"losure|dyn |fn\(|impl ", self.tys[d]) else ():
                        if k == "op":
                            clo[d] |= clo[v]
                        else:
                            clo[d].add(v)
            if (sum(map(len, pts.values())), sum(map(len, clo.values()))) != before:
                ch = True
        return pts, clo

    def refty(self, l):
        return "&" in self.tys[l] or self.tys[l].startswith("*") or "{closure" in self.tys[l] or "Closure" in self.tys[l]

    # -------------------------------------------------- labels
    @staticmethod
    def first(pr):
        """the first field of a projection (through references and enum variants)"""
        for e in pr:
            if e[0] == ".":
                return e[1]
            if e[0] in ("i", "ci", "ss"):
                return None
        return None

    def read(self, st, place, deep=True):
        l, pr = place
        f = self.first(pr)
        out = set(st.get((l, None), ()))
        if f is None:
            for k, v in st.items():
                if k[0] == l and k[1] != "d":
                    out |= v
        else:
            out |= st.get((l, f), set())
        for e in pr:
            if e[0] == "i":
                out |= self.read(st, [e[1], []])
        if deep:
            for q in self.points[l]:
                if q != l:
                    out |= self.read(st, [q, []], False)
        return out

    def write(self, st, place, lab, strong=True):
        l, pr = place
        f = self.first(pr)
        if any(e[0] == "*" for e in pr):
            lab = lab | st.get((l, None), frozenset())
            for q in self.points[l] or {l}:
                st[(q, None)] = st.get((q, None), frozenset()) | lab
            if l <= self.b["arg_count"]:
                st[(l, None)] = st.get((l, None), frozenset()) | lab
            return
        if not pr and strong:
            for k in [k for k in st if k[0] == l]:
                del st[k]
            st[(l, None)] = frozenset(lab)
        elif f is not None and strong and len([e for e in pr if e[0] == "."]) == 1 and not any(e[0] == "dc" for e in pr):
            st[(l, f)] = frozenset(lab)
        else:
            st[(l, f)] = st.get((l, f), frozenset()) | lab

    def operand(self, st, o):
        if o.get("k") in ("copy", "move"):
            return self.read(st, o["p"])
        out = set()
        f = (o.get("fn") or {}).get("inst") or o.get("closure")
        for v in (self.A.sums.get(f) or {}).values():
            out |= {x for x in v if x[0] != "p"}
        v = o.get("val")
        for s in statics(v):
            ty = o.get("ty", "")
            if re.search(r"Atomic|Mutex|RwLock|\bCell|RefCell|UnsafeCell|^\*mut", ty):
                out.add(("state", nice(self.b), "the static " + last(s)))
        return out

    def operands(self, st, x):
        out = set()
        if isinstance(x, dict):
            if x.get("k") in ("copy", "move", "const"):
                return self.operand(st, x)
        elif isinstance(x, list):
            for y in x:
                out |= self.operands(st, y)
        return out

    def summary(self):
        """-> {("ret", field) / (param, None): labels}"""
        b = self.b
        init = {}
        for i in range(1, b["arg_count"] + 1):
            init[(i, None)] = frozenset({("p", i)})
        states = {0: init}
        ctl = {}          # switch block -> labels of its condition
        todo = [0]
        out = {}
        rounds = 0
        while todo:
            rounds += 1
            if rounds > 20000:
                raise RuntimeError("no fixed point")
            i = todo.pop(0)
            st = dict(states[i])
            bl = b["blocks"][i]
            if bl["c"]:
                continue
            imp = set()
            for s in self.cdep[i]:
                imp |= ctl.get(s, set())
            imp = frozenset(imp)
            for s in bl["s"]:
                if s[0] == "setd":
                    self.write(st, s[1], imp, False)
                if s[0] != "=":
                    continue
                pl, rv = s[1], s[2]
                self.assign(st, pl, rv, imp)
            t = bl["t"]
            if t[0] == "switch":
                o = t[1]
                lab = frozenset(self.operand(st, o)) | imp
                if not lab <= ctl.get(i, set()):
                    ctl[i] = set(ctl.get(i, set())) | lab
                    # what depends on it is to be looked at again
                    for j in range(self.n):
                        if i in self.cdep[j] and j in states and j not in todo:
                            todo.append(j)
            elif t[0] == "call":
                self.call(st, t, imp)
            elif t[0] == "return":
                for k, v in st.items():
                    if k[0] == 0:
                        out[("ret", k[1])] = out.get(("ret", k[1]), frozenset()) | v
                    elif 1 <= k[0] <= b["arg_count"] and ("&mut" in self.tys[k[0]] or self.tys[k[0]].startswith("*mut") or b["kind"] == "closure" and k[0] == 1):
                        w = frozenset(x for x in v if x != ("p", k[0]))
                        out[(k[0], None)] = out.get((k[0], None), frozenset()) | w
                out[("ret", None)] = out.get(("ret", None), frozenset()) | imp
            for s in self.succ[i]:
                old = states.get(s)
                if old is None:
                    states[s] = dict(st)
                    todo.append(s)
                    continue
                ch = False
                for k, v in st.items():
                    o = old.get(k, frozenset())
                    if not v <= o:
                        old[k] = o | v
                        ch = True
                if ch and s not in todo:
                    todo.append(s)
        return out

    def assign(self, st, pl, rv, imp):
        k = rv[0]
        if k == "agg" and not pl[1] and rv[1].get("a") in ("tuple", "adt") and not rv[1].get("enum"):
            for key in [x for x in st if x[0] == pl[0]]:
                del st[key]
            st[(pl[0], None)] = imp
            for i, o in enumerate(rv[2]):
                st[(pl[0], i)] = frozenset(self.operand(st, o)) | imp
            return
        if k == "use" and not pl[1] and rv[1].get("k") in ("copy", "move") and not rv[1]["p"][1]:
            src = rv[1]["p"][0]
            new = {(pl[0], f): v | imp for (l, f), v in st.items() if l == src}
            for q in self.points[src]:
                pass
            for key in [x for x in st if x[0] == pl[0]]:
                del st[key]
            st.update(new)
            st[(pl[0], None)] = st.get((pl[0], None), frozenset()) | imp
            return
        if k == "discr":
            l, pr = rv[1]
            lab = set(st.get((l, None), ())) | st.get((l, "d"), set()) if not pr else self.read(st, rv[1])
        elif k in ("ref", "rawptr"):
            # the labels stay with what is pointed to
            lab = self.read(st, rv[1]) if any(e[0] == "*" for e in rv[1][1]) else set()
        elif k == "tls":
            lab = {("state", nice(self.b), "the thread local " + str(rv[1]))}
        else:
            lab = self.operands(st, rv[1:])
            if k == "cast" and "ExposeProvenance" in str(rv[1]):
                lab.add(("address", nice(self.b), "the address of a value"))
        self.write(st, pl, frozenset(lab) | imp)

    def call(self, st, t, imp):
        A = self.A
        f = t[1].get("fn") if isinstance(t[1], dict) else None
        args, dst, at, rt = t[2], t[3], t[6], t[7]
        labs = [frozenset(self.operand(st, a)) | imp for a in args]
        inst = (f or {}).get("inst")
        name = (f or {}).get("rpath") or (f or {}).get("path") or ""
        nm = last((f or {}).get("path", ""))
        if inst in A.sums or inst in A.P.bodies:
            self.local(st, inst, args, labs, dst, imp)
            return
        here = nice(self.b)
        res = set().union(*labs) if labs else set()
        if f is None and isinstance(t[1], dict):
            res |= self.operand(st, t[1])
        new = set()
        crate = (f or {}).get("crate", "")
        gp = (f or {}).get("path", "")
        if RAND.search(gp) or RAND.search(name) or crate in ("rand", "rand_core", "getrandom", "fastrand"):
            new.add(("rand", here, nm))
        if TIME.search(gp) or TIME.search(name):
            new.add(("time", here, nm))
        if ENV.search(gp) or ENV.search(name):
            new.add(("threads" if re.search("parallel|num_|thread", nm) else "env", here, nm))
        par = crate == "rayon" or "rayon" in gp or "rayon" in name
        if nm in ANY and (par or nm in ("find_any", "position_any", "find_map_any", "par_bridge")):
            new.add((ORDER if nm == "par_bridge" else "any" if nm.endswith("_any") and "find" in nm or nm == "position_any" else "schedule", here, nm))
        if "mpsc::" in gp and nm in ("recv", "try_recv", "iter", "recv_timeout") and A.concurrent(self.b):
            new.add(("schedule", here, nm))
        if ("Atomic" in name or "Mutex" in gp or "RwLock" in gp) and nm in ("lock", "read", "write", "try_lock", "load", "swap", "compare_exchange", "fetch_add", "fetch_min", "fetch_max", "fetch_sub", "fetch_update", "compare_and_swap") \
                and A.concurrent(self.b) and ("Mutex" in gp or "RwLock" in gp or "Atomic" in gp):
            new.add(("lock", here, nm))
        if par and nm in ("sum", "product") and rt not in INTS:
            new.add(("rounding", here, "the order of the additions in " + nm))
        if gp.startswith("std::thread::LocalKey") or "LocalKey" in gp:
            new.add(("state", here, "a thread local"))
        if any(random_order(x) for x in at) and nm not in SAFE and not nm.startswith("{"):
            new.add((ORDER, here, "the order of a hash table in " + nm))
        # hash tables handed to somebody who iterates over them
        if nm in ("extend", "from_iter", "collect", "from", "into", "eq", "zip", "chain") and any(random_order(x) for x in at[1:] + (at[:1] if nm in ("from_iter", "from", "collect") else [])):
            new.add((ORDER, here, "the order of a hash table in " + nm))
        if par or "thread::" in gp and nm in ("spawn", "scope"):
            for a in args:
                if a.get("k") in ("copy", "move"):
                    for q in self.points[a["p"][0]]:
                        if re.search(r"Mutex<|RwLock<|Atomic|SegQueue|DashMap", self.tys[q]):
                            st[(q, None)] = st.get((q, None), frozenset()) | {("lock", here, "what threads write to " + (b_name(self.b, q) or "a shared value"))}
        # closures: what they read by themselves
        cl = set()
        for a in args:
            if a.get("k") in ("copy", "move"):
                cl |= self.clos[a["p"][0]]
            elif "closure" in a:
                cl.add(a["closure"])
        for c in cl:
            s = A.sums.get(c)
            if s is None:
                continue
            for k, v in s.items():
                new |= {x for x in v if x[0] != "p"}
            if par and nm in ("reduce", "fold", "reduce_with", "fold_with") and A.float_add(c):
                new.add(("rounding", here, "the order of the additions in " + nm))
        if SORTS.match(nm) and args and args[0].get("k") in ("copy", "move"):
            # sorting forgets the order
            l = args[0]["p"][0]
            tg = set(self.points[l]) | {l}
            for key in list(st):
                if key[0] in tg:
                    st[key] = frozenset(x for x in st[key] if not forget(x))
            self.write(st, dst, imp)
            return
        res |= new
        if nm in FOLDS and (nm not in ("sum", "product") or rt in INTS) and not nm.endswith("by") or nm in ("collect", "from_iter") and UNORDERED.search(rt):
            res = {x for x in res if x[0] not in (ORDER, "lock")}
        if nm in ("is_some", "is_none"):
            res = {x for x in res if x[0] not in (ORDER, "any")}
        res = frozenset(res)
        if nm in ("push", "insert", "extend") and not (res - labs[0] if labs else res):
            pass
        # whatever can be written through
        for a, ty, lab in zip(args, at, labs):
            if a.get("k") not in ("copy", "move"):
                continue
            l = a["p"][0]
            if "&mut" in ty or ty.startswith("*mut") or "IterMut" in ty or self.mutclo(l):
                w = res if not mutself_only(nm) else res
                for q in self.points[l] or {l}:
                    st[(q, None)] = st.get((q, None), frozenset()) | w
                if l <= self.b["arg_count"]:
                    st[(l, None)] = st.get((l, None), frozenset()) | w
        if (nm == "next" or any(x[0] == "any" for x in new)) and not dst[1]:
            # how many there are does not depend on their order
            o = frozenset(x for x in res if x[0] in (ORDER, "any"))
            if o:
                for key in [x for x in st if x[0] == dst[0]]:
                    del st[key]
                st[(dst[0], "d")] = res - o
                st[(dst[0], 0)] = res
                return
        self.write(st, dst, res)

    def mutclo(self, l):
        return any(self.A.mutates(c) for c in self.clos[l])

    def local(self, st, inst, args, labs, dst, imp):
        s = self.A.sums.get(inst)
        if s is None:
            return      # not known yet: another round follows
        b = self.A.P.bodies[inst]

        def conv(v):
            out = set(imp)
            for x in v:
                if x[0] == "p":
                    if x[1] - 1 < len(labs):
                        out |= labs[x[1] - 1]
                else:
                    out.add(x)
            return frozenset(out)
        for k, v in s.items():
            if k[0] != "ret" and k[0] - 1 < len(args):
                a = args[k[0] - 1]
                if a.get("k") in ("copy", "move"):
                    l = a["p"][0]
                    for q in self.points[l] or {l}:
                        st[(q, None)] = st.get((q, None), frozenset()) | conv(v)
        if not dst[1]:
            for key in [x for x in st if x[0] == dst[0]]:
                del st[key]
            st[(dst[0], None)] = imp
            for k, v in s.items():
                if k[0] == "ret":
                    st[(dst[0], k[1])] = st.get((dst[0], k[1]), frozenset()) | conv(v)
        else:
            u = frozenset()
            for k, v in s.items():
                if k[0] == "ret":
                    u |= conv(v)
            self.write(st, dst, u)


def b_name(b, l):
    return b["locals"][l][1]


def mutself_only(nm):
    return False


def forget(x):
    """sorting undoes a random order, also one made by a shuffle"""
    return x[0] in (ORDER, "lock") or x[0] == "rand" and x[2] in ("shuffle", "partial_shuffle")


def statics(v):
    if isinstance(v, dict):
        if "static" in v:
            yield v["static"]
        for x in v.values():
            yield from statics(x)
    elif isinstance(v, list):
        for x in v:
            yield from statics(x)


# ------------------------------------------------------------------ the whole crate
class Analysis:
    def __init__(self, config, allowed):
        self.P = prog(config)
        self.allowed = allowed
        self.sums = {}
        self.fns = {}
        self.par = self.parallel()
        self.nsrc = set()

    def parallel(self):
        """closures which run on several threads (and the functions and closures in them)"""
        out = set()
        for b in self.P.bodies.values():
            fn = None
            for bl in b["blocks"]:
                t = bl["t"]
                if t[0] != "call":
                    continue
                f = t[1].get("fn") or {} if isinstance(t[1], dict) else {}
                gp = f.get("path", "")
                if not ("rayon" in gp or f.get("crate") == "rayon" or "thread::" in gp and last(gp) in ("spawn", "scope", "spawn_scoped")):
                    continue
                fn = fn or Fn(self, b)
                for a in t[2]:
                    if a.get("k") in ("copy", "move"):
                        out |= fn.clos[a["p"][0]]
                    elif "closure" in a:
                        out.add(a["closure"])
        ch = True
        while ch:
            n = len(out)
            for i in list(out):
                b = self.P.bodies.get(i)
                if b is None:
                    continue
                for bl in b["blocks"]:
                    t = bl["t"]
                    if t[0] == "call" and isinstance(t[1], dict) and (t[1].get("fn") or {}).get("inst"):
                        out.add(t[1]["fn"]["inst"])
                    for s in bl["s"]:
                        if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("a") == "closure":
                            out.add(s[2][1]["inst"])
            ch = len(out) != n
        return out

    def concurrent(self, b):
        return b["id"] in self.par

    def float_add(self, i):
        b = self.P.bodies.get(i)
        return b is not None and any(s[0] == "=" and s[2][0] == "bin" and s[2][1] in ("Add", "Sub", "Mul") and s[2][4] in ("f64", "f32") for bl in b["blocks"] for s in bl["s"])

    def mutates(self, i):
        b = self.P.bodies.get(i)
        return b is not None and "&mut" in b["locals"][1][0] if b and b["arg_count"] else False

    def run(self):
        order = list(self.P.bodies.values())
        for b in order:
            self.fns[b["id"]] = Fn(self, b)
        for rnd in range(30):
            ch = False
            for b in order:
                s = self.fns[b["id"]].summary()
                ok = self.allowed.get(last(b["path"]), ())
                if ok:
                    s = {k: frozenset(x for x in v if x[0] not in ok) for k, v in s.items()}
                if s != self.sums.get(b["id"]):
                    self.sums[b["id"]] = s
                    ch = True
            if not ch:
                return
        raise RuntimeError("no fixed point")


ALLOWED = {
    # chance is part of the algorithm
    "approx_min_cost_matching": {"rand"}, "bootstrap_mpi_matching_calc": {"rand"}, "mpi_improve_matching": {"rand"}, "n_nearest_neighbour": {"rand"},
    # the number of threads and their schedule: which of several equally good tours, not more (C06)
    "threaded_solver": {"threads", "lock", "schedule"},
}
WHAT = {"rand": "chance", "time": "the time", "env": "the environment", "threads": "the number of processors", "schedule": "the schedule of the threads", "any": "the schedule of the threads", "lock": "the schedule of the threads",
        "rounding": "the schedule of the threads", ORDER: "the random order of a hash table", "state": "earlier calls", "address": "addresses"}


def inherited(A):
    """what a function may depend on because everybody who calls it may"""
    callers = defaultdict(set)
    key = lambda i: i.split("|")[0]
    for b in A.P.bodies.values():
        o = b["id"]
        for bl in b["blocks"]:
            for s in bl["s"]:
                if s[0] == "=":
                    for x in mentioned(s[2]):
                        callers[key(x)].add(o)
            if bl["t"][0] == "call":
                for x in mentioned(bl["t"][1:3]):
                    callers[key(x)].add(o)
    every = set(WHAT)
    inh = {i: set(every) for i in A.P.bodies}
    ch = True
    while ch:
        ch = False
        for i, b in A.P.bodies.items():
            cs = callers[key(i)] - {i}
            v = set.intersection(*[inh[c] for c in cs]) if cs and last(b["path"]) not in API | {"nearest_neighbour_mpi"} else set()
            v |= ALLOWED.get(last(b["path"]), set())
            if v != inh[i]:
                inh[i] = v
                ch = True
    return inh


def mentioned(x):
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("inst", "closure") and isinstance(v, str):
                yield v
            else:
                yield from mentioned(v)
    elif isinstance(x, list):
        for y in x:
            yield from mentioned(y)


def determinism(ck, config="default"):
    A = Analysis(config, ALLOWED)
    try:
        A.run()
    except RuntimeError as x:
        ck.ob("undecided", "determinism", config, str(x))
        return
    ck.functions |= set(A.P.bodies)
    inh = inherited(A)
    for i, b in sorted(A.P.bodies.items()):
        if b["kind"] == "closure" or not b["pub"] or b["derived"]:
            continue
        where = nice(b)
        bad = {}
        for k, v in A.sums[i].items():
            for x in v:
                if x[0] != "p" and x[0] not in inh[i]:
                    bad.setdefault(x, set()).add("the result" if k[0] == "ret" else "its argument %s" % (b["locals"][k[0]][1] or k[0] - 1))
        for (kind, src, what), outs in sorted(bad.items()):
            ck.ob("viol", "determinism", where, "%s depends on %s: %s in %s" % (" and ".join(sorted(outs)), WHAT[kind], what, src))
        if not bad:
            ck.ob("ok", "determinism", where)
