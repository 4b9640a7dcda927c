"""Helpers shared by the rule modules."""
import itertools
from common import *
import engine as EE

getpath = EE.getpath


def callees(body):
    """ids of the local bodies which a body calls, or whose closures it creates"""
    out = []
    for bl in body["blocks"]:
        if bl.get("c"):
            continue
        t = bl["t"]
        if t[0] == "call" and "fn" in t[1]:
            f = t[1]["fn"]
            if f.get("inst"):
                out.append(f["inst"])
        for s in bl["s"]:
            for x in closures_in(s):
                out.append(x)
    return out


def closures_in(x):
    if isinstance(x, dict):
        if x.get("inst"):
            yield x["inst"]
        for v in x.values():
            yield from closures_in(v)
    elif isinstance(x, list):
        for v in x:
            yield from closures_in(v)


def reach(P, start):
    """ids reachable in the call graph"""
    seen = []
    st = [start]
    vis = set()
    while st:
        b = st.pop()
        if b in vis or b not in P.bodies:
            continue
        vis.add(b)
        seen.append(b)
        st.extend(callees(P.bodies[b]))
    return seen


def recursive_heads(P, start):
    """bodies reachable from start which can call themselves; only the entry of each cycle"""
    order = reach_bfs(P, start)
    heads = []
    covered = set()
    for b in order:
        if b in covered:
            continue
        r = set()
        for c in callees(P.bodies[b]):
            if c in P.bodies:
                r |= set(reach(P, c))
        if b in r:
            heads.append(b)
            covered |= {x for x in r if b in set(reach(P, x))}
    return heads


def reach_bfs(P, start):
    seen = [start]
    vis = {start}
    i = 0
    while i < len(seen):
        for c in callees(P.bodies[seen[i]]):
            if c in P.bodies and c not in vis:
                vis.add(c)
                seen.append(c)
        i += 1
    return seen


# ---------------------------------------------------------------- events
def walk(ev, backs=True):
    """all events including those inside loops, scopes (depth first)"""
    for e in ev:
        yield e
        L = e.x.get("loop") if e.kind in ("loop", "par") else None
        if L is not None and backs:
            for q in L.backs:
                yield from walk(q.ev)
            for q in L.exits:
                if q is not e.x.get("exit"):
                    yield from walk(q.ev)


def has(ev, pred):
    return any(pred(e) for e in walk(ev))


def loops(ev):
    return [e for e in ev if e.kind in ("loop", "par") and e.x.get("loop") is not None]


# ---------------------------------------------------------------- facts
class FS:
    """a state holding only facts"""

    def __init__(self, facts):
        st = EE.St()
        self.dead = False
        for f in facts:
            n = assume(st, f)
            if n is None:
                self.dead = True
                break
            st = n
        self.st = st

    def __call__(self, c):
        return Facts.decide(self.st, c)


def holds(facts, c):
    return FS(facts)(c)


# ---------------------------------------------------------------- finite truth tables
def atoms_of(c, out):
    if c.op in ("and", "or"):
        for x in c.a:
            atoms_of(x, out)
    elif c.op == "not":
        atoms_of(c.a[0], out)
    elif c in (TRUE, FALSE):
        pass
    else:
        n = nt(c)
        if n not in out:
            out.setdefault(c, None)


def evalb(c, env):
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c in env:
        return env[c]
    n = nt(c)
    if n in env:
        return not env[n]
    if c.op == "and":
        return all(evalb(x, env) for x in c.a)
    if c.op == "or":
        return any(evalb(x, env) for x in c.a)
    if c.op == "not":
        return not evalb(c.a[0], env)
    raise KeyError(pp(c))


def implies(a, b, axioms=(), limit=14):
    """does a imply b for every valuation of the atoms (satisfying the axioms and the arithmetic of the atoms)?
    -> (True, None) | (False, valuation) | (None, reason)"""
    at = {}
    for c in (a, b) + tuple(axioms):
        atoms_of(c, at)
    at = list(at)
    if len(at) > limit:
        return None, "%d atoms" % len(at)
    for vals in itertools.product((True, False), repeat=len(at)):
        env = dict(zip(at, vals))
        if not evalb(a, env) or evalb(b, env) or not all(evalb(x, env) for x in axioms):
            continue
        # arithmetic consistency of the valuation
        st = EE.St()
        okk = True
        for c, v in env.items():
            st = assume(st, c if v else nt(c))
            if st is None:
                okk = False
                break
        if okk:
            # a second pass in the other order catches eq/ge conflicts
            st = EE.St()
            for c, v in reversed(list(env.items())):
                st = assume(st, c if v else nt(c))
                if st is None:
                    okk = False
                    break
        if okk:
            return False, [pp(c if v else nt(c)) for c, v in env.items()]
    return True, None


def dnf_term(cs):
    """[(conds, payload)] -> disjunction of the conditions"""
    return disj([conj(list(c)) for c, p in cs])


def equiv(a, b, axioms=()):
    r, w = implies(a, b, axioms)
    if r is not True:
        return r, w
    return implies(b, a, axioms)


def sum_parts(t):
    return list(t.a) if t.op == "fadd" else [t]


def msub(xs, ys):
    """multiset difference or None if ys is not contained in xs"""
    xs = list(xs)
    for y in ys:
        if y not in xs:
            return None
        xs.remove(y)
    return xs


# ---------------------------------------------------------------- cached runs
_cache = {}


def run(key, eng_fn, body, args=None, pre=()):
    k = (key, body["id"])
    if k not in _cache:
        e = eng_fn()
        try:
            _cache[k] = (e, e.run(body, args, pre), None)
        except Unsupported as ex:
            _cache[k] = (e, None, "%s" % ex)
        except RecursionError as ex:
            _cache[k] = (e, None, "recursion limit")
        except (AssertionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as ex:
            import traceback
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            _cache[k] = (e, None, "internal %s: %s at %s:%d" % (type(ex).__name__, ex, tb.filename.split("/")[-1], tb.lineno))
    return _cache[k]


def nice(body):
    """stable identity of a body for reports: path and generic arguments"""
    a = [last(x) for x in body["args"] if not x.startswith("'")]
    return body["path"].replace("walky::", "", 1) + ("<%s>" % ",".join(a) if a else "")


def unclose(t, e):
    """rewrite a term after a loop event in terms of the loop carried values at its exit"""
    m = {}
    for ph, c in getattr(e.x["exit"], "final", {}).items():
        if ph.op == "phi" and any(x.op == "loopval" for x in subterms(c)):
            m[c] = ph
    return subst(t, m) if m else t


# ---------------------------------------------------------------- MPI collectives
def uniform(t):
    """does the term have the same value in all processes?  (the arguments of the analysed function do)"""
    if t.op == "mpi":
        return t.a[0] == "size"
    if t.op in ("recv", "statusof", "status", "time", "shuffled", "rnd", "unk", "loopval", "random"):
        return False
    if t.op == "coll":
        return t.a[0] in ("all_reduce_into", "all_gather_into") or t.a[0] == "broadcast_into"
    if t.op == "bcast":
        return uniform(t.a[2])
    if t.op == "lin":
        return all(uniform(x) for m, k in t.a[1] for x in m)
    return all(uniform(x) for x in t.a if isinstance(x, Term))


COLL = {"broadcast_into", "reduce_into_root", "reduce_into", "all_reduce_into", "barrier", "gather_into", "gather_into_root", "scatter_into", "scatter_into_root", "all_gather_into"}


def coll_key(e, m):
    nm = {"reduce_into_root": "reduce", "reduce_into": "reduce", "gather_into": "gather", "gather_into_root": "gather",
          "scatter_into": "scatter", "scatter_into_root": "scatter"}.get(e.name, e.name)
    return nm, (subst(e.args[0], m) if e.args and uniform(e.args[0]) else None)


def shared(evs):
    """name the results of collective operations by their position in the protocol"""
    return {e.ret: T("shared", e.name, k) for k, e in enumerate(evs) if isinstance(e.ret, Term) and e.ret.op in ("coll", "bcast") and uniform(e.ret)}


def collectives(ck, rule, where, paths):
    """all processes take part in the same collective operations: two paths which two processes can take at the same time have the same sequence"""
    seqs = []
    for p in paths:
        if FS(p.facts).dead:
            continue
        evs = [e for e in p.ev if e.kind == "mpi" and e.name in COLL]
        m = shared(evs)
        seqs.append((p, [coll_key(e, m) for e in evs], [subst(f, m) if m else f for f in p.facts if uniform(f)]))
    for i, (p, a, fa) in enumerate(seqs):
        for q, b, fb in seqs[:i]:
            if [x[0] for x in a] == [x[0] for x in b] and all(x[1] is y[1] or None in (x[1], y[1]) for x, y in zip(a, b)):
                continue
            if FS(fa + fb).dead:
                continue
            d = [pp(f)[:80] for f in p.facts if not uniform(f) and f not in q.facts]
            hz = any(hazy(f) for f in p.facts + q.facts if not uniform(f))
            ck.ob("undecided" if hz else "viol", rule, where, "processes which differ in %s call %s and %s" % (d, [x[0] for x in a], [x[0] for x in b]))
            return False
    ck.ob("ok", rule, where)
    return True
