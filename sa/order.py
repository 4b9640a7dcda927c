"""Finite case distinction on the order of a few values: decides comparison-only steps and small integer arithmetic on terms."""
import itertools
from terms import *
from terms import _poly

inf = float("inf")


def num(t, env):
    """value of a numeric term under an assignment of its atoms; KeyError if something is not assigned"""
    if t in env:
        return env[t]
    o = t.op
    if o == "int":
        return t.a[0]
    if o == "flt":
        return float(t.a[0])
    if o == "lin":
        c, d = _poly(t)
        s = c
        for m, k in d.items():
            v = k
            for x in m:
                v *= num(x, env)
            s += v
        return s
    if o in ("div", "rem"):
        b = num(t.a[1], env)
        if b == 0:
            raise KeyError("division by 0")
        return num(t.a[0], env) // b if o == "div" else num(t.a[0], env) % b
    if o == "imin":
        return min(num(x, env) for x in t.a)
    if o == "imax":
        return max(num(x, env) for x in t.a)
    if o == "max0":
        return max(0, num(t.a[0], env))
    if o == "fmin2":
        return min(num(x, env) for x in t.a)
    if o == "fmax2":
        return max(num(x, env) for x in t.a)
    if o == "fneg":
        return -num(t.a[0], env)
    if o == "fadd":
        return sum(num(x, env) for x in t.a)
    raise KeyError(pp(t)[:80])


def truth(c, env):
    """True, False or None (depends on something else)"""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c in env:
        return env[c]
    o = c.op
    try:
        if o == "not":
            v = truth(c.a[0], env)
            return None if v is None else not v
        if o == "and":
            vs = [truth(x, env) for x in c.a]
            return False if False in vs else (None if None in vs else True)
        if o == "or":
            vs = [truth(x, env) for x in c.a]
            return True if True in vs else (None if None in vs else False)
        if o == "ge0":
            return num(c.a[0], env) >= 0
        if o == "eq0":
            return num(c.a[0], env) == 0
        if o == "flt_":
            return num(c.a[0], env) < num(c.a[1], env)
        if o == "feq":
            return num(c.a[0], env) == num(c.a[1], env)
    except KeyError:
        return None
    return None


def possible(facts, env):
    """no fact is false under the assignment"""
    return all(truth(f, env) is not False for f in facts)


def assignments(groups):
    """groups: [(terms, values)]"""
    names = [t for ts, vs in groups for t in ts]
    for vals in itertools.product(*[vs for ts, vs in groups for t in ts]):
        yield dict(zip(names, vals))
