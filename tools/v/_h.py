"""helpers for the variant files"""
def mk(X):
    V = []
    src = open('/repo/' + X).read()
    def R(id, *edits, **k): V.append(dict(id=id, kind='refactor', props=[], edits=list(edits), **k))
    def B(id, props, *edits, **k): V.append(dict(id=id, kind='bug', props=props, edits=list(edits), **k))
    def fn(name, start='fn ', nth=0):
        i = -1
        for _ in range(nth + 1):
            i = src.index(start + name, i + 1)
        j = src.rindex('\n', 0, i) + 1
        ind = len(src[j:]) - len(src[j:].lstrip(' '))
        e = src.index('\n' + ' ' * ind + '}\n', i) + ind + 3
        return src[j:e]
    def sub(name, *pairs, **kw):
        s = fn(name, **kw); t = s
        for a, b in pairs:
            assert a in t, (name, a)
            t = t.replace(a, b, 1)
        return (X, s, t)
    def rep(a, b):
        assert src.count(a) == 1, (src.count(a), a)
        return (X, a, b)
    return V, R, B, fn, sub, rep, src
