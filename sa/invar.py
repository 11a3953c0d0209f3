"""Invariants of a summarised loop, found by assuming candidates and dropping those an iteration does not keep."""
from kuba import *

def agree(ctx, guard, a, b):
    """a equals b in every consistent case in which guard holds."""
    g, x, y = ctx.canon(guard), ctx.canon(a), ctx.canon(b)
    if x is y or g is D0 or restrict(x, g) is restrict(y, g): return True
    bad = []
    def f(facts, path, ts):
        if ts[0] is ZERO or bad or ts[1] is ts[2]: return
        if ts[1] is UNDEF or ts[2] is UNDEF or not ctx.same(facts, ts[1], ts[2]): bad.append(path)
    ctx.each([guard, a, b], f, stop=lambda ds: bad or ds[0] is D0 or ds[1] is ds[2])
    return not bad
def implies(ctx, guard, cond): return ctx.holds(dor(dnot(guard), cond), []) is None
def infinite_leaf(d):
    """Where a value is infinite."""
    def f(t):
        if t.op == "fc": return B(abs(t.args[0]) == INF)
        if t.op == "fadd" and any(x.op == "fc" and abs(x.args[0]) == INF for x in t.args): return D1
        return D0
    return apply("isinf", f, d)

class LoopVars:
    """The values a loop carries from one iteration to the next: key -> (symbol at the head, first value, next value)."""
    def __init__(self, L, conv):
        self.L = L; self.vars = {}
        for k in L.init:
            key = L.names.get(k)
            if key is None or L.kinds[key] != "mu" and L.kinds[key] != "mu!" or k not in L.next: continue
            self.vars[T("mu", L.n, k)] = (conv(L.init[k]), conv(L.next[k]))
        self.back = conv(L.back) if L.back is not None else D0
        self.it = T("it", L.n); INT_ATOMS.add(self.it)
    def classes(self, ctx, sub, pre=None):
        """Variables that always have the same value: symbol -> representative (sub: further replacements applied to every value)."""
        groups = {}
        for mu, (ini, nxt) in self.vars.items():
            i = sub(ini, {})
            if i is leaf(UNDEF): continue
            groups.setdefault(ctx.canon(i), []).append(mu)
        groups = [sorted(g, key=lambda t: t.id) for g in groups.values()]
        while True:
            m = {x: g[0] for g in groups for x in g[1:]}
            back = sub(self.back, m); new = []; ch = False
            for g in groups:
                parts = []
                for x in g:
                    v = sub(self.vars[x][1], m)
                    for p in parts:
                        if agree(ctx, back, p[0], v): p[1].append(x); break
                    else: parts.append((v, [x]))
                ch = ch or len(parts) > 1
                new += [p[1] for p in parts]
            groups = new
            if not ch: return m
