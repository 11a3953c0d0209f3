"""Passes over sequences: what happens once for every element of a list, a cloud or a set."""
from framework import *
from models import *
from invar import implies, LoopVars

class Sweep:
    """Loops of an analysed function as passes over index ranges 0..N."""
    def __init__(self, P, key, root, a, ctx):
        self.P, self.key, self.root, self.a, self.ctx = P, key, root, a, ctx
        self.by = {L.n: L for L in a.loops}; self.done = {}; self.m = {}; self.always = None
    def it(self, n):
        t = T("it", n); INT_ATOMS.add(t); return t
    def v(self, d): return subst(D_(d), self.m, ("sweep", tuple(sorted((t.id, x.id) for t, x in self.m.items())))) if self.m else D_(d)
    def nonneg(self, t, size=1):
        """A number of elements: between zero and what memory can hold."""
        INT_ATOMS.add(t); self.ctx.assume(t, ">=", ZERO); self.ctx.assume(t, "<=", INT((2 ** 63 - 1) // size)); return t
    def range(self, n, N, outer):
        """The condition under which iteration `it` of loop n takes place when it passes over 0..N; checks that it does so in every case in which outer holds.
        Returns the condition for an element to be visited."""
        k = (n, N, outer)
        if k in self.done: return self.done[k]
        L = self.by[n]; it = self.it(n); self.ctx.assume(it, ">=", ZERO); x = leaf(it); N_ = leaf(N); ctx = self.ctx
        at = ilt(x, N_); more = ilt(iadd(x, leaf(ONE)), N_); P = self.P; key = "%s-pass-%d" % (self.key, n)
        back = self.v(L.back) if L.back is not None else D0
        def eqv(g, c, s): return implies(ctx, g, dor(dand(c, s), dand(dnot(c), dnot(s))))
        rotated = eqv(outer, self.v(L.entry_guard), ilt(D0, N_)) and eqv(dand(outer, at), back, more)
        tested = not rotated and implies(ctx, outer, self.v(L.entry_guard)) and eqv(dand(outer, ile(x, N_)), back, at)
        P.require(key, self.root, rotated or tested, "a loop does not visit every element of its sequence exactly once (entered when %s, goes on when %s; the sequence has %s elements)" % (show(L.entry_guard, 6)[:300], show(back, 6)[:300], show(N, 5)[:200]))
        r = (dand(outer, at), dand(outer, at) if rotated else dand(outer, ile(x, N_)))
        self.done[k] = r; return r
    def monotone(self, L):
        """Assumes about the carried values of a loop that start at zero and never grow (never shrink) that they stay below (above) it."""
        V = LoopVars(L, lambda d: as_float(d, 32))
        for x, (ini, nxt) in V.vars.items():
            if ini is not leaf(FZERO): continue
            for rel, le in (("<=", fle), (">=", lambda p, q: fle(q, p))):
                if implies(self.ctx, V.back, le(nxt, leaf(x))): self.ctx.assume(x, rel, FZERO)
    def nest(self, e, Ns, outer=D1):
        """Event e lies in a nest of loops over 0..N for each N of Ns. Returns (visited, reached): the elements the event should be considered for, and all that the loop reaches."""
        if len(e.loops) != len(Ns): raise Unproved("%s happens inside %d nested loops, not %d" % (e.name, len(e.loops), len(Ns)))
        vis = rch = outer
        for n, N in zip(e.loops, Ns): vis, rch = self.range(n, N(vis) if callable(N) else N, vis)
        return vis, rch
    def once(self, key, e, Ns, cond=D1, outer=D1, what="", absent=None, present=None):
        """Event e happens exactly once for each element of the nested sequences for which cond holds, and at no other time."""
        vis, rch = self.nest(e, Ns, outer); g = self.v(e.guard)
        if absent or present:       # inserting what is already there changes nothing, neither does removing what is not
            m = {x: leaf(ZERO if absent else ONE) for x in subterms(g) if x.op == "in" and x.args[0] is (absent or present) and all(y is wrap(z) for y, z in zip(x.args[3:], e.args[1:]))}
            if m: g = subst(g, m, ("absent", bool(absent), tuple(sorted(x.id for x in m))))
        self.P.holds("%s-%s-every" % (self.key, key), self.root, g, self.ctx, dand(vis, cond), what="%s for every element" % what)
        self.P.holds("%s-%s-only" % (self.key, key), self.root, dand(vis, cond), self.ctx, dand(rch, g), what="%s for these elements only" % what)
        return vis
    def once_each(self, key, es, N, cond=D1, what="", elem=None, when=None):
        """Exactly one of the events happens once for each of the N elements of a sequence if cond holds, and none otherwise; elem(e, iteration, occurs) checks what it is about."""
        P, ctx = self.P, self.ctx; N = self.nonneg(N); it = self.it("each"); ctx.assume(it, ">=", ZERO); vis = dand(ilt(D0, leaf(N)), ilt(leaf(it), leaf(N))); tot = D0
        for k, e in enumerate(es):
            if len(e.loops) != 1: P.bad("%s-%s-depth-%d" % (self.key, key, k), P.site(self.root), "%s inside %d nested loops" % (what, len(e.loops))); continue
            L = self.by[e.loops[0]]; D = restrict(self.v(L.entry_guard), ilt(D0, leaf(N))) if not self.always else restrict(restrict(self.v(L.entry_guard), self.always), ilt(D0, leaf(N))); v, r = self.range(L.n, N, D)
            g = subst(dand(D, dand(self.v(e.guard), when(e) if when else D1)), {self.it(L.n): it}, ("each", L.n))
            P.holds("%s-%s-in-%d" % (self.key, key, k), self.root, v, ctx, dand(r, self.v(e.guard)), what="%s only for elements of the sequence" % what)
            P.holds("%s-%s-twice-%d" % (self.key, key, k), self.root, dnot(dand(g, tot)), ctx, vis, what="%s at most once for each element" % what)
            tot = dor(tot, g)
            if elem: elem(e, self.it(L.n), dand(v, self.v(e.guard)), k)
        P.same_cond("%s-%s-all" % (self.key, key), self.root, dand(vis, tot), dand(vis, cond), ctx, what="%s for every element%s" % (what, "" if cond is D1 else " exactly when required"))
def at(p, k, size, off, width):
    """Bytes of element k of the array at p."""
    return T("ldx", T("init", T("ld", p)), lin_add(lin_scale(k, size), INT(off)), width)
def seen(t, off, width):
    """Bytes of what an argument of a call points to."""
    if t.op != "&": raise Unproved("an argument is not passed by reference", (), show(t, 3))
    return t_extract(t.args[0], off, width)
