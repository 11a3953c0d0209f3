"""Rays: what a ray lists, where it ends, and the order in which it crosses cell borders."""
import itertools
from framework import *
from models import *
from invar import *
from props_geom import HOW

def ray_result(n):
    """Offsets of (list, end cell) in what cast_ray returns, and the offset of the cell in its option."""
    for nm in layout().byname:
        if re.match(r"\(alloc::vec::Vec<nalgebra::geometry::point::Point<isize, nalgebra::base::dimension::U%d>, alloc::alloc::Global>, core::option::Option<" % n, nm):
            fs = layout().fields(nm); return fs["__0"][0], fs["__1"][0]
    raise Unproved("the result of a ray is not a list and an optional cell")
class Ray:
    """One ray, traced symbolically: the loop that walks along it with its invariants."""
    def __init__(self, P, n):
        self.n = n; self.root = "ray%d" % n
        a = self.a = P.use(modular(self.root, LISTLIB, nopeel=CV + ">::push", preset=ghost_reset))
        self.o = [fpt("origin", i) for i in range(n)]; self.e = [fpt("end", i) for i in range(n)]; self.off = [fpt("bounds", i) for i in range(n)]
        self.res = farg("resolution"); self.max = farg("max_len")
        self.O = [T("start-cell", i) for i in range(n)]; self.E = [T("end-cell", i) for i in range(n)]
        for t in self.O + self.E: INT_ATOMS.add(t)
        self.cellspec = {}
        for k in range(n):
            self.cellspec[toint(fun("round", fdiv(fsub(self.o[k], self.off[k]), self.res))).term] = self.O[k]
            self.cellspec[toint(fun("round", fdiv(fsub(self.e[k], self.off[k]), self.res))).term] = self.E[k]
        lv, lo = ray_result(n)
        self.len = self.cells(outi(a, "_0", lv + 16)); self.tag = self.cells(outi(a, "_0", lo)); self.count = self.cells(as_int(read_obj(a.obj(a.state, LISTED), 64, 8)))
        self.end = [self.cells(outi(a, "_0", lo + 8 + 8 * k)) for k in range(n)]; self.last = [self.cells(as_int(read_obj(a.obj(a.state, LISTED), 8 * k, 8))) for k in range(n)]
        self.guard = self.cells(a.guard)
    def cells(self, d):
        """Start and end cell as such."""
        m = {}
        for t in subterms(d):
            if t.op == "f2i" or t.op == "round":
                for s, c in self.cellspec.items():
                    if t.op == "f2i" and (t is s or same(t, s)): m[t] = c
                    if t.op == "round" and (t is s.args[0] or same(t, s.args[0])): m[t] = tof(leaf(c))
        return subst(D_(d), m, ("cells", tuple(sorted((t.id, c.id) for t, c in m.items())))) if m else D_(d)

    def loop(self):
        """The loop that lists cells."""
        ls = [L for L in self.a.loops if any(e.kind == "lib" and e.name == "listed" for e in L.events) and L.back is not None]
        return ls
class Way:
    """Rays of one direction: per axis, whether the end cell is before, level with or after the start cell; and whether there is a range limit."""
    def __init__(self, ray, signs, limited):
        n = self.n = ray.n; self.r = ray; self.s = signs
        self.R = [T("reach" if s else "shift", i) for i, s in enumerate(signs)]
        self.m = {}
        for i, s in enumerate(signs):
            self.m[ray.e[i]] = (fadd if s >= 0 else fsub)(ray.o[i], self.R[i])
            if s == 0: self.m[ray.E[i]] = leaf(ray.O[i])
        pos = [ray.res] + [R for R, s in zip(self.R, signs) if s] + ([ray.max] if limited else [])
        # the length of a ray between different cells
        self.lengths = set()
        self.lim = limited
        facts = [] if limited else [(ray.max, "<=", ZEROF)]
        for i, s in enumerate(signs):
            if s: facts.append((ray.O[i], "<", ray.E[i]) if s > 0 else (ray.E[i], "<", ray.O[i]))
        self.norm = self.norms()
        self.ctx = Ctx(positive=pos + self.norm, facts=facts)
        self.E = [leaf(x) if s else leaf(o) for x, o, s in zip(ray.E, ray.O, signs)]; self.O = [leaf(x) for x in ray.O]
        self.extra = {}; self.cur = None
    def norms(self):
        """Square roots of the ray's squared length are positive."""
        want = leaf(FC(0.0, 32))
        for i in range(self.n):
            d = fsub(self.r.e[i], self.r.o[i]); want = fadd(want, fmul(d, d))
        want = self.sub0(want).term; out = []
        for L in self.r.a.loops:
            for d in list(L.next.values()) + list(L.init.values()):
                for t in subterms(d):
                    if t.op == "sqrt" and t not in self.lengths:
                        x = self.sub0(self.r.cells(leaf(t)))
                        if x.var is None and x.term.op == "sqrt" and same(x.term.args[0], want): self.lengths.add(t); out.append(x.term)
        return out
    def sub0(self, d): return subst(D_(d), self.m, ("way", self.n, self.s))
    def sub(self, d, m):
        mm = dict(self.m); mm.update(self.extra); mm.update(m)
        # replacements may mention replaced symbols
        for _ in range(4):
            d = subst(D_(d), mm, ("way+", tuple(sorted((t.id, "d", x.id) if isinstance(x, D) else (t.id, "t", x.id) for t, x in mm.items()))))
        return d
    def v(self, d): return self.sub(self.r.cells(d), self.eq)
    def follow(self, exact):
        """Describes the state at the head of the loop."""
        r, ctx, n = self.r, self.ctx, self.n
        ls = r.loop()
        if len(ls) != 1: raise Unproved("the cells are not listed by one loop")
        L = self.L = ls[0]
        lv = self.lv = LoopVars(L, r.cells)
        ctx.assume(lv.it, ">=", ZERO)
        for mu, (ini, nxt) in lv.vars.items():
            if all(int_atom(t) or t.op in ("int", "lin") for t in leaves(self.sub0(ini))): INT_ATOMS.add(mu)
        # where the ray is: on an axis it need not move along, always at the start
        self.eq = {}
        cur = {}
        for i in range(n):
            c = [mu for mu, (ini, nxt) in lv.vars.items() if self.sub0(ini) is self.O[i]]
            if not c: raise Unproved("no variable of the loop holds coordinate %s of the current cell" % AX[i])
            cur[i] = c
            if self.s[i] == 0:
                for mu in c: self.extra[mu] = self.O[i]
        wide = lambda k: isinstance(k, T) and k.op == "cell" and k.args[2] != 4
        floats = [mu for mu, (ini, nxt) in lv.vars.items() if mu not in INT_ATOMS and not wide(mu.args[1]) and ini is not leaf(UNDEF) and not any(mu in c for c in cur.values())]
        if len(floats) > 1:
            m = lv.classes(ctx, lambda d, x: self.sub(r.cells(d), x))
            for mu in floats:
                if m.get(mu) in floats: self.extra[mu] = leaf(m[mu])
            floats = [mu for mu in floats if mu not in self.extra]
        self.floats = floats
        why = None
        for perm in itertools.permutations(range(n), min(len(floats), n)):
            self.axis = dict(zip(floats, perm))
            w = self.attempt(L, lv, cur, exact)
            if w is None:
                if exact: self.by_name()
                self.book(cur, exact); return
            why = w if why is None or why[0] < w[0] else why
            if not floats: break
        raise Unproved(why[1])
    def by_name(self):
        """Once the distances are known to be right, their order is all that matters."""
        for mu, i in self.axis.items(): self.extra[mu] = self.border(mu, i, self.cur, False)
        self.clear()
        back = dand(self.here, self.v(self.lv.back)); self.back = back
        self.next = [self.v(x) for x in self.next0]
    def book(self, cur, exact):
        """The bookkeeping of the list at the head of the loop: how many cells are on it and which one is last."""
        r, ctx, n, lv = self.r, self.ctx, self.n, self.lv
        rest = [mu for mu in lv.vars if not any(mu in c for c in cur.values()) and mu not in self.axis]
        m = lv.classes(ctx, lambda d, x: self.sub(r.cells(d), x))
        for mu in rest:
            if mu in m and m[mu] in rest: self.extra[mu] = leaf(m[mu])
        self.clear()
        # a cell is listed as soon as it is reached, or only when it is left
        if any(self.listed_at(k) in cur[k] for k in range(n)): return
        h = [self.listed_at(i) for i in range(n)]
        if None in h: return
        it = leaf(lv.it); link = dor(dand(ieq(it, leaf(ZERO)), all_([ieq(x, o) for x, o in zip(self.cur, self.O)])),
                                     dand(ige(it, leaf(ONE)), self.step([leaf(x) for x in h], self.cur)))
        back = dand(dand(self.here, link), self.back)
        if implies(ctx, back, self.step([self.v(lv.vars[x][1]) for x in h], self.next)): self.here = dand(self.here, link); self.back = back
        if not exact or not self.lim: return
        near = lambda x: dor(dnot(self.far(x)), self.at_end(x))
        now = dor(ieq(it, leaf(ZERO)), near(self.cur)); back = dand(now, self.back)
        if implies(ctx, back, near(self.next)): self.here = dand(self.here, now); self.back = back
    def listed_at(self, i):
        for mu in self.lv.vars:
            k = mu.args[1]
            if isinstance(k, T) and k.op == "cell" and k.args[0] is LISTED and k.args[1] == 8 * i: return mu
    def attempt(self, L, lv, cur, exact):
        ctx, n = self.ctx, self.n
        base0 = list(ctx.base); self.eq = {}
        keep = {k: v for k, v in self.extra.items() if k not in self.axis}
        self.extra = keep
        # all variables of an axis are taken to be the same one
        c = self.cur = [leaf(cur[i][0]) if self.s[i] else self.O[i] for i in range(n)]
        for i in range(n):
            if self.s[i]:
                for mu in cur[i][1:]: self.extra[mu] = c[i]
        for i in range(n):
            if self.s[i] > 0: ctx.assume(self.O[i].term, "<=", c[i].term); ctx.assume(c[i].term, "<=", self.E[i].term)
            if self.s[i] < 0: ctx.assume(self.E[i].term, "<=", c[i].term); ctx.assume(c[i].term, "<=", self.O[i].term)
        for mu, i in self.axis.items(): self.extra[mu] = self.border(mu, i, c, exact)
        def fail(why):
            ctx.base = base0; ctx.memo = {}; self.clear(); return why
        held = 0
        self.clear()
        # the loop is left when the ray gets there, or only found to be there at the next iteration
        nx0 = [self.v(lv.vars[cur[i][0]][1]) for i in range(n)]
        self.here = dnot(self.at_end(c))
        if not implies(ctx, dand(self.here, self.v(lv.back)), dnot(self.at_end(nx0))): self.here = D1
        back = dand(self.here, self.v(lv.back)); self.back = back
        self.next0 = [lv.vars[cur[i][0]][1] for i in range(n)]
        nx = [self.v(x) for x in self.next0]; self.next = nx
        # one iteration keeps all of that
        for i in range(n):
            for mu in cur[i][1:]:
                if not agree(ctx, back, nx[i], self.v(lv.vars[mu][1])): return fail((held, "coordinate %s of the current cell and its copies drift apart" % AX[i]))
            lo, hi = (self.O[i], self.E[i]) if self.s[i] >= 0 else (self.E[i], self.O[i])
            if not implies(ctx, back, dand(ile(lo, nx[i]), ile(nx[i], hi))): return fail((held, "the ray leaves the box of its start and end cell along " + AX[i]))
            held += 1
        if not implies(ctx, back, dnot(self.at_end(c))): return fail((held, "the ray goes on after it has reached its end cell"))
        for mu, i in self.axis.items():
            ini, nxt = self.v(lv.vars[mu][0]), self.v(lv.vars[mu][1])
            if exact:
                if not agree(ctx, D1, ini, self.border(mu, i, self.O, exact)): return fail((held, "the first border along %s is not where it should be" % AX[i]))
                if not agree(ctx, back, nxt, self.border(mu, i, nx, exact)): return fail((held, "the next border along %s is not where it should be" % AX[i]))
                held += 1
            else:
                for g, val, at in ((D1, ini, self.O), (back, nxt, nx)):
                    fin = ieq(at[i], self.E[i]); inf = infinite_leaf(val)
                    if not implies(ctx, g, dor(dand(fin, inf), dand(dnot(fin), dnot(inf)))): return fail((held, "the distance along %s is not infinite exactly on finished axes" % AX[i]))
                    held += 1
        return None
    def clear(self):
        c = self.ctx
        for d in (c.memo, c.cmemo, c.vmemo, c.smemo, c.bmemo): d.clear()
    def dist(self, i, cell):
        """Distance to the next border along axis i, times a positive factor (exact arithmetic)."""
        r = self.r; x = fadd(fmul(tof(cell[i]), r.res), r.off[i]); h = fmul(r.res, FC(0.5, 32))
        x = fsub((fadd if self.s[i] > 0 else fsub)(x, h), r.o[i])
        return fdiv(x, fmul(FC(1.0 if self.s[i] > 0 else -1.0, 32), self.R[i]))
    def border(self, mu, i, cell, exact):
        if exact:
            d = self.dist(i, cell) if self.s[i] else FC(0.0, 32)
            d = fmul(d, exact) if exact is not True else d
        else: d = leaf(T("some-distance", i))
        return ite(ieq(cell[i], self.E[i]), leaf(FC(INF, 32)), D_(d))
    # ---------------------------------------------------------------- what a step is
    def step(self, a, b, by=None):
        """Does b follow a by one step towards the end along one axis (that satisfies by)?"""
        r = D0
        for i in range(self.n):
            if not self.s[i]: continue
            mv = ieq(b[i], iadd(a[i], leaf(INT(self.s[i]))))
            ok = all_([mv, dnot(ieq(a[i], self.E[i]))] + [ieq(x, y) for k, (x, y) in enumerate(zip(a, b)) if k != i])
            if by is not None: ok = dand(ok, by(i, a, b))
            r = dor(r, ok)
        return r
    def nearest(self, i):
        """Is the next border along axis i the nearest?"""
        d = lambda k: leaf(T("some-distance", k))
        return all_([dor(ieq(self.cur[j], self.E[j]), fle(d(i), d(j))) for j in range(self.n) if j != i and self.s[j]])
    def far(self, b):
        r = self.r; q = leaf(FC(0.0, 32))
        for i in range(self.n):
            d = fsub(fadd(fmul(tof(b[i]), r.res), r.off[i]), r.o[i]); q = fadd(q, fmul(d, d))
        return flt(fmul(r.max, r.max), q) if self.lim else D0
    def cut(self):
        """The next cell over the nearest border is not the end cell, and too far."""
        r = D0
        for i in range(self.n):
            if not self.s[i]: continue
            b = [iadd(x, leaf(INT(self.s[i]))) if k == i else x for k, x in enumerate(self.cur)]
            r = dor(r, all_([dnot(ieq(self.cur[i], self.E[i])), self.nearest(i), dnot(self.at_end(b)), self.far(b)]))
        return r
    def ret(self):
        """Returning from a ray between different cells."""
        return all_([self.here, dnot(self.back), self.v(self.r.guard)])
    def at_end(self, b): return all_([ieq(x, e) for x, e in zip(b, self.E)])
    def listings(self):
        """(condition, cell, cell listed before, number listed before, length of the list before) of every place that lists a cell."""
        n = self.n; out = []
        for e in self.r.a.events:
            if e.kind == "lib" and e.name == "listed":
                x = [self.v(y) for y in e.args[1:]]
                g = dand(self.here, self.v(e.guard)) if e.loops else self.v(e.guard)
                out.append((g, x[2 + n:], x[2:2 + n], x[1], x[0], e))
        return out
ZEROF = FC(0.0, 32)
WAYS = {n: [s for s in itertools.product((1, 0, -1), repeat=n) if any(s)] for n in DIMS}
def nm(s, lim): return "".join("-0+"[x + 1] for x in s) + ("" if lim else "-unlimited")
_rays, _ways = {}, {}
def ray(P, n):
    if n not in _rays: _rays[n] = Ray(P, n)
    return _rays[n]
def ways(P, n, exact, fn):
    """fn(key, way) for every direction of an n-dimensional ray, with and without a range limit."""
    r = ray(P, n)
    def one(x):
        s, lim = x; k = "%dd-%s" % (n, nm(s, lim)); out = []
        def run():
            w = Way(r, s, lim)
            if exact and len(w.norm) > 1: raise Unproved("the length of a ray is computed in different ways")
            w.follow((leaf(w.norm[0]) if w.norm else True) if exact else False); out.append(w)
        if P.guarded(k + "-follow", r.root, run): P.ok(k + "-follow"); fn(k, out[0])
    P.parallel(itertools.product(WAYS[n], (True, False)), one)

HOWR = HOW + "A ray is decided separately for every direction (per axis: end cell before, level with or after the start cell) and with and without a range limit, for any distance: the loop is summarised by invariants that are checked to hold at first and to be kept by an arbitrary iteration. "
@prop("R01", HOWR + "Rule: on every path that lists a cell, the first cell listed is the start cell and any other is one step along one axis, towards the end cell, from the one listed before, and is not the end cell; the list returned has exactly the cells listed; a reported end is the end cell, one such step from the last cell listed; with equal start and end cells nothing is listed and that cell is reported.")
def r01(P):
    for n in DIMS:
        def setup(): ray(P, n)
        if not P.guarded("%dd" % n, "ray%d" % n, setup): continue
        r = ray(P, n); root = r.root
        for s in [(0,) * n]:
            m = {x: o for x, o in zip(r.E, r.O)}; sub = lambda d: subst(r.cells(d), m, ("same-cell", n)); ctx = Ctx()
            g = sub(r.guard)
            P.holds("%dd-same-cell-returns" % n, root, g, ctx, what="returning when start and end are in the same cell")
            P.equal("%dd-same-cell-lists" % n, root, sub(r.len), leaf(ZERO), ctx, g, what="the number of cells listed by a ray within one cell")
            P.equal("%dd-same-cell-reports" % n, root, sub(r.tag), leaf(ONE), ctx, g, what="whether a ray within one cell reports its end")
            for i in range(n): P.equal("%dd-same-cell-end-%s" % (n, AX[i]), root, sub(r.end[i]), leaf(r.O[i]), ctx, g, what="the cell reported by a ray within one cell")
        foreign = [e for e in stores(r.a) if not local_store(r.a, e)]
        P.require("%dd-list-only-grows" % n, root, not foreign, "the list is changed other than by listing a cell: %s" % (foreign[:1],))
        def check(k, w):
            ctx = w.ctx
            for j, (g, cell, last, count, length, e) in enumerate(w.listings()):
                first = dand(ieq(count, leaf(ZERO)), all_([ieq(x, o) for x, o in zip(cell, w.O)]))
                then = dand(dnot(ieq(count, leaf(ZERO))), w.step(last, cell))
                P.holds("%s-listing-%d-adjacent" % (k, j), root, dor(first, then), ctx, g, what="the cell listed being the start cell or one step from the cell listed before")
                P.holds("%s-listing-%d-not-end" % (k, j), root, dnot(w.at_end(cell)), ctx, g, what="the end cell not being listed")
            g = w.ret(); tag = w.v(r.tag); some = dand(g, dnot(ieq(tag, leaf(ZERO))))
            P.equal(k + "-number", root, w.v(r.len), w.v(r.count), ctx, g, what="the length of the list returned")
            P.holds(k + "-start-listed", root, ige(w.v(r.count), leaf(ONE)), ctx, g, what="listing the start cell")
            P.holds(k + "-end-reported", root, w.at_end([w.v(x) for x in r.end]), ctx, some, what="a reported cell being the end cell")
            P.holds(k + "-end-adjacent", root, w.step([w.v(x) for x in r.last], w.E), ctx, some, what="the reported end cell being one step from the last cell listed")
        ways(P, n, False, check)
    P.count("directions", sum(len(WAYS[n]) * 2 for n in DIMS))
def local_store(a, st): return st[1] is T("arg", "_0") or (isinstance(st[1], T) and st[1].op == "arg" and st[1].args[0] == "_0")

@prop("R02", HOWR + "Rule: at the head of the loop the current cell is in the box of start and end cell and is not the end cell; every iteration either ends the ray or brings the current cell at least one step nearer to the end cell within that box; no path panics; no cell outside of the box is listed; and without a range limit every return reports the end cell.")
def r02(P):
    for n in DIMS:
        def setup(): ray(P, n)
        if not P.guarded("%dd" % n, "ray%d" % n, setup): continue
        r = ray(P, n); root = r.root
        P.require("%dd-one-loop" % n, root, len(r.a.loops) == 1, "there are %d loops without a fixed number of iterations" % len(r.a.loops))
        def check(k, w):
            ctx = w.ctx
            togo = lambda c: [leaf(ZERO), *[isub(e, x) if s > 0 else isub(x, e) for e, x, s in zip(w.E, c, w.s) if s]]
            def total(c):
                t = leaf(ZERO)
                for x in togo(c): t = iadd(t, x)
                return t
            P.holds(k + "-nearer", root, ile(total(w.next), isub(total(w.cur), leaf(ONE))), ctx, w.back, what="every iteration that goes on coming nearer to the end cell")
            for j, e in enumerate(panics(r.a)):
                P.holds("%s-no-panic-%d" % (k, j), root, dnot(w.v(e.guard)), ctx, w.here if e.loops else D1, what="not panicking")
            P.holds(k + "-ends", root, dor(w.back, w.ret()), ctx, w.here, what="every iteration either returning or going on")
            box = lambda c: all_([dand(ile(lo, x), ile(x, hi)) for x, lo, hi in ((x, w.O[i] if w.s[i] >= 0 else w.E[i], w.E[i] if w.s[i] >= 0 else w.O[i]) for i, x in enumerate(c))])
            for j, (g, cell, last, count, length, e) in enumerate(w.listings()):
                P.holds("%s-listing-%d-in-box" % (k, j), root, box(cell), ctx, g, what="listing only cells between the start and the end cell")
            if not w.lim: P.holds(k + "-reports", root, dand(dnot(ieq(w.v(r.tag), leaf(ZERO))), w.at_end([w.v(x) for x in r.end])), ctx, w.ret(), what="a ray without range limit reporting its end cell")
        ways(P, n, False, check)

@prop("R03", HOWR + "Rule (exact arithmetic): the distance kept for each axis equals, at the first iteration and after every one, the distance along the ray from the origin to the border between the current cell and the next on that axis, computed from that axis's own coordinates; every step is along an axis, not yet level with the end cell, with the smallest such distance.")
def r03(P):
    for n in DIMS:
        def setup(): ray(P, n)
        if not P.guarded("%dd" % n, "ray%d" % n, setup): continue
        r = ray(P, n); root = r.root
        def check(k, w):
            by = lambda i, a, b: w.nearest(i)
            P.holds(k + "-step", root, w.step(w.cur, w.next, by), w.ctx, w.back, what="stepping over the nearest cell border")
            some = dand(w.ret(), dnot(ieq(w.v(r.tag), leaf(ZERO))))
            P.holds(k + "-last-step", root, dor(w.at_end(w.cur), w.step(w.cur, w.E, by)), w.ctx, some, what="reaching the end cell over the nearest cell border")
        ways(P, n, True, check)

@prop("R04", HOWR + "Rule (exact arithmetic): with a positive range, every cell listed after the start cell has its centre within the range of the origin (a cell at exactly the range included), and a ray that returns without its end cell has a next cell, over the nearest border, that is not the end cell and is farther than the range; without one, every return reports the end cell.")
def r04(P):
    for n in DIMS:
        def setup(): ray(P, n)
        if not P.guarded("%dd" % n, "ray%d" % n, setup): continue
        r = ray(P, n); root = r.root
        def check(k, w):
            ctx = w.ctx; g = w.ret(); none = dand(g, ieq(w.v(r.tag), leaf(ZERO)))
            if not w.lim:
                P.holds(k + "-never-cut", root, dnot(none), ctx, g, what="a ray without range limit reporting its end cell"); return
            for j, (lg, cell, last, count, length, e) in enumerate(w.listings()):
                P.holds("%s-listing-%d-in-range" % (k, j), root, dor(ieq(count, leaf(ZERO)), dnot(w.far(cell))), ctx, lg, what="listing only cells within the range")
            P.holds(k + "-cut", root, w.cut(), ctx, none, what="a ray being cut off only at a cell beyond the range")
        ways(P, n, True, check)
