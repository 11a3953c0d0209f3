"""Whole clouds: casting all rays of a scan, integrating them into a map, and the clouds themselves."""
from sweep import *
from props_geom import HOW
from props_ray import ray_result
import sets
import models as MM, lists

CLOUD = "PointCloud<nalgebra::base::dimension::U%d>"
def cloud_fields(n):
    """Offsets of the pointer to the coordinates and of the number of columns."""
    L = layout(); o = L.fields(CLOUD % n)["data"][0]
    m = L.fields("Matrix<f32, nalgebra::base::dimension::U%d, nalgebra::base::dimension::Dynamic, nalgebra::base::vec_storage::VecStorage<f32, nalgebra::base::dimension::U%d, nalgebra::base::dimension::Dynamic>>" % (n, n))["data"][0]
    v = L.fields("VecStorage<f32, nalgebra::base::dimension::U%d, nalgebra::base::dimension::Dynamic>" % n)
    return o + m + v["data"][0] + 8, o + m + v["ncols"][0]
class Cloud:
    """A cloud argument as it was on entry."""
    def __init__(self, n, arg):
        self.n = n; p, c = cloud_fields(n); self.ptr = inp(arg, p, 8); self.count = inp(arg, c, 8); INT_ATOMS.add(self.count)
    def coord(self, k, i): return at(self.ptr, k, 4 * self.n, 4 * i, 4)
def named(a, *names): return [e for e in a.events if e.kind == "lib" and e.name in names]
def plain(d): return one(as_int(d), "a value")
CAST = r"^kuba::ray_caster::cast_ray::<"

# ------------------------------------------------------------------ all rays of a scan
@prop("R05", HOW + "Casting one ray is an operation of its own here (R01-R04), hash sets are used through their contracts (insert adds, remove removes, iterating visits every element once). Rule: cast_rays passes once over all columns of the cloud and casts one ray for each, from the origin to exactly the column's coordinates with the given box, resolution and range; inserts the reported end cell into the one returned set exactly when there is one, and every listed cell into the other; after that pass, it removes every element of the first from the second; nothing else touches either set.")
def r05(P):
    for n in DIMS: P.guarded("cast-rays-%d" % n, "rays%d" % n, lambda: cast_all(P, n))
def cast_all(P, n):
    root = "rays%d" % n; key = "rays-%d" % n
    a = P.use(modular(root, SETLIB, opaque=[CAST], rewrite=sets.each, keep=[r"^kuba::ray_caster::cast_rays(::)?<nalgebra::base::dimension::U%d>::\{closure" % n])); ctx = Ctx(); S = Sweep(P, key, root, a, ctx); cl = Cloud(n, "cloud"); S.nonneg(cl.count)
    P.require(key + "-returns", root, not panics(a) and a.guard is D1, "casting the rays of a cloud does not always return")
    cs = calls(a); P.require(key + "-one-call", root, len(cs) == 1 and re.search(CAST, cs[0].name), "rays are cast in %d places, or something unknown is called: %s" % (len(cs), "; ".join(e.name for e in cs)[:300]))
    if not cs or not re.search(CAST, cs[0].name): return
    c = cs[0]; t = c.term.args
    res = T("out", c.term, 0); lv, lo = ray_result(n)
    tag = S.nonneg(T("sub", res, lo, 8)); ctx.assume(tag, "<=", ONE); S.m = {T("low", tag, 1): leaf(tag)}; has = ieq(leaf(tag), leaf(ONE))
    vec = T("sub", res, lv + 8, 8); ln = S.nonneg(T("sub", res, lv + 16, 8), 8 * n)
    S.once("ray", c, [cl.count], what="a ray being cast")
    it = S.it(c.loops[0])
    for i in range(n):
        P.require("%s-origin-%s" % (key, AX[i]), root, seen(t[2], 4 * i, 4) is fpt("origin", i), "the rays start at %s instead of the origin" % show(t[2], 6))
        P.require("%s-end-%s" % (key, AX[i]), root, seen(t[3], 4 * i, 4) is cl.coord(it, i), "a ray ends at %s instead of the point of its column" % show(t[3], 6)[:300])
    for i in range(2 * n): P.require("%s-box-%d" % (key, i), root, seen(t[4], 4 * i, 4) is fpt("bounds", i), "the rays are cast in the box %s" % show(t[4], 6))
    P.require(key + "-resolution", root, t[5] is farg("resolution"), "the rays are cast with resolution " + show(t[5], 5)); P.require(key + "-range", root, t[6] is farg("max_len"), "the rays are cast with range " + show(t[6], 5))
    fo, oo = sets_result(n)
    F, O = plain(outi(a, "_0", fo)), plain(outi(a, "_0", oo))
    P.require(key + "-two-sets", root, F is not O and F.op == "set" and O.op == "set", "the two sets returned are %s and %s" % (show(F), show(O)))
    ev = [e for e in a.events if e.kind == "lib" and e.name.startswith("set-")]; used = []
    def into(h, name): r = [e for e in ev if e.name == name and plain(e.args[0]) is h]; used.extend(r); return r
    final, mi = F, into(F, "set-minus")
    for e in mi:        # free = all - occupied
        P.require(key + "-minus", root, e.loops == () and e.guard is D1 and plain(e.args[2]) is O, "the free set is made by taking away %s" % show(e.args[2])); F = plain(e.args[1])
    ins = into(O, "set-insert"); P.require(key + "-occupied-once", root, len(ins) == 1, "cells are inserted into the occupied set in %d places" % len(ins))
    for e in ins:
        S.once("occupied", e, [cl.count], cond=has, what="inserting the end cell", absent=O)
        P.require(key + "-same-pass", root, e.loops == c.loops, "the end cells are inserted in another pass than the rays are cast in")
        for i in range(n): P.equal("%s-occupied-%s" % (key, AX[i]), root, as_int(e.args[1 + i]), leaf(T("sub", res, lo + 8 + 8 * i, 8)), ctx, has, what="the cell inserted into the occupied set, along " + AX[i])
    ins = into(F, "set-insert"); P.require(key + "-free-once", root, len(ins) == 1, "cells are inserted into the free set in %d places" % len(ins))
    for e in ins:
        vis = S.once("free", e, [cl.count, ln], what="inserting a listed cell", absent=F); P.require(key + "-same-pass-free", root, e.loops[:1] == c.loops, "the listed cells are inserted in another pass than the rays are cast in")
        jt = S.it(e.loops[1])
        for i in range(n): P.equal("%s-free-%s" % (key, AX[i]), root, as_int(e.args[1 + i]), leaf(at(vec, jt, 8 * n, 8 * i, 8)), ctx, vis, what="the cell inserted into the free set, along " + AX[i])
    rem = into(F, "set-remove"); P.require(key + "-removed-once", root, len(rem) + len(mi) == 1, "cells are removed from the free set in %d places" % (len(rem) + len(mi)))
    starts = list(mi)
    for e in rem:
        els = sorted({x for x in subterms(as_int(e.args[1])) if x.op == "elements" and x.args[0] in (O, F)}, key=lambda t: t.id)
        P.require(key + "-removes-occupied", root, len(els) == 1, "what is removed from the free set are not the elements of one of the sets")
        if len(els) != 1: continue
        el = els[0]; starts.append(next(x for x in ev if x.name == "set-iter" and plain(x.args[1]) is el)); jt = S.it(e.loops[0]); cell = [T("ldx", T("init", el), lin_add(lin_scale(jt, 64), INT(8 * i)), 8) for i in range(n)]
        cond = D1
        if el.args[0] is F:     # every element of the free set that is also in the occupied one
            qs = {x for x in subterms(e.guard) if x.op == "in" and x.args[0] is O and list(x.args[3:]) == cell}; m = T("in", O); S.m = dict(S.m); S.m.update({q: leaf(m) for q in qs}); cond = to_bool(leaf(m))
        vis = S.once("removed", e, [S.nonneg(T("size", el))], cond=cond, what="removing an occupied cell", present=F)
        for i in range(n): P.equal("%s-removed-%s" % (key, AX[i]), root, as_int(e.args[1 + i]), leaf(cell[i]), ctx, vis, what="the cell removed from the free set, along " + AX[i])
    for e in starts: P.require(key + "-after", root, e.loops == () and all(ev.index(x) < ev.index(e) for x in ev if x.name == "set-insert"), "occupied cells are removed from the free set before all cells are inserted")
    rest = [e for e in ev if e.name != "set-iter" and e not in used]
    P.require(key + "-nothing-else", root, not rest, "sets are also changed by " + "; ".join("%s of %s" % (e.name, show(e.args[0])) for e in rest)[:300])
    for x in ("origin", "cloud", "bounds"): P.untouched(key, root, a, [x])
def sets_result(n):
    for nm in layout().byname:
        if re.match(r"\(std::collections::hash::set::HashSet<nalgebra::geometry::point::Point<isize, nalgebra::base::dimension::U%d>, .*HashSet<" % n, nm):
            fs = layout().fields(nm); return fs["__0"][0], fs["__1"][0]
    raise Unproved("the result is not a pair of sets of cells")

# ------------------------------------------------------------------ integrating a scan
class Integration:
    def __init__(self, P, n):
        self.P, self.n = P, n; self.root = "integ%d" % n; self.key = "integ-%d" % n; r = self.root
        a = self.a = P.use(modular(r, SETLIB, SEQLIB, opaque=[CASTS, PCB], rewrite=sets.each)); self.ctx = Ctx(); self.S = Sweep(P, self.key, r, a, self.ctx)
        # the cloud's box is a box (G09)
        for e in calls(a, PCB):
            for i in range(n): self.ctx.assume(T("sub", T("out", e.term, 0), 4 * i, 4), "<=", T("sub", T("out", e.term, 0), 4 * (n + i), 4))
        P.returns(self.key + "-returns", r, a, self.ctx); self.S.always = a.guard
        cs = calls(a); known = r"^x_(get|set|res|bounds|track|add|expand|pfc|cfp|changed)%d$" % n
        odd = [e for e in cs if not re.search(known, e.name) and not re.search(CASTS, e.name) and not re.search(PCB, e.name)]
        P.require(self.key + "-operations", r, not odd, "integrating a scan also does something else: " + "; ".join(e.name for e in odd)[:300])
        self.grow = calls(a, "^x_expand%d$" % n); self.cast = calls(a, CASTS); self.sets = calls(a, "^x_set%d$" % n); self.adds = calls(a, "^x_add%d$" % n); self.gets = calls(a, "^x_get%d$" % n)
        # tracking is not changed by any of these operations (M06): every query has the same answer
        self.track = T("tracking"); self.S.m = {T("ret", e.term): leaf(self.track) for e in calls(a, "^x_track%d$" % n)}; self.on = to_bool(leaf(self.track))
        for e in cs:
            if e.name.startswith("x_"): P.require("%s-map-%d" % (self.key, cs.index(e)), r, leaf(mk_ptr(T("arg", "map"), ZERO)) in e.args, "%s is done to something else than the map" % e.name)
    def before(self, e1, e2): return self.a.events.index(e1) < self.a.events.index(e2)
    def one(self, es, what):
        ok = len(es) == 1 and implies(self.ctx, D1, es[0].guard) and not es[0].loops
        self.P.require("%s-%s" % (self.key, what.split()[0]), self.root, ok, "%s happens in %d places, %s" % (what, len(es), "or not always" if es else "so never"))
        return es[0] if ok else None
    def result_sets(self):
        c = self.one(self.cast, "casting the rays")
        if c is None: return None
        fo, oo = sets_result(self.n); o = T("out", c.term, 0); return T("sub", o, fo, 8), T("sub", o, oo, 8)
    def elements(self, h):
        """The sequences of elements of a set that loops run over."""
        return {x.args[1].term for x in self.a.events if x.kind == "lib" and x.name == "set-iter" and plain(x.args[0]) is h}
    def over(self, es, h):
        """Those of the events that are inside loops over the elements of a set."""
        els = self.elements(h); r = []
        for e in es:
            if len(e.loops) == 1 and any(x in els for x in subterms(self.S.by[e.loops[0]].back or D0)) : r.append(e)
        return r
    def cell(self, d, h, it):
        """Is this a pointer to (or the bytes of) element `it` of the set?"""
        return None
CASTS = r"^kuba::ray_caster::cast_rays(::)?<"
PCB = r"^<kuba::geom::point_cloud::PointCloud<.*>>::bounds$"
def elem_of(I, e, h, it, i):
    """Coordinate i of the cell an update is about, as it should be, in the sequence that is passed over."""
    els = I.elements(h); L = I.S.by[e.loops[0]]
    xs = [x for x in subterms(L.back) if x in els]
    if len(set(xs)) != 1: raise Unproved("a loop over several sets")
    return xs[0], T("ldx", T("init", xs[0]), lin_add(lin_scale(it, 64), INT(8 * i)), 8)
def size_of(I, es, h):
    """The length of a set: the passes over it visit the same number of elements."""
    t = T("members", h); els = I.elements(h); I.S.m = dict(I.S.m); I.S.m.update({T("size", x): leaf(t) for x in els}); return t
def passed(I, e, k, n):
    """The cell given by reference as argument k of a call."""
    t = e.term.args[1 + k]
    if t.op != "&": raise Unproved("the cell is not passed by reference")
    c = t.args[0]
    return [t_extract(c, 8 * i, 8) if c.op != "at" else T("ldx", c.args[0], lin_add(c.args[1], INT(8 * i)), 8) for i in range(n)]
def update(n, miss):
    """The new value of a cell in terms of the old one: (variable, value), from the model's own operation on a single cell."""
    a = analyse(("miss%d" if miss else "hit%d") % n); e = calls(a, "^x_set%d$" % n); g = calls(a, "^x_get%d$" % n)
    if len(e) != 1 or len(g) != 1: raise Unproved("a single update is not one reading and one writing")
    return T("ret", g[0].term), e[0].args[2]
@prop("N02", HOW + "Casting a cloud's rays (R05), the cloud's box (G09) and the map's operations are operations of their own here; hash sets and lists are used through their contracts. Rule: exactly one casting of rays, after the one growth of the map, with the given origin and cloud, the box and resolution the map reports after growing, and the model's range; then exactly one write per element of the free set with the value integrate_miss computes from a reading of that same cell just before, exactly one per element of the occupied set with the value of integrate_hit, and no other write.")
def n02(P):
    for n in DIMS: P.guarded("integrate-%d" % n, "integ%d" % n, lambda: n02_dim(P, n))
def n02_dim(P, n):
    I = Integration(P, n); a, r, key, S = I.a, I.root, I.key, I.S
    fo = I.result_sets(); g = I.one(I.grow, "growing the map")
    if fo is None or g is None: return
    c = I.cast[0]; t = c.term.args
    P.require(key + "-cast-after-growing", r, I.before(g, c), "the rays are cast before the map grows")
    for i in range(n): P.require("%s-cast-origin-%s" % (key, AX[i]), r, seen(t[2], 4 * i, 4) is fpt("origin", i), "the rays start at " + show(t[2], 5))
    P.require(key + "-cast-cloud", r, c.args[2] is leaf(mk_ptr(T("arg", "cloud"), ZERO)) and not changed_bytes(a, "cloud"), "another cloud is cast: " + show(c.args[2], 4))
    for i in range(2 * n):
        x = seen(t[4], 4 * i, 4); ok = [e for e in calls(a, "^x_bounds%d$" % n) if not e.loops and implies(I.ctx, D1, e.guard) and I.before(g, e) and x is T("sub", T("out", e.term, 0), 4 * i, 4)]
        P.require("%s-cast-box-%d" % (key, i), r, bool(ok), "the rays are cast in a box that is not the map's after growing: " + show(x, 6))
    ok = [e for e in calls(a, "^x_res%d$" % n) if not e.loops and t[5] is T("ret", e.term)]; P.require(key + "-cast-resolution", r, bool(ok), "the rays are cast with resolution " + show(t[5], 5))
    P.equal(key + "-cast-range", r, leaf(t[6]), leaf(T("sub", T("init", T("arg", "nm")), layout().fields("LidarNoiseModel")["max_range"][0], 4)), I.ctx, what="the range the rays are cast with")
    done = []
    for what, h, miss in (("free", fo[0], True), ("occupied", fo[1], False)):
        es = I.over(I.sets, h); done += es; N = size_of(I, es, h); old, val = update(n, miss)
        def elem(e, it, occ, k):
            cell = passed(I, e, 1, n); want = [elem_of(I, e, h, it, i) for i in range(n)]
            for i in range(n): P.equal("%s-%s-cell-%d-%s" % (key, what, k, AX[i]), r, leaf(cell[i]), leaf(want[i][1]), I.ctx, occ, what="the %s cell that is updated, along %s" % (what, AX[i]))
            gs = [x for x in I.gets if T("ret", x.term) in subterms(e.args[2])]
            P.require("%s-%s-reading-%d" % (key, what, k), r, len(gs) == 1 and gs[0].loops == e.loops and I.before(gs[0], e) and passed(I, gs[0], 1, n) == cell and not [x for x in I.sets if I.before(gs[0], x) and I.before(x, e)], "the value written does not come from one reading of the same cell just before")
            if len(gs) == 1: P.equal("%s-%s-value-%d" % (key, what, k), r, e.args[2], subst(val, {old: leaf(T("ret", gs[0].term))}, ("old", old.id, gs[0].term.id)), I.ctx, occ, what="the value written into a %s cell" % what)
        S.once_each(what, es, N, what="updating a %s cell" % what, elem=elem)
        for e in es: P.require("%s-%s-late-%d" % (key, what, es.index(e)), r, I.before(c, e), "cells are updated before the rays are cast")
    rest = [e for e in I.sets if e not in done]; P.require(key + "-no-other-write", r, not rest, "cells are written in %d other places" % len(rest))
    for x in ("nm", "origin", "cloud"): P.untouched(key, r, a, [x])
@prop("N03", HOW + "The map's operations, the casting of rays and the cloud's box are operations of their own here; of the latter, it is used that it contains every point of the cloud (G09). Rule: exactly one growth, in every case, before every reading or writing of a cell and before the rays are cast, to a box that contains the origin and an arbitrary point of the cloud's box on every axis, with the value default_cell_value returns.")
def n03(P):
    for n in DIMS: P.guarded("grow-%d" % n, "integ%d" % n, lambda: n03_dim(P, n))
def n03_dim(P, n):
    I = Integration(P, n); a, r, key = I.a, I.root, I.key; g = I.one(I.grow, "growing the map")
    if g is None: return
    for e in I.gets + I.sets + I.cast + I.adds: P.require("%s-first-%d" % (key, a.events.index(e)), r, I.before(g, e), "%s comes before the map has grown" % e.name)
    ctx = I.ctx; p = [T("point", i) for i in range(n)]; t = g.term.args
    for e in calls(a, PCB):
        if not e.loops and e.term.args[2].op == "&" and e.args[1] is leaf(mk_ptr(T("arg", "cloud"), ZERO)):
            for i in range(n): ctx.assume(T("sub", T("out", e.term, 0), 4 * i, 4), "<=", p[i]); ctx.assume(p[i], "<=", T("sub", T("out", e.term, 0), 4 * (n + i), 4))
    for i in range(n):
        lo, hi = unwrap_f(seen(t[2], 4 * i, 4)), unwrap_f(seen(t[2], 4 * (n + i), 4)); o = fpt("origin", i)
        for what, x in (("the sensor", o), ("an arbitrary point of the cloud", p[i])):
            w = what.split()[-1]
            P.holds("%s-low-%s-%s" % (key, w, AX[i]), r, fle(lo, x), ctx, what="the box the map grows to reaching down to %s along %s" % (what, AX[i])); P.holds("%s-high-%s-%s" % (key, w, AX[i]), r, fle(x, hi), ctx, what="the box the map grows to reaching up to %s along %s" % (what, AX[i]))
    d = P.use(analyse("defval%d" % n)); P.equal(key + "-default", r, g.args[2], as_float(d.result, 32), ctx, what="the value new cells get")
def unwrap_f(t): return as_float(unwrap(t), 32)
@prop("N04", HOW + "As in N02; that a query for the tracking flag has the same answer throughout is M06. Rule: when tracking, exactly one push per element of the free and of the occupied set onto lists that are handed to add_changed_cells exactly once, and none of anything else; when not tracking, nothing is handed over; the writes do not depend on the flag (N02).")
def n04(P):
    for n in DIMS: P.guarded("log-%d" % n, "integ%d" % n, lambda: n04_dim(P, n))
def n04_dim(P, n):
    I = Integration(P, n); a, r, key, S = I.a, I.root, I.key, I.S; fo = I.result_sets()
    if fo is None: return
    push = named(a, "list-push"); hs = set(); when = {}
    for e in I.adds:
        t = e.term.args[2]
        P.require("%s-add-top-%d" % (key, I.adds.index(e)), r, not e.loops and t.op == "&", "cells are handed to the log inside a loop")
        if t.op != "&": continue
        h = t_extract(t.args[0], 8, 8); P.require("%s-add-list-%d" % (key, I.adds.index(e)), r, h.op == "list" and h not in hs, "what is handed to the log is %s" % show(h, 4)); hs.add(h)
        mine = [x for x in push if plain(x.args[0]) is h]
        P.require("%s-add-late-%d" % (key, I.adds.index(e)), r, all(I.before(x, e) for x in mine), "cells are put on the list after it has been handed to the log")
        when[h] = S.v(e.guard)
    P.require(key + "-adds", r, bool(I.adds), "nothing is ever handed to the log")
    push = [x for x in push if plain(x.args[0]) in hs]; done = []
    for what, h in (("free", fo[0]), ("occupied", fo[1])):
        es = I.over(push, h); done += es; N = size_of(I, es, h)
        def elem(e, it, occ, k):
            for i in range(n): P.equal("%s-%s-cell-%d-%s" % (key, what, k, AX[i]), r, as_int(e.args[1 + i]), leaf(elem_of(I, e, h, it, i)[1]), I.ctx, occ, what="the %s cell that is logged, along %s" % (what, AX[i]))
        S.once_each(what, es, N, cond=I.on, what="logging a %s cell" % what, elem=elem, when=lambda e: when[plain(e.args[0])])
    rest = [e for e in push if e not in done]; P.require(key + "-nothing-else", r, not rest, "something else is logged in %d places" % len(rest))
    # the writes are the same either way
    for what, h in (("free", fo[0]), ("occupied", fo[1])): S.once_each("write-" + what, I.over(I.sets, h), size_of(I, I.sets, h), what="updating a %s cell, tracking or not" % what)

# ------------------------------------------------------------------ the clouds themselves
@prop("G09", HOW + "Rule, for the value a loop carries for each side of the box: the value after an iteration is never above (for the smallest coordinate; below for the largest) the value before and the coordinate of the point of that iteration, is one of these or the origin's, and is so at the first iteration; the loop passes over every column of the cloud exactly once; what is returned is the carried value after the last one, and the origin's for an empty cloud.")
def g09(P):
    for n in DIMS: P.guarded("cloud-box-%d" % n, "pc_bounds%d" % n, lambda: cloud_box(P, n))
def cloud_box(P, n):
    root = "pc_bounds%d" % n; a = P.use(analyse(root)); ctx = Ctx(); key = "box-%d" % n
    cl = Cloud(n, "pc"); S = Sweep(P, key, root, a, ctx); N = S.nonneg(cl.count, 4 * n); some = ilt(D0, leaf(N))
    for L in a.loops: S.monotone(L)
    P.holds(key + "-returns", root, a.guard, ctx, what="computing the box of a cloud returns normally"); P.untouched(key, root, a, ["pc"])
    for side in range(2):
        below = fle if side == 0 else (lambda x, y: fle(y, x)); S.m = {}
        for i in range(n):
            k = "%s-%s-%s" % (key, ("min", "max")[side], AX[i]); R = as_float(out(a, "out", 4 * (n * side + i), 4), 32)
            P.equal(k + "-empty", root, R, leaf(FZERO), ctx, dand(a.guard, dnot(some)))
            mus = carried(R, a)
            P.require(k + "-carried", root, len({m.args[0] for m in mus}) == 1, "the box is computed from %s" % show(R, 5))
            if len({m.args[0] for m in mus}) != 1: continue
            ln = mus[0].args[0]; L = S.by[ln]; V = LoopVars(L, lambda d: as_float(d, 32)); it = S.it(ln)
            P.require(k + "-loop", root, not L.parent, "the box is computed by nested loops")
            vis, rch = S.range(ln, N, D1); p = leaf(cl.coord(it, i))
            def step(x, v, what, g):
                for w, o in (("before", x), ("point", p)): P.holds("%s-%s-%s" % (k, what, w), root, below(v, o), ctx, g, what="the box covers %s" % ("the points before" if w == "before" else "the point of an iteration"))
                P.holds("%s-%s-tight" % (k, what), root, dor(feq(v, x), dor(feq(v, p), feq(v, FZERO))), ctx, g, what="a side of the box is a coordinate of a point or the origin")
            todo = list(mus); closed = set()
            while todo:         # the carried values R is made of, and those their next values are made of, hold the same
                x = todo.pop()
                if x in closed: continue
                closed.add(x); ini, nxt = V.vars[x]
                P.holds("%s-%d-first" % (k, len(closed)), root, dor(feq(ini, FZERO), feq(ini, leaf(cl.coord(ZERO, i)))), ctx, some, what="a side of the box starts at the origin or at the first point")
                others = [m for m in carried(nxt, a) if m is not x]
                P.require("%s-%d-own" % (k, len(closed)), root, not others, "the next value of a side of the box depends on %s" % [show(m) for m in others])
                step(leaf(x), nxt, "%d" % len(closed), vis)
            P.require(k + "-one", root, len(closed) == 1, "a side of the box is made of several values")
            x = leaf(mus[0]); here = dand(a.guard, some)
            if vis is rch or rch is None: step(x, R, "result", dand(here, dand(ilt(leaf(it), leaf(N)), dnot(ilt(iadd(leaf(it), leaf(ONE)), leaf(N))))))
            else: P.equal(k + "-result", root, R, x, ctx, here)
def carried(d, a):
    return sorted({t for l in leaves(d) for t in subterms(l) if t.op == "mu"}, key=lambda t: t.id)

def over_by(S, n, N, outer=D1):
    """The facts about a pass over 0..N that is finished: the loop's counter stands at its last value."""
    x = leaf(S.it(n)); vis, rch = S.range(n, N, outer)
    last = dand(ilt(x, leaf(N)), dnot(ilt(iadd(x, leaf(ONE)), leaf(N)))) if vis is rch else ieq(x, leaf(N))
    return dor(dnot(ilt(D0, leaf(N))), last)
def finished(S, a, N): return all_([over_by(S, L.n, N) for L in a.loops if not L.parent])
class Filling:
    """Which values a list of numbers is filled with: element w * k + i shall be value(k, i) for k in 0..N."""
    def __init__(self, P, key, root, a, S, N, w, value, read=None): self.P, self.key, self.root, self.a, self.S, self.N, self.w, self.value, self.read = P, key, root, a, S, N, w, value, read or (lambda d, k: d)
    def check(self, h, before=None, d=0):
        """Checks the contents of list h; returns what holds when it has been filled."""
        P, key, root, a, S, w = self.P, self.key + ("-%d" % d if d else ""), self.root, self.a, self.S, self.w
        P.require(key + "-buffer", root, h.op == "list", "the values stored are %s" % show(h, 5))
        push = [e for e in named(a, "list-push") if plain(e.args[0]) is h]; data = T("ld", h); st = []
        for e in a.events:
            if e.kind == "store" and e.args[0].var is None and e.args[0].term.op == "ptr" and ptr_parts(e.args[0].term)[0] is data: st.append(e)
        P.require(key + "-early", root, before is None or all(a.events.index(e) < before for e in push + st), "values are stored in the list after it has been used")
        P.require(key + "-once", root, not (push and st), "the list is filled in more than one way")
        if len(push) == 1 and w > 1 and push[0].loops and len(push[0].args) < 3 or len(push) == 1 and push[0].args[2:] == [leaf(INT(4))]:      # a copy of another list
            e = push[0]; v = e.args[1]; src = sorted({t.args[0].args[0] for l in leaves(v) for t in subterms(l) if t.op == "ldx" and t.args[0].op == "init" and t.args[0].args[0].op == "ld"}, key=lambda t: t.id)
            P.require(key + "-copied", root, len(src) == 1, "one value is stored for a point, and it is not an element of another list: " + show(v, 5))
            if len(src) != 1: return D0
            first = min(a.events.index(x) for x in a.events if x.loops == e.loops)
            g = self.check(src[0].args[0], first, d + 1); M = lin_scale(self.N, w); vis, _ = S.nest(e, [M], g)
            P.holds(key + "-all", root, e.guard, S.ctx, vis, what="copying every element of a list"); P.equal(key + "-same", root, v, leaf(T("ldx", T("init", src[0]), lin_scale(S.it(e.loops[0]), 4), 4)), S.ctx, vis, what="the element copied")
            x = leaf(S.it(e.loops[0])); vis2, rch = S.range(e.loops[0], M, g)
            return dand(g, dor(dnot(ilt(D0, leaf(self.N))), dand(ilt(x, leaf(M)), dnot(ilt(iadd(x, leaf(ONE)), leaf(M)))) if vis2 is rch else ieq(x, leaf(M))))
        es = push or st; P.require(key + "-stores", root, len(es) == w and len({e.loops for e in es}) == 1, "%d values are stored in an iteration where %d are required" % (len(es), w))
        if len(es) != w or len({e.loops for e in es}) != 1 or not es[0].loops: return D0
        it = S.it(es[0].loops[0])
        if st:
            where = {i: [e for e in st if e.args[0].term is mk_ptr(data, lin_add(lin_scale(it, 4 * w), INT(4 * i)))] for i in range(w)}; P.require(key + "-places", root, all(len(x) == 1 for x in where.values()), "values are stored at %s" % [show(e.args[0], 5) for e in st])
            if any(len(x) != 1 for x in where.values()): return D0
            es = [where[i][0] for i in range(w)]
        for i, e in enumerate(es):
            v, g = self.through(as_float(e.args[1], 32), min(a.events.index(x) for x in a.events if x.loops == e.loops), it, d)
            vis = S.once("value-%d-%d" % (d, i), e, [self.N], outer=g, what="storing value %d" % i)
            P.equal("%s-is-%d" % (key, i), root, self.read(v, it), D_(self.value(it, i)), S.ctx, vis, what="value %d stored in an iteration" % i)
        return dand(g, over_by(S, es[0].loops[0], self.N, g))
    def through(self, v, before, at, d):
        """A value made of elements of lists that were filled earlier, one element (or a few) per point, in terms of what was put into them; and what holds when they have been filled."""
        P, root, a, S = self.P, self.root, self.a, self.S; facts = D1; seen = set()
        while True:
            rs = sorted({t for l in leaves(v) for t in subterms(l) if t.op == "ldx" and t.args[0].op == "init" and t.args[0].args[0].op == "ld" and t.args[0].args[0].args[0].op == "list"}, key=lambda t: t.id)
            if not rs: return v, facts
            h = rs[0].args[0].args[0].args[0]; key = "%s-list-%d" % (self.key, len(seen)); push = [e for e in named(a, "list-push") if plain(e.args[0]) is h]
            ok = h not in seen and bool(push) and len({e.loops for e in push}) == 1 and len(push[0].loops) == 1 and all(a.events.index(e) < before for e in push)
            P.require(key, root, ok, "what is stored for a point is not an element of a list with the values of the points before: " + show(v, 5))
            if not ok: raise Unproved("elements of a list that is not filled point by point")
            seen.add(h); sizes = [e.args[2].term.args[0] if len(e.args) > 2 else 4 for e in push]; w = sum(sizes); it = S.it(push[0].loops[0]); m = {}
            for k, e in enumerate(push): vis = S.once("list-%d-%d" % (len(seen), k), e, [self.N], outer=facts, what="filling a list")
            facts = dand(facts, over_by(S, push[0].loops[0], self.N, facts))
            for t in [t for t in rs if t.args[0].args[0].args[0] is h]:
                for k, e in enumerate(push):
                    o = sum(sizes[:k])
                    for r in range(0, sizes[k], 4):
                        if t.args[1] is lin_add(lin_scale(at, w), INT(o + r)) and t.args[2] == 4:
                            x = apply("piece-%d" % r, lambda t: D_(unwrap(t_extract(t, r, 4))), e.args[1]) if sizes[k] > 4 else D_(e.args[1])
                            m[t] = subst(as_float(x, 32), {it: leaf(at)}, ("elem", it.id, at.id))
                P.require(key + "-index", root, t in m, "an element of the list that is not the point's own is stored: " + show(t, 5))
                if t not in m: raise Unproved("an element of a list that is not the point's own")
            v = subst(v, m, ("list", tuple(sorted((t.id, x.id) for t, x in m.items()))))
@prop("G10", HOW + "Lists of numbers are used through the contract of push, and nalgebra's collecting of an iterator into a matrix is analysed with push in place of collect (same items, same order). Rule: from_points passes exactly once over the slice and in each iteration pushes, unconditionally and in this order, the coordinates of that point, and nothing else, onto an empty list that becomes the columns of the result, whose number of columns is the number of points; from_data and clone hand over (a copy of) the matrix; points_iter passes exactly once over the columns and yields in each iteration one point with the coordinates of that column; num_points is the number of columns.")
def g10(P):
    for n in DIMS:
        P.guarded("from-points-%d" % n, "pc_fp%d" % n, lambda: from_points(P, n)); P.guarded("iter-%d" % n, "pc_iter%d" % n, lambda: cloud_iter(P, n))
        P.guarded("num-%d" % n, "pc_num%d" % n, lambda: cloud_num(P, n)); P.guarded("from-data-%d" % n, "pc_fd%d" % n, lambda: cloud_moved(P, n))
def from_points(P, n):
    root = "pc_fp%d" % n; key = "from-points-%d" % n; a = P.use(modular(root, NUMLIB, MM.OBJLIB, rewrite=lists.collect)); ctx = Ctx(); S = Sweep(P, key, root, a, ctx)
    src, cnt = arg_slice(a, "points"); N = S.nonneg(cnt, 4 * n); po, co = cloud_fields(n)
    end = Filling(P, key, root, a, S, N, n, lambda k, i: T("ldx", T("init", src), lin_add(lin_scale(k, 4 * n), INT(4 * i)), 4)).check(plain(outi(a, "_0", po)))
    P.require(key + "-filled", root, end is not D0, "the points are not stored in order"); P.holds(key + "-returns", root, a.guard, ctx, end, what="storing the points returns normally")
    for e in panics(a):
        g = end
        if e.loops: g, _ = S.nest(e, [N] * len(e.loops))
        P.holds("%s-panic-%d" % (key, panics(a).index(e)), root, dnot(e.guard), ctx, g, what="storing the points never panics")
    P.equal(key + "-columns", root, outi(a, "_0", co), leaf(N), ctx, end, what="the number of columns"); P.equal(key + "-length", root, outi(a, "_0", po + 8), imul(leaf(N), leaf(INT(n))), ctx, end, what="the number of values")
    P.require(key + "-nothing-else", root, not calls(a), "something else is called: " + "; ".join(e.name for e in calls(a))[:300])
def arg_slice(a, x):
    """Pointer and length of a slice argument, as terms."""
    xs = [T("arg", v) for v in a.inputs if v.startswith(x)]
    if len(xs) != 2: raise Unproved("the argument %s is not a slice" % x)
    INT_ATOMS.add(xs[1]); return xs
def cloud_iter(P, n):
    root = "pc_iter%d" % n; key = "iter-%d" % n; a = P.use(modular(root, NUMLIB)); ctx = Ctx(); S = Sweep(P, key, root, a, ctx); cl = Cloud(n, "pc"); N = S.nonneg(cl.count, 4 * n); end = finished(S, a, N)
    P.holds(key + "-returns", root, a.guard, ctx, end, what="iterating returns normally")
    for e in panics(a): P.holds("%s-panic-%d" % (key, panics(a).index(e)), root, dnot(dand(S.nest(e, [N] * len(e.loops))[0] if e.loops else end, e.guard)), ctx, what="iterating never panics")
    cs = calls(a, "^sink%d$" % n); P.require(key + "-one", root, len(cs) == 1 and len(calls(a)) == 1, "points are yielded in %d places, or something else is called" % len(cs))
    for e in cs:
        vis = S.once("each", e, [N], what="yielding a point")
        for i in range(n): P.equal("%s-value-%s" % (key, AX[i]), root, leaf(seen(e.term.args[1], 4 * i, 4)), leaf(cl.coord(S.it(e.loops[0]), i)), ctx, vis, what="coordinate %s of the point yielded" % AX[i])
    P.untouched(key, root, a, ["pc"])
def cloud_num(P, n):
    root = "pc_num%d" % n; key = "num-%d" % n; a = P.use(analyse(root)); ctx = Ctx()
    P.equal(key, root, as_int(a.result), leaf(Cloud(n, "pc").count), ctx, what="the number of points"); P.returns(key + "-returns", root, a, ctx); P.untouched(key, root, a, ["pc"])
def cloud_moved(P, n):
    root = "pc_fd%d" % n; key = "from-data-%d" % n; a = P.use(analyse(root)); ctx = Ctx(); P.returns(key + "-returns", root, a, ctx)
    for what, o in zip(("coordinates", "columns"), cloud_fields(n)): P.equal("%s-%s" % (key, what), root, outi(a, "_0", o), leaf(T("sub", T("init", T("arg", "data")), o, 8)), ctx, what="the %s of the cloud" % what)

@prop("G11", HOW + "nalgebra's insertion and removal of a row and its product of matrices are used through their contracts; lists of numbers as in G10. Rule: the matrix that becomes the cloud has as many columns as the cloud and in an arbitrary column the three values sum over l of M[i][l] * (x, y, z, 1)[l], compared in exact arithmetic; the cloud given is not written to.")
def g11(P): P.guarded("transform", "pc_transform", lambda: transformed(P))
def transformed(P):
    n = 3; root = "pc_transform"; key = "transform"; a = P.use(modular(root, MATLIB, NUMLIB, MM.OBJLIB, rewrite=lists.collect)); ctx = Ctx(); S = Sweep(P, key, root, a, ctx)
    cl = Cloud(n, "cloud"); N = S.nonneg(cl.count, 4 * n); po, co = cloud_fields(n); buf = plain(outi(a, "_0", po))
    m = lambda i, l: leaf(T("sub", T("init", T("arg", "transform")), 4 * (4 * l + i), 4))
    def want(k, i):
        s = m(i, 3)
        for l in range(3): s = fadd(s, fmul(m(i, l), leaf(cl.coord(k, l))))
        return s
    end = D1
    if buf.op == "mat":
        P.require(key + "-rows", root, len(buf.args) == n, "the result has %d rows" % len(buf.args))
        for i in range(n): P.equal("%s-value-%s" % (key, AX[i]), root, unwrap(buf.args[i]), want(MM.COL, i), ctx, a.guard, what="coordinate %s of a transformed point" % AX[i])
    else: end = Filling(P, key, root, a, S, N, n, want, lambda d, k: MM.mat_values(d, k)).check(buf)
    P.require(key + "-filled", root, end is not D0, "the transformed points are not stored in order"); P.holds(key + "-returns", root, a.guard, ctx, end, what="transforming a cloud returns normally")
    for e in panics(a): P.holds("%s-panic-%d" % (key, panics(a).index(e)), root, dnot(e.guard), ctx, S.nest(e, [N] * len(e.loops))[0] if e.loops else end, what="transforming a cloud never panics")
    P.equal(key + "-columns", root, outi(a, "_0", co), leaf(N), ctx, end, what="the number of columns"); P.untouched(key, root, a, ["cloud", "transform"])
    P.require(key + "-nothing-else", root, not calls(a), "something else is called: " + "; ".join(e.name for e in calls(a))[:300])
