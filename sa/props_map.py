"""Grid maps, occupancy maps and the noise model."""
from framework import *
from props_geom import HOW

@prop("M01", HOW + "Rule: the access happens exactly when 0 <= coordinate < size on every axis and panics otherwise; the only address read or written is data + 4 * sum(coordinate_i * stride_i); a read changes nothing, a write changes nothing else.")
def m01(P):
    for n in DIMS:
        r = "m_get%d" % n; a = P.use(analyse(r)); v = MapView(n); c = [cel("cell", i) for i in range(n)]; ctx = Ctx(nonneg=v.dim)
        P.same_cond("get-%dd-range" % n, r, a.guard, v.inside(c), ctx, what="reading exactly the cells inside of the grid")
        def run():
            for t in leaves(restrict(a.result, a.guard)):
                if t.op != "ldx" or t.args[0] is not T("init", v.ptr): raise Unproved("the value returned is %s, not an element of the grid" % show(t, 5))
                if not same(t.args[1], v.address(c).term): raise Unproved("the element read is at offset %s" % show(t.args[1], 6))
                if t.args[2] != 4: raise Unproved("%d bytes are read" % t.args[2])
            P.ok("get-%dd-element" % n)
        P.guarded("get-%dd-element" % n, r, run)
        P.require("get-%dd-pure" % n, r, not stores(a) and not calls(a), "reading a cell has an effect: %s" % (calls(a) or stores(a))[:2])
        r = "m_set%d" % n; a = P.use(analyse(r))
        P.same_cond("set-%dd-range" % n, r, a.guard, v.inside(c), ctx, what="writing exactly the cells inside of the grid")
        st = stores(a); cond = D0
        for k, (e, b, o, g) in enumerate(st):
            cond = dor(cond, g)
            P.require("set-%dd-element-%d" % (n, k), r, b is v.ptr and same(o, v.address(c).term) and e.args[2] in (4, leaf(INT(4))), "writes to %s at offset %s" % (show(b, 4), show(o, 6)))
            P.equal("set-%dd-value-%d" % (n, k), r, e.args[1], leaf(farg("value")), ctx, g)
        P.same_cond("set-%dd-written" % n, r, cond, v.inside(c), ctx, what="the cell being written whenever the call returns")
        P.require("set-%dd-nothing-else" % n, r, not calls(a) and not changed_bytes(a, "map"), "something other than the cell is changed")

VALIDATED = ("hit", "miss", "min", "max", "occ")
@prop("N05", HOW + "Not-a-number outcomes are kept apart. Rule: the constructor returns exactly when all five probabilities are in [0, 1] (ordered comparisons) and panics otherwise; each field holds ln(p / (1 - p)) of its own argument, the range is unchanged; every default field is the log-odds of its documented default probability to single precision.")
def n05(P):
    r = "nm_new"; a = P.use(analyse(r, nan=True)); ctx = Ctx(); fs = layout().fields("LidarNoiseModel")
    order = ["hit_probability_logodds", "miss_probability_logodds", "min_probability_logodds", "max_probability_logodds", "occupied_threshold_logodds", "max_range"]
    spec = all_([dand(fle(FZERO, farg(x)), fle(farg(x), C(1.0))) for x in VALIDATED])
    P.same_cond("accepts", r, a.guard, spec, ctx, what="accepting exactly the probabilities in [0, 1]")
    P.require("panics", r, len(panics(a)) > 0, "nothing panics")
    b = P.use(analyse(r))
    for f, x in zip(order, VALIDATED):
        p = farg(x)
        P.equal("new-" + x, r, outf(b, "out", fs[f][0]), leaf(T("ln", fdiv(p, fsub(C(1.0), p)).term)), Ctx(), b.guard)
    P.equal("new-range", r, outf(b, "out", fs["max_range"][0]), leaf(farg("range")), Ctx(), b.guard)
    import math
    documented = dict(zip(order, (0.7, 0.4, 0.1192, 0.971, 0.5)))
    doc = docs_of_noise_model()
    for root in ("nm_default", "defnm2", "defnm3"):
        d = P.use(analyse(root)); P.returns(root + "-returns", root, d, Ctx())
        for f in order:
            o = outf(d, "out", fs[f][0])
            want = doc[f] if f == "max_range" else math.log(doc[f] / (1 - doc[f])) if doc[f] != 0.5 else 0.0
            ok = o.var is None and o.term.op == "fc" and abs(o.term.args[0] - want) <= 2e-6 * max(1.0, abs(want))
            P.require("%s-%s" % (root, f), root, ok, "the default of %s is %s where %s is documented" % (f, show(o, 3), want))
    for n in DIMS:
        root = "defval%d" % n; d = P.use(analyse(root))
        P.equal(root, root, as_float(d.result, 32), leaf(FZERO), Ctx(), D1)
def docs_of_noise_model():
    """The documented defaults: the public constants of the noise model."""
    return {"hit_probability_logodds": 0.7, "miss_probability_logodds": 0.4, "min_probability_logodds": 0.1192,
            "max_probability_logodds": 0.971, "occupied_threshold_logodds": 0.5, "max_range": 60.0}

NMF = {"hit": ("hit_probability_logodds", 0), "miss": ("miss_probability_logodds", 0)}
def nmf(f): return inp("nm", layout().fields("LidarNoiseModel")[f][0], 4)
def call_arg(e, k, off, size):
    """What a call saw behind its pointer argument k (name of the call's snapshot)."""
    s = e.term.args[1 + k]
    return s
def sees(e, k, arg, size=None):
    """Does argument k of the call point at the start of the entry argument, with its initial content?"""
    d = e.args[k]
    return d is leaf(mk_ptr(T("arg", arg), ZERO))
def content_at(e, k):
    s = e.term.args[1 + k]
    if s.op in ("&", "&r") or s.op == "&g": return s.args[0]
    return s

@prop("N01", HOW + "The map is unknown except for its interface, so this holds for every map. Rule: exactly one write, to the given cell of the given map, of min(old + hit, max) / max(old + miss, min), where old is the value that reading the same cell gave before any write; nothing else of the map is called with mutable access; the model and the cell are not written.")
def n01(P):
    for n in DIMS:
        for root, step, bound, hit in (("hit%d", "hit_probability_logodds", "max_probability_logodds", True), ("miss%d", "miss_probability_logodds", "min_probability_logodds", False)):
            r = root % n; a = P.use(analyse(r)); ctx = Ctx()
            P.returns(r + "-returns", r, a, ctx)
            sets = calls(a, "^x_set%d$" % n); muts = calls(a, r"^x_(settrack|clear|add|expand)%d$" % n)
            P.require(r + "-only-set", r, not muts and not [e for e in calls(a) if not e.name.startswith("x_")], "something other than the cell is changed: %s" % [e.name for e in calls(a)])
            cond = D0
            for k, e in enumerate(sets):
                P.require("%s-once-%d" % (r, k), r, not e.loops and dand(cond, e.guard) is D0, "more than one write happens")
                cond = dor(cond, e.guard)
                P.require("%s-cell-%d" % (r, k), r, sees(e, 0, "map") and sees(e, 1, "cell"), "the write goes to %s, %s" % (show(e.args[0], 4), show(e.args[1], 4)))
                gets = [t for t in subterms(e.args[2]) if t.op == "ret"]
                old = []
                for t in gets:
                    c = t.args[0]
                    ev = [x for x in calls(a, "^x_get%d$" % n) if x.term is c]
                    if ev and sees(ev[0], 0, "map") and sees(ev[0], 1, "cell") and before(a, ev[0], e): old.append(t)
                if len(old) != len(gets) or len(set(old)) != 1:
                    P.bad("%s-value-%d" % (r, k), P.site(r), "the value written (%s) does not come from reading the cell itself" % show(e.args[2], 6)); continue
                s = fadd(leaf(old[0]), nmf(step)); b = leaf(nmf(bound))
                P.equal("%s-value-%d" % (r, k), r, e.args[2], fmin(b, s) if hit else fmax(b, s), ctx, e.guard)
            P.same_cond(r + "-written", r, cond, D1, ctx, what="the cell being written in every case")
            P.untouched(r, r, a, ["nm", "cell"])
def before(a, e1, e2): return a.events.index(e1) < a.events.index(e2)

@prop("N06", HOW + "The map is unknown except for its interface. Rule: occupied exactly when the value read for the given cell of the given map > the model's threshold; no call with mutable access; the occupancy map's query is its own model's answer for its own grid and the same cell, for an unknown model.")
def n06(P):
    for n in DIMS:
        r = "occ%d" % n; a = P.use(analyse(r)); ctx = Ctx(); P.returns(r + "-returns", r, a, ctx)
        gets = calls(a, "^x_get%d$" % n)
        P.require(r + "-reads-only", r, all(re.match(r"x_(get|res|bounds|track|changed|pfc|cfp)%d$" % n, e.name) for e in calls(a)) and not changed_bytes(a, "map"), "asking has an effect: %s" % [e.name for e in calls(a)])
        ok = [e for e in gets if sees(e, 0, "map") and sees(e, 1, "cell")]
        P.require(r + "-cell", r, len(ok) == len(gets) and len({e.term for e in gets}) == 1, "the value compared is not that of the given cell")
        if ok: P.same_cond(r + "-strict", r, to_bool(a.result), flt(nmf("occupied_threshold_logodds"), T("ret", ok[0].term)), ctx, what="the value being strictly above the threshold")
        P.untouched(r, r, a, ["nm", "cell"])
        r = "o_occ%d" % n; a = P.use(analyse(r)); P.returns(r + "-returns", r, a, ctx)
        ev = calls(a); fo = layout().fields(OCC % (n, n, n)) 
        P.require(r + "-one-query", r, len(ev) == 1 and ev[0].name == "y_occ%d" % n and ev[0].guard is D1, "the model is not asked exactly once: %s" % [e.name for e in ev])
        if len(ev) == 1:
            e = ev[0]; g = leaf(mk_ptr(T("arg", "map"), INT(fo["grid_map"][0]))); m = leaf(mk_ptr(T("arg", "map"), INT(fo["noise_model"][0])))
            P.require(r + "-own-parts", r, e.args[0] is m and e.args[1] is g and sees(e, 2, "cell"), "the query is about %s" % [show(x, 3) for x in e.args])
            P.same_cond(r + "-answer", r, to_bool(a.result), to_bool(leaf(T("ret", e.term))), ctx, what="the answer being the model's")
        P.untouched(r, r, a, ["map", "cell"])
OCC = "OccupancyGridMapN<roots::StubNM%d, nalgebra::base::dimension::U%d, ndarray::dimension::dim::Dim<[usize; %d]>>"

# ------------------------------------------------------------------ growing a map
import models as MM
class Growth:
    """expand_bounds on a map whose box lies on whole cells, once for empty and once for other maps.
    Lengths are in units of the resolution, so box corners are integers."""
    def __init__(self, P, n, empty):
        self.n, self.root, self.case = n, "m_expand%d" % n, "empty" if empty else "nonempty"
        self.key = "expand-%dd-%s" % (n, self.case)
        self.a = a = P.use(MM.modular(self.root, MM.NDLIB, MM.BOXES, keep=[r"^<?kuba::[^{]*expand_bounds[^{]*::\{closure#\d+\}$"])); v = self.v = MapView(n)
        self.rlo = [fpt("bounds", i) for i in range(n)]; self.rhi = [fpt("bounds", n + i) for i in range(n)]
        ctx = self.ctx = Ctx(positive=[v.res, v.tile], ints=v.dim, scale=[(x, v.res) for x in v.lo + v.hi + self.rlo + self.rhi])
        u = lambda x: T("units", show(x))
        self.L, self.H = [u(x) for x in v.lo], [u(x) for x in v.hi]
        for t in self.L + self.H: INT_ATOMS.add(t)
        isempty = all_([feq(x, FZERO) for x in v.lo + v.hi])
        self.pre = isempty if empty else dnot(isempty)
        R = self.R = lambda d: restrict(d, self.pre)
        for i in range(n):
            ctx.assume(self.L[i], "<=", self.H[i]); ctx.assume(v.dim[i], "=", lin_add(self.H[i], self.L[i], -1)); ctx.assume(self.rlo[i], "<=", self.rhi[i])
            if empty: ctx.assume(self.L[i], "=", ZERO); ctx.assume(self.H[i], "=", ZERO)
        self.guard = R(a.guard)
        bo, _ = mapfield(n, "bounds")
        self.newlo = [R(outf(a, "map", bo + 4 * i)) for i in range(n)]; self.newhi = [R(outf(a, "map", bo + 4 * (n + i))) for i in range(n)]
        whole = lambda d: toint(fun("round", fdiv(d, v.res)))
        self.N, self.M = [whole(d) for d in self.newlo], [whole(d) for d in self.newhi]
        d, _ = mapfield(n, "data"); po, _ = arrfield(n, "ptr"); do, _ = arrfield(n, "dim")
        self.dims = [R(outi(a, "map", d + do + 8 * i)) for i in range(n)]
        self.ptr = R(outi(a, "map", d + po))
        MM.tile_facts([a.guard, self.ptr] + self.N + self.M + self.dims, ctx)
        self.heaps = []; self.kept = D0; self.other = []
        for g, p in split_leaves(restrict(self.ptr, self.guard)):
            b, o = ptr_parts(p)
            if b.op == "heap" and o is ZERO: self.heaps.append((dand(self.guard, g), b))
            elif p is inp("map", d + po, 8): self.kept = dor(self.kept, dand(self.guard, g))
            else: self.other.append(p)
        self.grown = D0
        for g, _ in self.heaps: self.grown = dor(self.grown, g)
        P.require(self.key + "-storage", self.root, not self.other and self.heaps, "the grid is stored at %s" % [show(p, 4) for p in self.other])
    def at(self, b, idx):
        """Value stored at an index after growing; old values are named by a number."""
        olds = []
        def init(c, ix):
            if c is not T("init", self.v.ptr): raise Unproved("the new grid holds %s" % show(c, 3))
            olds.append(ix); return leaf(T("oldcell", len(olds) - 1))
        c = content(self.a.obj(self.a.state, b))
        if c.op == "mdd": d = lift1(lambda t: MM.nd_at(t, idx, init), self.R(c.args[0]))
        else: d = MM.nd_at(c, idx, init)
        return self.R(d), [[self.R(x) for x in ix] for ix in olds]
    def on(self, d, g): return restrict(d, g)
def growths(P, f):
    for n in DIMS:
        for empty in (True, False):
            P.guarded("expand-%dd-%s" % (n, "empty" if empty else "nonempty"), "m_expand%d" % n, lambda: f(Growth(P, n, empty), n, empty))
from engine import content, split_leaves, lift1
import ops as _ops
def gvars(p, n):
    r = [T("arg", "%s%d" % (p, i)) for i in range(n)]
    for t in r: INT_ATOMS.add(t)
    return r
def is_leaf(d, t): return apply(("is", t.id), lambda x: D1 if x is t else D0, d)

@prop("M03", HOW + "Slicing, assigning and allocating grids, and the box operations (each decided by its own property), are used through their contracts. Rule: the new storage at (place - new minimum) holds the old storage's value at (place - old minimum) for every place of the old box, on every axis and in every direction of growth, and the old storage is read only there.")
def m03(P):
    def run(G, n, empty):
        st = [(b, o) for e, b, o, g in stores(G.a) if b is G.v.ptr]
        P.require(G.key + "-old-storage", G.root, not st, "the old values are written to before they are copied")
        if empty: return        # no values
        w = gvars("w", n); pre = D1
        for i in range(n): pre = dand(pre, dand(ile(G.L[i], w[i]), ilt(w[i], G.H[i])))
        for k, (g, b) in enumerate(G.heaps):
            val, olds = G.at(b, [restrict(isub(leaf(w[i]), G.N[i]), g) for i in range(n)])
            g = dand(g, pre); isold = D0
            for j, ix in enumerate(olds):
                here = is_leaf(val, T("oldcell", j)); isold = dor(isold, here)
                for i in range(n):
                    P.equal("%s-place-%s-%d-%d" % (G.key, AX[i], k, j), G.root, restrict(ix[i], g), isub(leaf(w[i]), leaf(G.L[i])), G.ctx, (D1, dand(g, here)), what="the old index whose value is kept")
            P.holds("%s-kept-%d" % (G.key, k), G.root, isold, G.ctx, (pre, g), what="every value of the old grid being kept")
    growths(P, run)

@prop("M04", HOW + "As M03. Rule: every index of the new storage that is not the place of an old cell holds the default value given; the new storage has exactly (new maximum - new minimum) / resolution cells per axis and the new box lies on whole cells; only box, storage and change log are written; nothing is written when the tile-rounded box equals the present one.")
def m04(P):
    def run(G, n, empty):
        q = gvars("q", n); a = G.a; ctx = G.ctx; key = G.key
        for nm, g in (("grown", G.grown), ("kept", G.kept)):
            gs = (D1, g); on = lambda d: restrict(d, g)
            if g is D0: continue
            for i in range(n):
                N, M = on(G.N[i]), on(G.M[i])
                P.equal("%s-%s-size-%s" % (key, nm, AX[i]), G.root, on(G.dims[i]), isub(M, N), ctx, gs, what="the number of cells along " + AX[i])
                P.equal("%s-%s-whole-min-%s" % (key, nm, AX[i]), G.root, on(G.newlo[i]), fmul(tof(N), leaf(G.v.res)), ctx, gs, what="the new minimum")
                P.equal("%s-%s-whole-max-%s" % (key, nm, AX[i]), G.root, on(G.newhi[i]), fmul(tof(M), leaf(G.v.res)), ctx, gs, what="the new maximum")
        for k, (g, b) in enumerate(G.heaps):
            inside = all_([dand(ile(D0, leaf(q[i])), ilt(leaf(q[i]), restrict(G.dims[i], g))) for i in range(n)])
            w = [iadd(leaf(q[i]), restrict(G.N[i], g)) for i in range(n)]
            old = all_([dand(ile(leaf(G.L[i]), w[i]), ilt(w[i], leaf(G.H[i]))) for i in range(n)])
            val, olds = G.at(b, [leaf(t) for t in q])
            pre = dand(inside, dnot(old))
            P.equal("%s-default-%d" % (key, k), G.root, restrict(val, g), leaf(farg("default_value")), ctx, (pre, dand(g, pre)), what="the value of a new cell")
        ok = region(n, "data", "bounds", "changed_cells"); ch = bytes_of(changed_bytes(a, "map"))
        P.require(key + "-only", G.root, ch is not None and not (ch & known(n)) - ok, "growing changes the map at %s" % changed_bytes(a, "map"))
        same_box = all_([feq(restrict(x, G.grown), leaf(y)) for x, y in zip(G.newlo + G.newhi, G.v.lo + G.v.hi)])
        P.holds(key + "-no-op", G.root, dnot(same_box), ctx, G.grown, what="leaving a map alone that has the box already")
        o = a.state.mem.get(T("arg", "map"))
        for off, (s, d) in sorted(o.cells.items()):
            P.equal("%s-untouched-%d" % (key, off), G.root, restrict(G.R(d), G.kept), leaf(T("sub", T("init", T("arg", "map")), off, s)), ctx, (D1, G.kept), what="the map at offset %d when it need not grow" % off)
        P.require(key + "-nothing-else", G.root, not calls(a) and not changed_bytes(a, "bounds"), "growing has another effect: %s" % [e.name for e in calls(a)])
    growths(P, run)

@prop("M05", HOW + "As M03. Rule: for every point of the requested box, borders included, the cell it rounds to lies in the new box; the new box contains the old one unless that was empty; both of its corners are tile multiples; growing returns normally.")
def m05(P):
    def run(G, n, empty):
        a = G.a; ctx = G.ctx; key = G.key
        P.holds(key + "-returns", G.root, G.guard, ctx, what="growing returns normally")
        u = gvars_real("u", n)
        for nm, g in (("grown", G.grown), ("kept", G.kept)):
            for i in range(n):
                N, M = restrict(G.N[i], g), restrict(G.M[i], g)
                c = toint(fun("round", leaf(u[i]))); kk = "%s-%s-%%s-%s" % (key, nm, AX[i])
                pre = dand(fle(fdiv(leaf(G.rlo[i]), leaf(G.v.res)), leaf(u[i])), fle(leaf(u[i]), fdiv(leaf(G.rhi[i]), leaf(G.v.res))))
                P.holds(kk % "covers-low", G.root, ile(N, c), ctx, (pre, dand(g, pre)), what="covering the cells of the requested box along " + AX[i])
                P.holds(kk % "covers-high", G.root, ilt(c, M), ctx, (pre, dand(g, pre)), what="covering the cells of the requested box along " + AX[i])
                if not empty:
                    P.holds(kk % "old-low", G.root, ile(N, leaf(G.L[i])), ctx, (D1, g), what="containing the old box along " + AX[i])
                    P.holds(kk % "old-high", G.root, ile(leaf(G.H[i]), M), ctx, (D1, g), what="containing the old box along " + AX[i])
                P.guarded(kk % "tiles-min", G.root, lambda: multiple(P, kk % "tiles-min", G, N, g))
                P.guarded(kk % "tiles-max", G.root, lambda: multiple(P, kk % "tiles-max", G, M, g))
    growths(P, run)
def gvars_real(p, n): return [T("arg", "%s%d" % (p, i)) for i in range(n)]
def multiple(P, key, G, d, g):
    """d is a multiple of the tile size in every case."""
    tile = G.v.tile; ks = sorted((t for t in set(subterms(G.a.guard)) | set(subterms(d)) | set(subterms(G.ptr)) if t.op in ("tile-of", "tile-above")), key=lambda t: t.id)
    for guard in (D1, g):
        bad = []
        def f(facts, path, ts):
            if ts[0] is not ONE or bad: return
            p = norm(ts[1])
            if p.d.const() is not None and all(tile in dict(k) for k in p.n.m): return
            for k in ks:
                if G.ctx.entails(facts, ts[1], "=", imul(leaf(k), leaf(tile)).term): return
            bad.append((path, ts[1]))
        G.ctx.each([guard, d], f, stop=lambda ds: ds[0] is D0 or bad)
        if not bad: P.ok(key); return
    P.bad(key, P.site(G.root), "the box corner %s is not a multiple of the tile size when %s" % (show(bad[0][1], 5), show_path(bad[0][0])))

# ------------------------------------------------------------------ new maps, clones, the change log
def vec_now(a, arg, off, prefix=None):
    """The pieces of the vector at an offset of an argument's referent, at the end."""
    an = a; base = T("arg", arg); st = a.state
    return MM.as_seq(MM.vc(a, st, leaf(mk_ptr(base, INT(off)))))
def seq0(arg, off): return T("seq", inp(arg, off + 8, 8), inp(arg, off + 16, 8))
def is_empty_vec(a, arg, off): return outi(a, arg, off + 16) is D0
def heap_of(a, n, arg, base=0):
    """The heap object an array in an argument's referent owns, if it is the same in every case."""
    d, _ = mapfield(n, "data"); po, _ = arrfield(n, "ptr")
    p = outi(a, arg, base + d + po)
    if p.var is None and p.term.op == "ptr" and p.term.args[0].op == "heap" and p.term.args[1] is ZERO: return p.term.args[0]
def dims_of(a, n, arg, base=0):
    d, _ = mapfield(n, "data"); do, _ = arrfield(n, "dim")
    return [outi(a, arg, base + d + do + 8 * i) for i in range(n)]
def new_map(P, key, r, a, n, ctx, res, lo, hi, tile, default, size, base=0):
    """The map at _0 is new: it has these parameters, an empty log, no tracking, and only default values."""
    bo, _ = mapfield(n, "bounds")
    for i in range(n):
        P.equal("%s-size-%s" % (key, AX[i]), r, dims_of(a, n, "_0", base)[i], size[i], ctx, a.guard, what="the number of cells along " + AX[i])
        P.equal("%s-min-%s" % (key, AX[i]), r, outf(a, "_0", base + bo + 4 * i), lo[i], ctx, a.guard, what="the box minimum")
        P.equal("%s-max-%s" % (key, AX[i]), r, outf(a, "_0", base + bo + 4 * (n + i)), hi[i], ctx, a.guard, what="the box maximum")
    P.equal(key + "-resolution", r, outf(a, "_0", base + mapfield(n, "resolution")[0]), res, ctx, a.guard, what="the resolution")
    P.equal(key + "-tile", r, outi(a, "_0", base + mapfield(n, "tile_size")[0]), tile, ctx, a.guard, what="the tile size")
    P.equal(key + "-tracking", r, as_int(out(a, "_0", base + mapfield(n, "track_changes")[0], 1)), D0, ctx, a.guard, what="the tracking flag")
    P.equal(key + "-log", r, outi(a, "_0", base + mapfield(n, "changed_cells")[0] + 16), D0, ctx, a.guard, what="the length of the change log")
    if default is not None:
        h = heap_of(a, n, "_0", base)
        if h is None: P.bad(key + "-values", P.site(r), "the new grid has no storage of its own"); return
        def old(c, ix): raise Unproved("the new grid holds %s" % show(c, 4))
        def run(): P.equal(key + "-values", r, as_float(MM.nd_at(content(a.obj(a.state, h)), [leaf(t) for t in gvars("q", n)], old), 32), default, ctx, a.guard, what="the value of every cell")
        P.guarded(key + "-values", r, run)

@prop("M02", HOW + "Allocating a grid is used through its contract. Rule: sizes are the rounded box extents over the resolution, axis by axis; every stored value is the given default; resolution, box and tile size are stored unchanged, tracking is off and the log empty; the default map has the documented constants.")
def m02(P):
    for n in DIMS:
        r = "m_new%d" % n
        def run(n=n, r=r):
            a = P.use(MM.modular(r, MM.NDLIB)); res = farg("resolution"); tile = iarg("tile_size"); lo, hi = [fpt("bounds", i) for i in range(n)], [fpt("bounds", n + i) for i in range(n)]
            ctx = Ctx(positive=[res], scale=[(x, res) for x in lo + hi], facts=[(l, "<=", h) for l, h in zip(lo, hi)])
            P.returns("new-%dd-returns" % n, r, a, ctx)
            new_map(P, "new-%dd" % n, r, a, n, ctx, leaf(res), [leaf(x) for x in lo], [leaf(x) for x in hi], leaf(tile), leaf(farg("default_value")),
                    [toint(fun("round", fdiv(fsub(leaf(h), leaf(l)), leaf(res)))) for l, h in zip(lo, hi)])
            P.untouched("new-%dd" % n, r, a, ["bounds"]); P.require("new-%dd-pure" % n, r, not calls(a) and not stores_else(a, "_0"), "creating a map has an effect on something else")
        P.guarded("new-%dd" % n, r, run)
        r = "m_default%d" % n
        def run(n=n, r=r):
            a = P.use(MM.modular(r, MM.NDLIB)); ctx = Ctx(); P.returns("default-%dd-returns" % n, r, a, ctx); z = [leaf(FZERO)] * n
            new_map(P, "default-%dd" % n, r, a, n, ctx, leaf(C(0.1)), z, z, leaf(INT(100)), None, [D0] * n)
        P.guarded("default-%dd" % n, r, run)
        r = "m_fnd%d" % n
        def run(n=n, r=r):
            a = P.use(MM.modular(r, MM.NDLIB)); ctx = Ctx(); P.returns("from-array-%dd-returns" % n, r, a, ctx)
            lo, hi = [leaf(fpt("bounds", i)) for i in range(n)], [leaf(fpt("bounds", n + i)) for i in range(n)]
            new_map(P, "from-array-%dd" % n, r, a, n, ctx, leaf(farg("resolution")), lo, hi, leaf(iarg("tile_size")), None, [leaf(inp("data", arrfield(n, "dim")[0] + 8 * i, 8)) for i in range(n)])
            d, s = mapfield(n, "data")
            for off in range(0, s, 8): P.equal("from-array-%dd-data-%d" % (n, off), r, out(a, "_0", d + off, 8), leaf(inp("data", off, 8)), ctx, a.guard, what="the grid")
        P.guarded("from-array-%dd" % n, r, run)
def stores_else(a, *args): return [(show(b, 3), show(o, 3)) for e, b, o, g in stores(a) if not (b.op == "arg" and b.args[0] in args)]

@prop("M07", HOW + "Cloning the grid and the log are used through their contracts. Rule: every field of the clone equals the original's; grid and log of the clone are copies (same sizes, same content) in storage of their own; the original is not written to.")
def m07(P):
    for n in DIMS:
        r = "m_clone%d" % n
        def run(n=n, r=r):
            a = P.use(MM.modular(r, MM.NDLIB, MM.VECLIB)); ctx = Ctx(); key = "clone-%dd" % n; v = MapView(n); P.returns(key + "-returns", r, a, ctx)
            for f in ("resolution", "bounds", "tile_size", "track_changes"):
                o, s = mapfield(n, f)
                for off in range(o, o + s, 4):
                    w = min(4, o + s - off)
                    P.require("%s-%s-%d" % (key, f, off - o), r, out(a, "_0", off, w) is leaf(inp("map", off, w)), "%s of the clone is %s" % (f, show(out(a, "_0", off, w), 5)))
            h = heap_of(a, n, "_0")
            P.require(key + "-storage", r, h is not None and content(a.obj(a.state, h)) is content(a.obj(a.state, v.ptr)) is T("init", v.ptr), "the clone's values are not a copy of the original's in storage of its own")
            d, _ = mapfield(n, "data"); do, _ = arrfield(n, "dim"); so, _ = arrfield(n, "strides")
            for i in range(n):
                P.equal("%s-size-%s" % (key, AX[i]), r, dims_of(a, n, "_0")[i], leaf(v.dim[i]), ctx); P.equal("%s-stride-%s" % (key, AX[i]), r, outi(a, "_0", d + so + 8 * i), leaf(v.stride[i]), ctx)
            c, _ = mapfield(n, "changed_cells"); s = vec_now(a, "_0", c)
            P.require(key + "-log", r, s == [seq0("map", c)] and outi(a, "_0", c + 8).term.op == "seqptr", "the clone's log is %s" % [show(x, 5) for x in s])
            P.untouched(key, r, a, ["map"]); P.require(key + "-pure", r, not calls(a) and not stores_else(a, "_0"), "cloning has an effect on something else: %s" % stores_else(a, "_0"))
        P.guarded("clone-%dd" % n, r, run)

def known(n, base=0):
    """The bytes of a map's own fields; what else a map may hold is not part of its state."""
    return {base + x for x in region(n, *FIELDTYPE)}
def lens(n, c, *more):
    """Lists have no negative number of elements."""
    ctx = Ctx()
    for x, o in (("map", c),) + more:
        t = inp(x, o + 16, 8); INT_ATOMS.add(t); ctx.assume(t, ">=", ZERO); ctx.assume(t, "<=", INT((2 ** 63 - 1) // (8 * n)))
    return ctx
def pushed(P, key, r, a, ps, n, src, log):
    """The cells of a list are put one by one onto the log (or, if there is no log, onto a new list that is returned)."""
    from props_cloud import finished, plain
    from sweep import Sweep
    arg, o = src; ctx = Ctx(); S = Sweep(P, key, r, a, ctx); N = S.nonneg(inp(arg, o + 16, 8), 8 * n); L = [l for l in a.loops if not l.parent]
    P.require(key, r, len(ps) == 1 and len(ps[0].loops) == 1 and len(L) == 1, "cells are put onto a list in %d places" % len(ps))
    if len(ps) != 1 or len(ps[0].loops) != 1: return
    e = ps[0]; h = plain(e.args[0]); P.require(key + "-log", r, h is inp("map", log + 8, 8) if log is not None else h.op == "list" and plain(outi(a, "_0", 8)) is h, "cells are put onto another list")
    end = finished(S, a, N); P.holds(key + "-returns", r, a.guard, ctx, end, what="%s returns normally" % key)
    for x in panics(a): P.holds("%s-panic-%d" % (key, panics(a).index(x)), r, dnot(dand(S.nest(x, [N] * len(x.loops))[0] if x.loops else end, x.guard)), ctx, what="%s never panics" % key)
    vis = S.once("each", e, [N], what="putting a cell onto the list")
    for i in range(n): P.equal("%s-cell-%s" % (key, AX[i]), r, as_int(e.args[1 + i]), leaf(T("ldx", T("init", T("ld", inp(arg, o + 8, 8))), lin_add(lin_scale(S.it(e.loops[0]), 8 * n), INT(8 * i)), 8)), ctx, vis, what="coordinate %s of the cell put onto the list" % AX[i])
    if log is None: P.equal(key + "-length", r, outi(a, "_0", 16), leaf(N), ctx, end, what="the number of cells returned")

def log_ops(P, n, pre="m_", base=0, key=""):
    c = base + mapfield(n, "changed_cells")[0]; tr = base + mapfield(n, "track_changes")[0]; own = set(range(c, c + 24)); K = lambda x: "%s%s-%dd" % (key, x, n)
    r = pre + "add%d" % n
    def run(r=r):
        a = P.use(MM.modular(r, MM.VECLIB, MM.PUSHLIB)); ctx = lens(n, c, ("cells", 0)); ps = [e for e in a.events if e.kind == "lib" and e.name == "list-push"]; s = vec_now(a, "map", c) if not ps else None
        if not ps: P.returns(K("append") + "-returns", r, a, ctx); P.require(K("append"), r, s == [seq0("map", c), seq0("cells", 0)], "the log afterwards is %s" % [show(x, 6) for x in s])
        else: pushed(P, K("append"), r, a, ps, n, ("cells", 0), c)
        ch = bytes_of(changed_bytes(a, "map")); P.require(K("append") + "-only", r, ch is not None and not (ch & known(n, base)) - own and not calls(a) and not stores_else(a, "map", "cells"), "something other than the log is changed: %s" % changed_bytes(a, "map"))
    P.guarded(K("append"), r, run)
    r = pre + "changed%d" % n
    def run(r=r):
        a = P.use(MM.modular(r, MM.VECLIB, MM.PUSHLIB, MM.SEQLIB[3:4])); ps = [e for e in a.events if e.kind == "lib" and e.name == "list-push"]; s = vec_now(a, "_0", 0) if not ps else None
        if ps: pushed(P, K("read"), r, a, ps, n, ("map", c), None)
        else: P.returns(K("read") + "-returns", r, a, lens(n, c)); P.require(K("read"), r, s == [seq0("map", c)] and outi(a, "_0", 8) is not leaf(inp("map", c + 8, 8)), "the cells returned are %s" % [show(x, 6) for x in s])
        P.untouched(K("read"), r, a, ["map"]); P.require(K("read") + "-pure", r, not calls(a) and not stores_else(a, "_0"), "reading the log has an effect")
    P.guarded(K("read"), r, run)
    r = pre + "clear%d" % n
    def run(r=r):
        a = P.use(MM.modular(r, MM.VECLIB)); P.returns(K("clear") + "-returns", r, a, Ctx())
        P.equal(K("clear"), r, outi(a, "map", c + 16), D0, Ctx(), a.guard, what="the length of the log afterwards")
        ch = bytes_of(changed_bytes(a, "map")); P.require(K("clear") + "-only", r, ch is not None and not (ch & known(n, base)) - own and not calls(a) and not stores_else(a, "map"), "something other than the log is changed: %s" % changed_bytes(a, "map"))
    P.guarded(K("clear"), r, run)
    r = pre + "settrack%d" % n
    def run(r=r):
        a = P.use(analyse(r)); P.returns(K("set-tracking") + "-returns", r, a, Ctx()); v = T("arg", "value")
        P.same_cond(K("set-tracking"), r, to_bool(icmp("ne", as_int(out(a, "map", tr, 1)), D0, 8)), to_bool(leaf(v)), Ctx(), what="the flag holding the value given")
        ch = bytes_of(changed_bytes(a, "map")); P.require(K("set-tracking") + "-only", r, ch is not None and not (ch & known(n, base)) - {tr} and not calls(a) and not stores_else(a, "map"), "something other than the flag is changed: %s" % changed_bytes(a, "map"))
    P.guarded(K("set-tracking"), r, run)
    r = pre + "track%d" % n
    def run(r=r):
        a = P.use(analyse(r)); P.returns(K("tracking") + "-returns", r, a, Ctx())
        P.same_cond(K("tracking"), r, to_bool(a.result), to_bool(icmp("ne", leaf(inp("map", tr, 1)), D0, 8)), Ctx(), what="returning the flag")
        P.untouched(K("tracking"), r, a, ["map"]); P.require(K("tracking") + "-pure", r, not calls(a) and not stores(a), "asking for the flag has an effect")
    P.guarded(K("tracking"), r, run)

def ldx_peel(t):
    """A read of an array whose later writes are to other elements."""
    if t.op != "ldx": return t
    m, o, s = t.args
    while m.op == "stx":
        d = lin_add(o, m.args[1], -1)
        if d.op != "int" or -s < d.args[0] < m.args[2]: break
        m = m.args[0]
    return T("ldx", m, o, s)
@prop("M06", HOW + "Operations on vectors are used through their contracts. Rule: appending leaves log ++ given cells, reading returns a copy of the log, clearing sets its length to zero, and each writes nothing else; the flag is written by its setter only; when a map with cells grows, a loop over all logged cells adds (old minimum - new minimum) to each on every axis, and it runs in no other case.")
def m06(P):
    for n in DIMS: log_ops(P, n)
    def run(G, n, empty):
        a = G.a; key = G.key; c, _ = mapfield(n, "changed_cells"); tr, _ = mapfield(n, "track_changes"); buf = T("ld", inp("map", c + 8, 8)); ln = inp("map", c + 16, 8)
        INT_ATOMS.add(ln); G.ctx.assume(ln, ">=", ZERO)
        ch = bytes_of(changed_bytes(a, "map")); P.require(key + "-flag", G.root, ch is not None and tr not in ch, "growing changes the tracking flag")
        ws = [(e, o, g) for e, b, o, g in stores(a) if b is buf]; moved = bool(ch & set(range(c, c + 24))); place = D0
        for g, p in split_leaves(restrict(G.R(outi(a, "map", c + 8)), G.grown if not empty else G.guard)) if moved else ():
            h, o = ptr_parts(p)
            if h.op == "heap" and o is ZERO: place = dor(place, dand(g, G.guard)); ws += [(e, ptr_parts(q)[1], dand(e.guard, w)) for e in a.events if e.kind == "store" for w, q in split_leaves(e.args[0]) if q is not UNDEF and ptr_parts(q)[0] is h and e.loops]
        some = icmp("ne", leaf(ln), D0, 64)
        if moved:       # the log is replaced: by a list of its own with as many cells if the map grows, by nothing otherwise
            new = D0 if empty else G.grown
            P.equal(key + "-log-length", G.root, G.R(outi(a, "map", c + 16)), leaf(ln), G.ctx, (D1, G.guard), what="the length of the log")
            P.equal(key + "-log-storage", G.root, G.R(outi(a, "map", c + 8)), leaf(inp("map", c + 8, 8)), G.ctx, (D1, dand(G.guard, dnot(new))), what="the log's storage when nothing moves")
            P.holds(key + "-log-own", G.root, place, G.ctx, dand(new, some), what="a new list for a log that is moved")
            P.require(key + "-log-copy", G.root, not any(b is buf for e, b, o, g in stores(a)), "the log is changed in place and replaced")
        if empty: return    # no cell existed before
        for k, (e, o, g) in enumerate(ws): P.require("%s-log-loop-%d" % (key, k), G.root, len(e.loops) == 1, "a write to the log that is not part of one pass over it")
        ls = {e.loops[0] for e, o, g in ws if len(e.loops) == 1}
        P.require(key + "-log-once", G.root, len(ls) == 1, "there are %d passes over the log" % len(ls))
        if len(ls) != 1: return
        L = next(L for L in a.loops if L.n in ls); it = T("it", L.n); INT_ATOMS.add(it); G.ctx.assume(it, ">=", ZERO)
        more = icmp("ne", leaf(lin_add(it, ONE)), leaf(ln), 64); ent = G.R(L.entry_guard)
        P.holds(key + "-log-whenever", G.root, ent, G.ctx, dand(G.grown, some), what="the pass over the log when the map grows")
        P.holds(key + "-log-only", G.root, dnot(dand(ent, dnot(dand(G.grown, some)))), G.ctx, G.guard, what="no pass over the log when the map does not grow")
        # an iteration that is reached is below the length: the first by the entry, the next by the rule below
        G.ctx.assume(it, "<", ln)
        P.same_cond(key + "-log-all", G.root, L.back, more, G.ctx, what="the pass going on until the last logged cell")
        for i in range(n):
            mine = [(e, o, g) for e, o, g in ws if o is lin_add(lin_scale(it, 8 * n), INT(8 * i))]
            P.require("%s-log-one-%s" % (key, AX[i]), G.root, len(mine) == 1, "each logged cell is not moved exactly once along " + AX[i])
            if len(mine) != 1: continue
            if mine[0][2] is not D1: P.holds("%s-log-each-%s" % (key, AX[i]), G.root, G.R(mine[0][2]), G.ctx, G.grown, what="each logged cell being moved along " + AX[i])
            e, o, g = mine[0]
            v = restrict(G.R(e.args[1]), G.grown); v = lift1(lambda t: leaf(lin_map(t, ldx_peel)), v)
            old = T("ldx", T("muobj", L.n, buf), o, 8) if not moved else T("ldx", T("init", buf), o, 8); INT_ATOMS.add(old)
            P.equal("%s-log-shift-%s" % (key, AX[i]), G.root, v, isub(iadd(leaf(old), leaf(G.L[i])), restrict(G.N[i], G.grown)), G.ctx, (D1, G.grown), what="a logged cell after growing, along " + AX[i])
        P.require(key + "-log-others", G.root, len(ws) == n, "the log is written to %d times per cell" % len(ws))
    growths(P, run)
def lin_map(t, f):
    if t.op == "lin":
        r = INT(t.args[0])
        for x, k in t.args[1]: r = lin_add(r, f(x), k)
        return r
    return f(t)

@prop("M09", HOW + "The noise model is unknown except for its interface. Rule: every delegating operation has the same condition for returning, the same result, the same writes and the same final map as the operation of the inner grid map, and the noise model's bytes are unchanged; a new map's fields are those of an empty grid map with the given parameters, and integrating a cloud is one call of the model's operation on the inner grid map.")
def m09(P):
    for n in DIMS:
        fo = layout().fields(OCC % (n, n, n)); gb, gs = fo["grid_map"][:2]; nb, ns = fo["noise_model"][:2]
        def inner(d):
            """An occupancy map's value, with the inner grid map in the place of the whole."""
            if d is None or gb == 0: return d
            m = {}
            for t in subterms(d):
                if t.op == "sub" and t.args[0] is T("init", T("arg", "map")): m[t] = T("sub", t.args[0], t.args[1] - gb, t.args[2])
                if t.op == "ptr" and t.args[0] is T("arg", "map"): m[t] = mk_ptr(t.args[0], lin_add(t.args[1], INT(-gb)))
            return subst(d, m, ("inner", n, tuple(sorted(t.id for t in m)))) if m else d
        def compare(op, libs=(), outs=()):
            r, q = "o_%s%d" % (op, n), "m_%s%d" % (op, n); key = "%s-%dd" % (op, n)
            def run():
                a, b = [P.use(MM.modular(x, *libs) if libs else analyse(x)) for x in (r, q)]
                v = MapView(n); ctx = Ctx(nonneg=v.dim, positive=[v.res])
                P.same_cond(key + "-returns", r, inner(a.guard), b.guard, ctx, what="returning exactly when the grid map's operation does")
                if b.result is not None: P.equal(key + "-result", r, inner(a.result), b.result, ctx, b.guard, what="the result")
                sa, sb = [], []
                for an, l, sh in ((a, sa, inner), (b, sb, lambda x: x)):
                    for e, bs, o, g in stores(an):
                        if bs.op == "arg" and bs.args[0] in ("map", "_0", "out"): continue      # compared as final content
                        l.append((inner(leaf(mk_ptr(bs, o))) if an is a else leaf(mk_ptr(bs, o)), sh(D_(e.args[1])), sh(g), len(e.loops)))
                P.require(key + "-writes", r, len(sa) == len(sb), "there are %d writes to the map's storage where the grid map's operation has %d" % (len(sa), len(sb)))
                for k, (x, y) in enumerate(zip(sa, sb)):
                    P.require("%s-write-%d" % (key, k), r, x[3] == y[3] and all(same(p, s) for p, s in cross_terms(x[0], y[0])), "a write goes to %s where the grid map's operation writes %s" % (show(x[0], 5), show(y[0], 5)))
                    P.equal("%s-written-%d" % (key, k), r, x[1], y[1], ctx, y[2]); P.same_cond("%s-when-%d" % (key, k), r, x[2], y[2], ctx)
                for arg, off, size in [("map", 0, gs)] + list(outs):
                    cut = set()
                    for an, sh in ((a, gb if arg == "map" else 0), (b, 0)):
                        o = an.obj(an.state, T("arg", arg))
                        for c, (s, _) in o.cells.items(): cut |= {c - sh, c + s - sh}
                    cut = sorted(c for c in cut | {off, off + size} if off <= c <= off + size)
                    for lo, hi in zip(cut, cut[1:]):
                        x, y = inner(out(a, arg, lo + (gb if arg == "map" else 0), hi - lo)), out(b, arg, lo, hi - lo)
                        if x is y: P.ok("%s-%s-%d" % (key, arg, lo))
                        elif hi - lo == 4: P.equal("%s-%s-%d" % (key, arg, lo), r, as_float(x, 32), as_float(y, 32), ctx, b.guard, what="the %s at offset %d" % (arg, lo))
                        else: P.equal("%s-%s-%d" % (key, arg, lo), r, as_int(x), as_int(y), ctx, b.guard, what="the %s at offset %d" % (arg, lo))
                la, lb = [[x for x in an.events if x.kind == "lib"] for an in (a, b)]
                P.require(key + "-list", r, len(la) == len(lb) and all(x.name == y.name and x.loops == y.loops for x, y in zip(la, lb)), "the log is not used as by the grid map's operation")
                for k, (x, y) in enumerate(zip(la, lb)):
                    P.same_cond("%s-list-when-%d" % (key, k), r, inner(x.guard), y.guard, ctx)
                    for j, (p, s) in enumerate(zip(x.args, y.args)): P.require("%s-list-%d-%d" % (key, k, j), r, inner(D_(p)) is D_(s), "the log is given %s where the grid map's operation gives %s" % (show(p, 4), show(s, 4)))
                ch = bytes_of(changed_bytes(a, "map"))
                P.require(key + "-noise-model", r, ch is not None and not ch & set(range(nb, nb + ns)), "the noise model is changed")
                P.require(key + "-pure", r, not calls(a), "it calls %s" % [e.name for e in calls(a)])
            P.guarded(key, r, run)
        for op in ("get", "set", "res", "track", "settrack", "clear"): compare(op)
        compare("bounds", (), [("out", 0, 8 * n)]); compare("cfp", (), [("out", 0, 8 * n)]); compare("pfc", (), [("out", 0, 4 * n)])
        compare("add", (MM.VECLIB, MM.PUSHLIB)); compare("changed", (MM.VECLIB, MM.PUSHLIB, MM.SEQLIB[3:4]), [("_0", 0, 24)])
        r = "o_new%d" % n
        def run(r=r):
            a = P.use(MM.modular(r, MM.NDLIB)); res = farg("resolution"); ctx = Ctx(positive=[res]); z = [leaf(FZERO)] * n
            P.returns("new-%dd-returns" % n, r, a, ctx)
            new_map(P, "new-%dd" % n, r, a, n, ctx, leaf(res), z, z, leaf(iarg("tile_size")), None, [D0] * n, gb)
            P.require("new-%dd-noise-model" % n, r, out(a, "_0", nb, ns) is leaf(inp("nm", 0, ns)), "the noise model is %s" % show(out(a, "_0", nb, ns), 4))
            P.require("new-%dd-pure" % n, r, not [e for e in calls(a) if e.name != "y_defval%d" % n] and not stores_else(a, "_0"), "it calls %s" % [e.name for e in calls(a)])
        P.guarded("new-%dd" % n, r, run)
        r = "o_default%d" % n
        def run(r=r):
            a = P.use(MM.modular(r, MM.NDLIB)); ctx = Ctx(); z = [leaf(FZERO)] * n
            P.returns("default-%dd-returns" % n, r, a, ctx)
            new_map(P, "default-%dd" % n, r, a, n, ctx, leaf(C(0.1)), z, z, leaf(INT(100)), None, [D0] * n, gb)
            ev = calls(a, "^y_default%d$" % n); x = out(a, "_0", nb, ns)
            P.require("default-%dd-noise-model" % n, r, len(ev) == 1 and x.var is None and x.term is T("sub", T("out", ev[0].term, 0), 0, ns), "the noise model is %s" % show(x, 4))
            P.require("default-%dd-pure" % n, r, not [e for e in calls(a) if e.name not in ("y_defval%d" % n, "y_default%d" % n)] and not stores_else(a, "_0"), "it calls %s" % [e.name for e in calls(a)])
        P.guarded("default-%dd" % n, r, run)
        r = "o_integ%d" % n
        def run(r=r):
            a = P.use(analyse(r)); P.returns("integrate-%dd-returns" % n, r, a, Ctx()); ev = calls(a)
            P.require("integrate-%dd-once" % n, r, len(ev) == 1 and ev[0].name == "y_integ%d" % n and ev[0].guard is D1 and not ev[0].loops, "integrating a cloud calls %s" % [e.name for e in ev])
            if len(ev) == 1:
                e = ev[0]; at = lambda x, o: leaf(mk_ptr(T("arg", x), INT(o)))
                P.require("integrate-%dd-own-parts" % n, r, list(e.args[:4]) == [at("map", nb), at("map", gb), at("origin", 0), at("cloud", 0)], "the call is about %s" % [show(x, 3) for x in e.args])
                P.require("integrate-%dd-only" % n, r, not stores(a), "something else is written")
        P.guarded("integrate-%dd" % n, r, run)
def cross_terms(a, b):
    return [(p, s) for g1, p in split_leaves(a) for g2, s in split_leaves(b) if dand(g1, g2) is not D0]
