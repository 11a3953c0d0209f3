"""Contracts of the functions an analysis does not look into: operations of the standard library and of ndarray
(trusted, from their documentation), and operations of kuba itself that a property of their own decides."""
import re
from kuba import *
from engine import Obj, lift1, split_leaves, content, read_obj, write_obj, wrap, unwrap

def one(d, what="a pointer"):
    if d.var is not None: raise Unproved("%s depends on a case distinction" % what)
    return d.term
def put(an, st, p, off, size, d):
    """store at constant offset from pointer p"""
    b, o = ptr_parts(one(p)); st.mem[b] = write_obj(an.obj(st, b), lin_add(o, INT(off)).args[0], size, D_(d))
def get(an, st, p, off, size):
    return an.load(st, apply("ptradd", lambda q, k: leaf(ptr_add(q, k)), p, leaf(INT(off))), size)
def geti(an, st, p, off): return as_int(get(an, st, p, off, 8))
def getf(an, st, p, off): return as_float(get(an, st, p, off, 4), 32)
def event(an, fr, i, dn, args, G, term=None):
    from engine import Event
    an.events.append(Event("lib", G, dn, [d for _, d, _ in args], i, fr.f.name, tuple(an.loopstack), term))
def fresh(an, st, blob):
    an.nheap += 1; b = T("heap", an.nheap); st.mem[b] = Obj({}, leaf(blob)); return b
LIBN = {}

# ------------------------------------------------------------------ Vec<f32>, ndarray
def vec_from_elem(an, fr, i, dn, args, G, st):
    (_, out, _), (_, v, _), (_, n, _) = args[:3]
    h = fresh(an, st, T("fill", wrap(v)))
    n = as_int(n); vo = veclay("f32")
    put(an, st, out, vo["cap"], 8, n); put(an, st, out, vo["ptr"], 8, leaf(mk_ptr(h, ZERO))); put(an, st, out, vo["len"], 8, n)
def veclay(t):
    """Offsets inside of a vector: capacity, pointer, length (the same for every element type)."""
    return {"cap": 0, "ptr": 8, "len": 16}
def nd_dims(n, an, st, shape): return [geti(an, st, shape, 8 * k) for k in range(n)]
def put_array(an, st, out, n, h, dims):
    po, _ = arrfield(n, "ptr"); do, _ = arrfield(n, "dim"); so, _ = arrfield(n, "strides"); da, _ = arrfield(n, "data")
    tot = leaf(ONE)
    for d in dims: tot = imul(tot, d)
    p = leaf(mk_ptr(h, ZERO))
    put(an, st, out, da, 8, p); put(an, st, out, da + 8, 8, tot); put(an, st, out, da + 16, 8, tot)
    put(an, st, out, po, 8, p)
    st_ = leaf(ONE); strides = []
    for d in reversed(dims): strides.insert(0, st_); st_ = imul(st_, d)
    for k in range(n): put(an, st, out, do + 8 * k, 8, dims[k]); put(an, st, out, so + 8 * k, 8, strides[k])
def dim_of(dn): return int(re.search(r"Dim<\[usize; (\d)", dn).group(1))
def nd_from_shape_vec(an, fr, i, dn, args, G, st):
    n = dim_of(dn); (_, out, _), (_, shape, _), (_, vec, _) = args[:3]
    dims = nd_dims(n, an, st, shape); ln = geti(an, st, vec, 16); p = geti(an, st, vec, 8)
    tot = leaf(ONE)
    for d in dims: tot = imul(tot, d)
    if not all(same(x, y) for x, y in cross(tot, ln)): raise Unproved("the number of stored values is not the product of the sizes", (), "%s / %s" % (show(tot, 5), show(ln, 5)))
    if p.var is None and ptr_parts(p.term)[0].op == "heap": h = ptr_parts(p.term)[0]
    elif all(t is ZERO for t in leaves(ln)): h = fresh(an, st, T("nothing"))
    else: raise Unproved("the values of the new grid are not known", (), show(p, 4))
    put_array(an, st, out, n, h, dims)
def cross(a, b):
    r = []
    apply(("cross", len(r), id(r)), lambda x, y: (r.append((x, y)), D0)[1], a, b)
    return r
def nd_from_elem(an, fr, i, dn, args, G, st):
    n = dim_of(dn); (_, out, _), (_, shape, _), (_, v, _) = args[:3]
    put_array(an, st, out, n, fresh(an, st, T("fill", wrap(v))), nd_dims(n, an, st, shape))
def nd_slice(an, fr, i, dn, args, G, st):
    n = dim_of(dn); (_, out, _), (_, arr, _), (_, info, _) = args[:3]
    po, _ = arrfield(n, "ptr"); do, _ = arrfield(n, "dim")
    p = one(geti(an, st, arr, po), "the storage of the grid"); dims = [geti(an, st, arr, do + 8 * k) for k in range(n)]
    lo, hi = [], []; g = G
    for k in range(n):
        b = 32 * k
        tag, end, start, step = [geti(an, st, info, b + x) for x in (0, 8, 16, 24)]
        if tag is D0: end = dims[k]
        elif tag is not D1: raise Unproved("a slice with an unknown kind of range")
        if step is not D1: raise Unproved("a slice with a step")
        g = dand(g, all_([ile(D0, start), ile(start, end), ile(end, dims[k])])); lo.append(start); hi.append(end)
    an.havoc(st, *ptr_parts(one(out)), 8 + 16 * n, T("ndview", p, tuple(map(wrap, lo)), tuple(map(wrap, hi))))
    bad = dand(G, dnot(g))
    if bad is not D0: panic(an, fr, i, dn, bad)
    return g
def panic(an, fr, i, dn, g):
    from engine import Event
    an.events.append(Event("panic", g, dn, [], i, fr.f.name, tuple(an.loopstack)))
def whole_of(an, st, p, n):
    """A grid as a view of all of it."""
    po, _ = arrfield(n, "ptr"); do, _ = arrfield(n, "dim")
    return one(geti(an, st, p, po), "the storage of the grid"), (ZERO,) * n, tuple(wrap(geti(an, st, p, do + 8 * k)) for k in range(n))
def view_of(an, st, p, n=0):
    t = one(geti(an, st, p, 0), "a view")
    if t.op == "sub" and t.args[0].op == "ndview": return t.args[0].args
    if t.op == "sub" and t.args[0].op == "sub" and t.args[0].args[0].op == "ndview": return t.args[0].args[0].args
    raise Unproved("a view that is not a slice of a grid", (), show(t, 4))
def nd_assign(an, fr, i, dn, args, G, st):
    (_, dst, _), (_, src, _) = args[:2]
    n = dim_of(dn); own = "OwnedRepr<"; to, frm = dn.split(">>::assign::<") if dn.count(">>::assign::<") == 1 else ("", "")
    dp, dlo, dhi = (whole_of if own in to else view_of)(an, st, dst, n); sp, slo, shi = (whole_of if own in frm else view_of)(an, st, src, n)
    db, do = ptr_parts(dp); sb, so = ptr_parts(sp)
    if do is not ZERO or so is not ZERO: raise Unproved("a view into the middle of the storage")
    g = dand(G, all_([ieq(isub(unwrap(h), unwrap(l)), isub(unwrap(h2), unwrap(l2))) for l, h, l2, h2 in zip(dlo, dhi, slo, shi)]))
    bad = dand(G, dnot(g))
    if bad is not D0: panic(an, fr, i, dn, bad)
    old = content(an.obj(st, db)); s = content(an.obj(st, sb))
    st.mem[db] = Obj({}, leaf(T("paste", old, dlo, dhi, s, slo)))
    event(an, fr, i, dn, args, G)
    return g
def nd_zip(an, fr, i, dn, args, G, st):
    """zip_mut_with(other, closure), of grids of one shape, where the closure copies."""
    import ll
    k = re.search(r", (?=<?kuba::)", dn[dn.rindex("::zip_mut_with::<"):]); want = dn[dn.rindex("::zip_mut_with::<") + k.end():-1].replace("::<", "<") if k else ""
    fs = [f for f, d in an.m.dem.items() if d.replace("::<", "<") == want and an.m.funcs[f].raw is not None]
    if len(fs) != 1 or len(args) != 2: raise Unproved("what two grids are combined by cannot be found", (), want[:200])
    f = ll.body(an.m, fs[0]); st2 = st.copy(); an.nheap += 3; hs = [T("heap", an.nheap - x) for x in range(3)]; an.loopstack.append(("pass", an.nheap))
    for h in hs: st2.mem[h] = Obj({}, leaf(T("init", h)))
    if len(f.params) != 3: raise Unproved("what two grids are combined by has unexpected arguments")
    _, st3, g = an.exec_fn(f, {q[1]: leaf(mk_ptr(h, ZERO)) for q, h in zip(f.params, hs)}, st2, D1, fr.path + ("zip",), fr.depth + 1); an.loopstack.pop()
    if g is not D1 or getf(an, st3, leaf(mk_ptr(hs[1], ZERO)), 0) is not getf(an, st2, leaf(mk_ptr(hs[2], ZERO)), 0): raise Unproved("two grids are combined, but not by copying")
    for b, o in st3.mem.items():
        if b.op != "alloca" and b is not hs[1] and o is not st2.mem.get(b) and (b in st2.mem or not is_init(b, o)): raise Unproved("what two grids are combined by writes to memory")
    return nd_assign(an, fr, i, dn.replace("::zip_mut_with::<", "::assign::<"), args, G, st)
def nd_clone(an, fr, i, dn, args, G, st):
    n = dim_of(dn); (_, out, _), (_, src, _) = args[:2]
    po, _ = arrfield(n, "ptr"); do, _ = arrfield(n, "dim"); so, _ = arrfield(n, "strides")
    p = one(geti(an, st, src, po)); b, o = ptr_parts(p)
    h = fresh(an, st, content(an.obj(st, b)))
    put_array(an, st, out, n, h, [geti(an, st, src, do + 8 * k) for k in range(n)])
    for k in range(n): put(an, st, out, so + 8 * k, 8, geti(an, st, src, so + 8 * k))
def nothing(an, fr, i, dn, args, G, st): return None
def nd_at(c, idx, init):
    """The value a storage content has at an index; init(content, idx) for contents known from before."""
    if c.op == "fill": return unwrap(c.args[0])
    if c.op == "mdd":
        d = c.args[0]
        return lift1(lambda t: nd_at(t, idx, init), d)
    if c.op == "paste":
        old, lo, hi, s, slo = c.args
        ins = all_([dand(ile(unwrap(l), x), ilt(x, unwrap(h))) for l, h, x in zip(lo, hi, idx)])
        return ite(ins, nd_at(s, [iadd(isub(x, unwrap(l)), unwrap(l2)) for x, l, l2 in zip(idx, lo, slo)], init), nd_at(old, idx, init))
    return init(c, idx)
ND = r"^<ndarray::ArrayBase<.*>>::"
NDLIB = [(r"^alloc::vec::from_elem::<f32>$", vec_from_elem), (ND + r"from_shape_vec::<", nd_from_shape_vec), (ND + r"from_elem::<", nd_from_elem),
         (ND + r"slice(_mut)?::<", nd_slice), (ND + r"assign::<", nd_assign), (ND + r"zip_mut_with::<", nd_zip), (r"^<ndarray::ArrayBase<.*> as core::clone::Clone>::clone$", nd_clone), (ND + "to_owned$", nd_clone),
         (r"^core::ptr::(drop_glue|drop_in_place)::<ndarray::ArrayBase<", nothing)]

# ------------------------------------------------------------------ vectors of cells
def vc(an, st, p):
    """What a vector holds, as a term."""
    ptr = geti(an, st, p, 8); ln = geti(an, st, p, 16)
    return T("seq", wrap(ptr), wrap(ln), *[T("at", content(an.obj(st, ptr_parts(t)[0]))) for t in leaves(ptr) if t.op == "ptr"])
def as_seq(t):
    """A sequence as a list of pieces."""
    if t.op == "seqcat": return as_seq(t.args[0]) + as_seq(t.args[1])
    if t.op == "seq" and t.args[0].op == "seqptr": return as_seq(t.args[0].args[0])
    if t.op == "seq" and t.args[1] is ZERO: return []
    return [t]
def put_vec(an, st, p, t):
    put(an, st, p, 0, 8, leaf(T("seqcap", t))); put(an, st, p, 8, 8, leaf(T("seqptr", t))); put(an, st, p, 16, 8, leaf(T("seqlen", t)))
def vec_clone(an, fr, i, dn, args, G, st):
    put_vec(an, st, args[0][1], T("seqcat", vc(an, st, args[1][1]), T("seq", NULLP, ZERO)))
NULLP = INT(8)
def vec_extend(an, fr, i, dn, args, G, st):
    put_vec(an, st, args[0][1], T("seqcat", vc(an, st, args[0][1]), vc(an, st, args[1][1])))
def vec_append(an, fr, i, dn, args, G, st):
    put_vec(an, st, args[0][1], T("seqcat", vc(an, st, args[0][1]), vc(an, st, args[1][1]))); put(an, st, args[1][1], 16, 8, D0)
def vec_extend_slice(an, fr, i, dn, args, G, st):
    s = T("seq", wrap(args[1][1]), wrap(args[2][1]))
    put_vec(an, st, args[0][1], T("seqcat", vc(an, st, args[0][1]), s))
CELLP0 = r"nalgebra::geometry::point::Point<isize, nalgebra::base::dimension::U\d>"
def slice_seq(ptr, n): return T("seq", wrap(ptr), wrap(n))
def vec_of_slice(an, fr, i, dn, args, G, st):
    put_vec(an, st, args[0][1], T("seqcat", slice_seq(args[1][1], args[2][1]), T("seq", NULLP, ZERO)))
def span_seq(dn, lo, hi):
    """The elements between two pointers."""
    n = k_dim(dn)
    def f(x, y):
        b, o = ptr_parts(x); c, q = ptr_parts(y); d = lin_add(q, o, -1)
        if b is not c: raise Unproved("the ends of a slice are in different objects")
        return leaf(lin_div(d, 8 * n))
    return slice_seq(lo, apply("span-%d" % n, f, lo, hi))
def lin_div(t, k):
    """t / k for a multiple of k."""
    if t.op == "int":
        if t.args[0] % k: raise Unproved("a slice with a part of an element")
        return INT(t.args[0] // k)
    if t.op != "lin" or t.args[0] % k or any(c % k for _, c in t.args[1]): raise Unproved("a slice of unknown length", (), show(t, 4))
    r = INT(t.args[0] // k)
    for x, c in t.args[1]: r = lin_add(r, x, c // k)
    return r
def vec_collect_span(an, fr, i, dn, args, G, st):
    put_vec(an, st, args[0][1], T("seqcat", span_seq(dn, args[1][1], args[2][1]), T("seq", NULLP, ZERO)))
def vec_extend_span(an, fr, i, dn, args, G, st):
    put_vec(an, st, args[0][1], T("seqcat", vc(an, st, args[0][1]), span_seq(dn, args[1][1], args[2][1])))
def vec_extend_iter(an, fr, i, dn, args, G, st):
    """extend with an owned list's iterator: (buffer, next, capacity, end)"""
    p = args[1][1]; put_vec(an, st, args[0][1], T("seqcat", vc(an, st, args[0][1]), span_seq(dn, geti(an, st, p, 8), geti(an, st, p, 24))))
def vec_truncate(an, fr, i, dn, args, G, st):
    v = args[0][1]; k = as_int(args[1][1]); n = geti(an, st, v, 16); put(an, st, v, 16, 8, ite(icmp("ult", k, n, 64), k, n))
CV = r"alloc::vec::Vec<nalgebra::geometry::point::Point<isize, nalgebra::base::dimension::U\d>>"
VECLIB = [(r"^<%s as <\[_\]>::to_vec_in::ConvertVec>::to_vec" % CELLP0, vec_of_slice), (r"^<\[nalgebra::geometry::point::Point<isize, nalgebra::base::dimension::U\d>\]>::(to_vec|into_vec)(_in::<.*>)?$", vec_of_slice), (r"^<\[nalgebra::geometry::point::Point<isize, nalgebra::base::dimension::U\d>\] as alloc::borrow::ToOwned>::to_owned$", vec_of_slice),
          (r"^<%s as core::iter::traits::collect::FromIterator<.*>>::from_iter::<core::iter::adapters::(cloned::Cloned|copied::Copied)<core::slice::iter::Iter<" % CV, vec_collect_span), (r"^<%s as core::iter::traits::collect::Extend<.*>>::extend::<(core::iter::adapters::(cloned::Cloned|copied::Copied)<)?core::slice::iter::Iter<" % CV, vec_extend_span),
          (r"^<%s as core::iter::traits::collect::Extend<.*>>::extend::<alloc::vec::into_iter::IntoIter<" % CV, vec_extend_iter), (r"^<%s>::truncate$" % CV, vec_truncate), (r"^core::ptr::(drop_glue|drop_in_place)::<alloc::vec::into_iter::IntoIter<%s" % CELLP0, nothing),
          (r"^<%s as core::clone::Clone>::clone$" % CV, vec_clone), (r"^<%s as core::iter::traits::collect::Extend<.*>::extend::<alloc::vec::Vec<" % CV, vec_extend),
          (r"^<%s>::append$" % CV, vec_append), (r"^<%s>::extend_from_slice$" % CV, vec_extend_slice), (r"^core::ptr::(drop_glue|drop_in_place)::<%s" % CV, nothing)]

# ------------------------------------------------------------------ kuba's own operations
def tile_floor(c, tile):
    """The largest multiple of the tile size that is not above c."""
    def f(t):
        if t.op == "imul" and tile in t.args: return leaf(t)
        k = T("tile-of", t, tile); INT_ATOMS.add(k); return imul(leaf(k), leaf(tile))
    return lift1(f, c)
def tile_ceil(c, tile):
    def f(t):
        k = T("tile-above", t, tile); INT_ATOMS.add(k); return imul(leaf(k), leaf(tile))
    return lift1(f, c)
def tile_facts(ds, ctx):
    """What is known about the tiles a value mentions."""
    seen = set()
    for d in ds: seen |= set(subterms(d))
    for k in sorted((t for t in seen if t.op in ("tile-of", "tile-above")), key=lambda t: t.id):
        c, tile = k.args; e = imul(leaf(k), leaf(tile)).term
        if k.op == "tile-of": ctx.assume(e, "<=", c); ctx.assume(c, "<", lin_add(e, tile))
        else: ctx.assume(c, "<=", e); ctx.assume(e, "<", lin_add(c, tile))
def k_dim(dn): return int(re.search(r"dimension::U(\d)", dn).group(1))
def k_discretized(an, fr, i, dn, args, G, st):
    n = k_dim(dn); out, b, res, ex = [d for _, d, _ in args[:4]]; ex = to_bool(ex)
    lo = [getf(an, st, b, 4 * k) for k in range(n)]; hi = [getf(an, st, b, 4 * (n + k)) for k in range(n)]
    for k in range(n):
        put(an, st, out, 4 * k, 4, fmul(fun("floor", fdiv(lo[k], res)), res)); q = fdiv(hi[k], res)
        put(an, st, out, 4 * (n + k), 4, ite(dand(ex, feq(q, fun("round", q))), fadd(hi[k], res), fmul(fun("ceil", q), res)))
def k_enclosing(an, fr, i, dn, args, G, st):
    n = k_dim(dn); out, a, b = [d for _, d, _ in args[:3]]
    x = [getf(an, st, a, 4 * k) for k in range(2 * n)]; y = [getf(an, st, b, 4 * k) for k in range(2 * n)]
    e = all_([feq(t, FZERO) for t in x])
    for k in range(2 * n): put(an, st, out, 4 * k, 4, ite(e, y[k], (fmin if k < n else fmax)(y[k], x[k])))
def k_from_cell_bounds(an, fr, i, dn, args, G, st):
    n = k_dim(dn); out, cb, res = [d for _, d, _ in args[:3]]
    x = [geti(an, st, cb, 8 * k) for k in range(2 * n)]
    for k in range(2 * n): put(an, st, out, 4 * k, 4, fmul(tof(x[k]), res))
def k_cells_of(an, fr, i, dn, args, G, st):
    n = k_dim(dn); out, b, res = [d for _, d, _ in args[:3]]
    # the empty box needs no case of its own here: its corners are zero, and zero rounds to zero
    for k in range(2 * n): put(an, st, out, 8 * k, 8, toint(fun("round", fdiv(getf(an, st, b, 4 * k), res))))
def k_tiles_of(an, fr, i, dn, args, G, st):
    n = k_dim(dn); out, cb, tile = [d for _, d, _ in args[:3]]; tile = one(as_int(tile), "the tile size")
    x = [geti(an, st, cb, 8 * k) for k in range(2 * n)]
    for k in range(2 * n): put(an, st, out, 8 * k, 8, (tile_floor if k < n else tile_ceil)(x[k], tile))
BX = r"^<kuba::geom::bounds::Bounds<nalgebra::base::dimension::U\d>>::"; CB = r"^<kuba::geom::cell_bounds::CellBounds<nalgebra::base::dimension::U\d>>::"
BOXES = [(BX + "discretized$", k_discretized), (BX + "enclosing$", k_enclosing), (BX + "from_cell_bounds$", k_from_cell_bounds), (CB + "from_bounds$", k_cells_of), (CB + "discretized$", k_tiles_of)]

def modular(root, *libs, **kw):
    """Analyse an entry point with the contracts of the given groups of operations."""
    ms = [m for l in libs for m in l]
    return analyse(root, cuts=[p for p, _ in ms] + list(kw.pop("opaque", ())), models=ms, **kw)

# ------------------------------------------------------------------ the list of cells a ray builds
LISTED = T("listed")         # what has been listed so far: the last cell, and (at 64) how many
def ghost_reset(st): st.mem[LISTED] = write_obj(Obj({}, leaf(T("init", LISTED))), 64, 8, leaf(ZERO))
def list_append(an, fr, i, dn, G, st, vec, coords):
    g = an.obj(st, LISTED); n = len(coords)
    last = [as_int(read_obj(g, 8 * k, 8)) for k in range(n)]; cnt = as_int(read_obj(g, 64, 8)); ln = geti(an, st, vec, 16)
    from engine import Event
    an.events.append(Event("lib", G, "listed", [vec, ln, cnt] + last + list(coords), i, fr.f.name, tuple(an.loopstack)))
    for k in range(n): g = write_obj(g, 8 * k, 8, coords[k])
    st.mem[LISTED] = write_obj(g, 64, 8, iadd(cnt, leaf(ONE)))
    put(an, st, vec, 16, 8, iadd(ln, leaf(ONE)))
def list_push(an, fr, i, dn, args, G, st):
    n = k_dim(dn); vec = args[0][1]; p = args[1][1]
    list_append(an, fr, i, dn, G, st, vec, [geti(an, st, p, 8 * k) for k in range(n)])
def list_new(an, fr, i, dn, args, G, st):
    out = args[0][1]; put(an, st, out, 0, 8, D0); put(an, st, out, 8, 8, leaf(NULLP)); put(an, st, out, 16, 8, D0)
def list_boxed(an, fr, i, dn, args, G, st):
    """vec![..] of a few cells: (out, pointer, number)"""
    n = k_dim(dn); out, p, k = args[0][1], args[1][1], one(as_int(args[2][1]), "the number of listed cells")
    if k.op != "int": return NotImplemented
    list_new(an, fr, i, dn, args[:1], G, st)
    for j in range(k.args[0]): list_append(an, fr, i, dn, G, st, out, [geti(an, st, p, 8 * (n * j + c)) for c in range(n)])
def list_box(an, fr, i, dn, args, G, st):
    """vec![..] of a few cells: (out, box)"""
    m = re.search(r", (\d+)(: usize)?>$", dn)
    if m is None: return NotImplemented
    n = k_dim(dn); out, p = args[0][1], args[1][1]
    cs = [[geti(an, st, p, 8 * (n * j + c)) for c in range(n)] for j in range(int(m.group(1)))]
    list_new(an, fr, i, dn, args[:1], G, st)
    for c in cs: list_append(an, fr, i, dn, G, st, out, c)
LISTLIB = [(r"^alloc::boxed::box_assume_init_into_vec_unsafe::<nalgebra::geometry::point::Point<isize, nalgebra::base::dimension::U\d>, ", list_box), (r"^<%s>::(push|push_mut)$" % CV, list_push), (r"^<%s>::(new|with_capacity|with_capacity_in|new_in)$" % CV, list_new),
           (r"^<\[nalgebra::geometry::point::Point<isize, nalgebra::base::dimension::U\d>\]>::into_vec", list_boxed), (r"^core::ptr::(drop_glue|drop_in_place)::<%s" % CV, nothing)]

# ------------------------------------------------------------------ sets of cells
SETC = r"std::collections::hash::set::HashSet<nalgebra::geometry::point::Point<isize, nalgebra::base::dimension::U\d>>"
CELLP = r"nalgebra::geometry::point::Point<isize, nalgebra::base::dimension::U\d>"
def set_event(an, fr, i, G, name, args):
    from engine import Event
    an.events.append(Event("lib", G, name, args, i, fr.f.name, tuple(an.loopstack)))
def set_new(an, fr, i, dn, args, G, st):
    an.nset = getattr(an, "nset", 0) + 1
    put(an, st, args[0][1], 0, 8, leaf(T("set", an.nset)))
def set_handle(an, st, p):
    h = one(as_int(get(an, st, p, 0, 8)), "which set is meant")
    return h
def set_cell(an, st, dn, args):
    """The cell passed to an operation: by reference, or in registers."""
    n = k_dim(dn)
    if len(args) == 1: return [geti(an, st, args[0][1], 8 * k) for k in range(n)]
    if len(args) == n: return [as_int(a[1]) for a in args]
    raise Unproved("a cell is passed in an unexpected way")
def set_in(an, h, coords):
    """Whether a cell is in a set at this point."""
    an.nset = getattr(an, "nset", 0) + 1
    return case(T("b", T("in", h, an.nset, tuple(T("it", n) for n in an.loopstack), *map(wrap, coords))), (D0, D1))
def set_op(name):
    def f(an, fr, i, dn, args, G, st):
        h = set_handle(an, st, args[0][1]); c = set_cell(an, st, dn, args[1:]); set_event(an, fr, i, G, name, [leaf(h)] + c)
        if i.res: r = set_in(an, h, c); fr.env[i.res] = dnot(r) if name == "set-insert" else r
    return f
def set_contains(an, fr, i, dn, args, G, st):
    fr.env[i.res] = set_in(an, set_handle(an, st, args[0][1]), set_cell(an, st, dn, args[1:]))
def whole_pass(an, fr, N, G):
    """A pass over 0..N inside a library operation."""
    from engine import LoopInfo
    L = LoopInfo(); L.n = an.nloop; an.nloop += 1; it = leaf(T("it", L.n)); INT_ATOMS.add(it.term)
    L.fn = fr.f.name; L.header = L.dbg = L.pre = None; L.kinds, L.strides, L.init, L.next, L.names = {}, {}, {}, {}, {}; L.whole = set(); L.exits = []; L.events = []; L.first_event = L.end_event = len(an.events)
    L.entry_guard = dand(G, ilt(leaf(ZERO), N)); L.back = ilt(iadd(it, leaf(ONE)), N); L.parent = list(an.loopstack); an.loops.append(L)
    return L.n, it
def set_extend(an, fr, i, dn, args, G, st):
    n = k_dim(dn); h = set_handle(an, st, args[0][1]); v = args[1][1]; by = dn[dn.rindex("::extend::<"):]
    if by.startswith("::extend::<alloc::vec::Vec<"):
        k, it = whole_pass(an, fr, geti(an, st, v, 16), G); p = geti(an, st, v, 8); an.loopstack.append(k)
        set_event(an, fr, i, D1, "set-insert", [leaf(h)] + [as_int(an.load(st, apply("padd", lambda a, b: leaf(ptr_add(a, b)), p, leaf(lin_add(lin_scale(it.term, 8 * n), INT(8 * c)))), 8)) for c in range(n)]); an.loopstack.pop()
    elif by.startswith("::extend::<core::option::Option<"):
        set_event(an, fr, i, dand(G, ieq(geti(an, st, v, 0), leaf(ONE))), "set-insert", [leaf(h)] + [geti(an, st, v, 8 + 8 * c) for c in range(n)])
    else: raise Unproved("a set is extended in an unknown way", (), by[:100])
def set_difference(an, fr, i, dn, args, G, st):
    put(an, st, args[0][1], 0, 8, leaf(T("minus", set_handle(an, st, args[1][1]), set_handle(an, st, args[2][1]))))
def set_collect(an, fr, i, dn, args, G, st):
    out, src = args[0][1], one(as_int(get(an, st, args[1][1], 0, 8)), "what is collected")
    if src.op != "minus": raise Unproved("a set is collected from an unknown source", (), show(src, 3))
    set_new(an, fr, i, dn, args, G, st); set_event(an, fr, i, G, "set-minus", [geti(an, st, out, 0)] + [leaf(x) for x in src.args])
def set_sub(an, fr, i, dn, args, G, st):
    set_new(an, fr, i, dn, args, G, st); set_event(an, fr, i, G, "set-minus", [geti(an, st, args[0][1], 0)] + [leaf(set_handle(an, st, x[1])) for x in args[1:3]])
def set_retain(an, fr, i, dn, args, G, st):
    """retain(closure): the closure is analysed for an arbitrary element."""
    import ll
    n = k_dim(dn); want = dn[dn.index("::retain::<") + len("::retain::<"):-1].replace("::<", "<")
    fs = [f for f, d in an.m.dem.items() if d.replace("::<", "<") == want and an.m.funcs[f].raw is not None]
    if len(fs) != 1 or len(args) != 2: raise Unproved("the condition of a retain cannot be found", (), want)
    h = set_handle(an, st, args[0][1]); an.nset = getattr(an, "nset", 0) + 1; e = T("elements", h, an.nset); set_event(an, fr, i, G, "set-iter", [leaf(h), leaf(e)])
    k, it = whole_pass(an, fr, leaf(T("size", e)), G); an.loopstack.append(k); st2 = st.copy(); f = ll.body(an.m, fs[0])
    an.nheap += 1; env = T("heap", an.nheap); st2.mem[env] = write_obj(Obj({}, leaf(UNDEF)), 0, 8, args[1][1])
    p = leaf(mk_ptr(e, lin_scale(it.term, 64))); vs = [leaf(mk_ptr(env, ZERO)), p]
    if len(f.params) != 2: raise Unproved("the condition of a retain has unexpected arguments")
    keep, st3, g = an.exec_fn(f, {q[1]: v for q, v in zip(f.params, vs)}, st2, D1, fr.path + ("retain",), fr.depth + 1)
    for b, o in (st3.mem.items() if st3 else ()):
        if b.op not in ("alloca", "heap") and o is not st2.mem.get(b) and (b in st2.mem or not is_init(b, o)): raise Unproved("the condition of a retain writes to memory")
    set_event(an, fr, i, dand(g, dnot(to_bool(keep))), "set-remove", [leaf(h)] + [as_int(an.load(st2, leaf(mk_ptr(e, lin_add(lin_scale(it.term, 64), INT(8 * c)))), 8)) for c in range(n)]); an.loopstack.pop()
def is_init(b, o): return not o.cells and o.blob is leaf(T("init", b))
def set_iter(an, fr, i, dn, args, G, st):
    out, p = args[0][1], args[1][1]; h = set_handle(an, st, p); an.nset = getattr(an, "nset", 0) + 1
    set_event(an, fr, i, G, "set-iter", [leaf(h), leaf(T("elements", h, an.nset))])
    put(an, st, out, 0, 8, leaf(T("elements", h, an.nset))); put(an, st, out, 8, 8, leaf(ZERO))
def set_next(an, fr, i, dn, args, G, st):
    p = args[0][1]; e = one(as_int(get(an, st, p, 0, 8)), "which set is iterated over"); k = geti(an, st, p, 8)
    put(an, st, p, 8, 8, iadd(k, leaf(ONE)))
    fr.env[i.res] = ite(ilt(k, leaf(T("size", e))), apply(("elem", e.id), lambda x: leaf(mk_ptr(e, imul(leaf(x), leaf(INT(64))).term)), k), leaf(ZERO))
def set_next_owned(an, fr, i, dn, args, G, st):
    n = k_dim(dn); out, p = args[0][1], args[1][1]; e = one(as_int(get(an, st, p, 0, 8)), "which set is iterated over"); k = geti(an, st, p, 8)
    put(an, st, p, 8, 8, iadd(k, leaf(ONE))); more = ilt(k, leaf(T("size", e))); put(an, st, out, 0, 8, ite(more, leaf(ONE), leaf(ZERO)))
    for c in range(n): put(an, st, out, 8 + 8 * c, 8, as_int(an.load(st, apply(("elem", e.id, c), lambda x: leaf(mk_ptr(e, lin_add(imul(leaf(x), leaf(INT(64))).term, INT(8 * c)))), k), 8)))
SETITER = r"std::collections::hash::set::Iter<%s>" % CELLP
SETLIB = [(r"^<%s>::(new|with_capacity)$" % SETC, set_new), (r"^<%s as core::default::Default>::default$" % SETC, set_new),
          (r"^<%s as core::iter::traits::collect::Extend<.*>>::extend::<" % SETC, set_extend), (r"^<%s>::retain::<" % SETC, set_retain), (r"^<%s>::contains::<" % SETC, set_contains),
          (r"^<%s>::difference$" % SETC, set_difference), (r"^<%s as core::iter::traits::collect::FromIterator<.*>>::from_iter::<" % SETC, set_collect), (r"^<&%s as core::ops::arith::Sub(<&%s>)?>::sub$" % (SETC, SETC), set_sub),
          (r"^<%s>::insert$" % SETC, set_op("set-insert")), (r"^<%s>::remove::" % SETC, set_op("set-remove")),
          (r"^<&%s as core::iter::traits::collect::IntoIterator>::into_iter" % SETC, set_iter), (r"^<%s>::iter$" % SETC, set_iter), (r"^<%s as core::iter::traits::collect::IntoIterator>::into_iter" % SETC, set_iter),
          (r"^<std::collections::hash::set::IntoIter<%s> as core::iter::traits::iterator::Iterator>::next" % CELLP, set_next_owned), (r"^core::ptr::(drop_glue|drop_in_place)::<std::collections::hash::set::IntoIter<", nothing),
          (r"^<std::collections::hash::set::Iter<%s> as core::iter::traits::iterator::Iterator>::next" % CELLP, set_next),
          (r"^sa_set_next$", set_next), (r"^sa_set_next_owned_U2$", lambda an, fr, i, dn, *r: set_next_owned(an, fr, i, "dimension::U2", *r)), (r"^sa_set_next_owned_U3$", lambda an, fr, i, dn, *r: set_next_owned(an, fr, i, "dimension::U3", *r)),
          (r"^core::ptr::(drop_glue|drop_in_place)::<\(?(%s|hashbrown::set::HashSet<%s)" % (SETC, CELLP), nothing)]

# ------------------------------------------------------------------ lists that are collected
def seq_id(an, st, out, G=D1):
    """A new list. Lists made in cases that exclude each other get the same name, so that either can be used afterwards."""
    an.lists = getattr(an, "lists", []); here = tuple(an.loopstack)
    for t, where, gs in an.lists:
        if where == here and all(dand(G, g) is D0 for g in gs): gs.append(G); break
    else:
        an.nset = getattr(an, "nset", 0) + 1; t = T("list", an.nset); an.lists.append((t, here, [G]))
    put(an, st, out, 0, 8, leaf(ZERO)); put(an, st, out, 8, 8, leaf(t)); put(an, st, out, 16, 8, leaf(ZERO))
def seq_new(an, fr, i, dn, args, G, st): seq_id(an, st, args[0][1], G)
def seq_handle(an, st, p): return one(as_int(get(an, st, p, 8, 8)), "which list is meant")
def seq_push(an, fr, i, dn, args, G, st):
    v = args[0][1]; set_event(an, fr, i, G, "list-push", [leaf(seq_handle(an, st, v))] + set_cell(an, st, dn, args[1:])); put(an, st, v, 16, 8, iadd(geti(an, st, v, 16), leaf(ONE)))
def set_len(an, fr, i, dn, args, G, st):
    an.nset = getattr(an, "nset", 0) + 1; t = T("elements-of", set_handle(an, st, args[0][1]), an.nset, tuple(T("it", n) for n in an.loopstack)); INT_ATOMS.add(t); fr.env[i.res] = leaf(t)
def seq_reserve(an, fr, i, dn, args, G, st):
    """Making room has no effect that matters, unless the amount can wrap around."""
    for t in leaves(as_int(args[1][1])):
        p = norm(t)
        if any(a.op == "elements-of" and v < 0 for k, v in p.n.m.items() for a, _ in k): raise Unproved("room is made for a number of elements that may be below zero", (), show(t, 4))
def seq_add_elements(an, fr, i, n, h, es, vec, st, G):
    for e in es:
        k, it = whole_pass(an, fr, leaf(T("size", e)), G); an.loopstack.append(k)
        set_event(an, fr, i, D1, "list-push", [leaf(h)] + [as_int(an.load(st, leaf(mk_ptr(e, lin_add(lin_scale(it.term, 64), INT(8 * c)))), 8)) for c in range(n)]); an.loopstack.pop()
        put(an, st, vec, 16, 8, iadd(geti(an, st, vec, 16), leaf(T("size", e))))
def elements_in(an, st, p, size=200):
    """The element sequences an iterator runs over."""
    b, o = ptr_parts(one(p)); es = []
    for off, (s, d) in sorted(an.obj(st, b).cells.items()):
        if o.args[0] <= off < o.args[0] + size and d.var is None and d.term.op == "elements":
            if off + 8 in an.obj(st, b).cells and an.obj(st, b).cells[off + 8][1] is not leaf(ZERO): raise Unproved("an iterator that has already been advanced is collected")
            es.append(d.term)
    if not es: raise Unproved("a list is collected from an unknown source")
    return es
def seq_extend(an, fr, i, dn, args, G, st):
    seq_add_elements(an, fr, i, k_dim(dn), seq_handle(an, st, args[0][1]), elements_in(an, st, args[1][1]), args[0][1], st, G)
def seq_from_iter(an, fr, i, dn, args, G, st):
    seq_id(an, st, args[0][1], G); seq_add_elements(an, fr, i, k_dim(dn), seq_handle(an, st, args[0][1]), elements_in(an, st, args[1][1]), args[0][1], st, G)
IT = r"(core::iter::adapters::cloned::Cloned<)?(core::iter::adapters::chain::Chain<)?%s" % SETITER.replace("::Iter<", "::(Iter|IntoIter)<")
SEQLIB = [(r"^<%s as core::iter::traits::collect::Extend<.*>>::extend::<%s" % (CV, IT), seq_extend), (r"^<%s as core::iter::traits::collect::FromIterator<.*>>::from_iter::<%s" % (CV, IT), seq_from_iter),
          (r"^<%s>::(push|push_mut)$" % CV, seq_push), (r"^<%s>::(new|with_capacity|with_capacity_in|new_in)$" % CV, seq_new), (r"^<%s>::reserve(_exact)?$" % CV, seq_reserve),
          (r"^core::ptr::(drop_glue|drop_in_place)::<%s" % CV, nothing), (r"^<%s>::len$" % SETC, set_len)]
PUSHLIB = SEQLIB[2:3] + [m for m in SEQLIB if "reserve" in m[0]]
# ------------------------------------------------------------------ lists of numbers that are filled one by one
FV = r"alloc::vec::Vec<f32(, .*)?>"
def num_push(an, fr, i, dn, args, G, st):
    v = args[0][1]; set_event(an, fr, i, G, "list-push", [leaf(seq_handle(an, st, v)), as_float(args[1][1], 32)]); put(an, st, v, 16, 8, iadd(geti(an, st, v, 16), leaf(ONE)))
def num_slice(an, fr, i, dn, args, G, st):
    v = args[0][1]; k = as_int(args[2][1])
    if k.var is not None or k.term.op != "int" or k.term.args[0] > 16: raise Unproved("a slice of unknown length is added to a list")
    for j in range(k.term.args[0]): set_event(an, fr, i, G, "list-push", [leaf(seq_handle(an, st, v)), getf(an, st, args[1][1], 4 * j)])
    put(an, st, v, 16, 8, iadd(geti(an, st, v, 16), k))
def num_len(an, fr, i, dn, args, G, st): fr.env[i.res] = geti(an, st, args[0][1], 16)
NUMLIB = [(r"^<%s>::extend_from_slice$" % FV, num_slice), (r"^<%s>::(push|push_mut)$" % FV, num_push), (r"^<%s>::(new|with_capacity|with_capacity_in|new_in)$" % FV, seq_new), (r"^<%s>::reserve(_exact)?$" % FV, seq_reserve), (r"^<%s>::len$" % FV, num_len),
          (r"^core::ptr::(drop_glue|drop_in_place)::<%s" % FV, nothing)]

# ------------------------------------------------------------------ matrices with one column per point
COL = T("it", "column")      # an arbitrary column
def matrix(an, st, p, rows):
    """The entries of an arbitrary column of a matrix."""
    t = one(geti(an, st, p, 8), "which matrix is meant")
    if t.op == "mat": return [unwrap(x) for x in t.args]
    return [leaf(T("ldx", T("init", T("ld", t)), lin_add(lin_scale(COL, 4 * rows), INT(4 * i)), 4)) for i in range(rows)]
def put_matrix(an, st, p, entries, cols):
    put(an, st, p, 0, 8, leaf(T("capacity", len(entries)))); put(an, st, p, 8, 8, leaf(T("mat", *map(wrap, entries)))); put(an, st, p, 16, 8, imul(cols, leaf(INT(len(entries))))); put(an, st, p, 24, 8, cols)
def mat_rows(dn): return int(re.match(r"^<&?nalgebra::base::matrix::Matrix<f32, nalgebra::base::dimension::U(\d)", dn).group(1))
def mat_clone(an, fr, i, dn, args, G, st):
    put_matrix(an, st, args[0][1], matrix(an, st, args[1][1], mat_rows(dn)), geti(an, st, args[1][1], 24))
def mat_where(an, fr, i, dn, d, lo, hi, G):
    d = as_int(d); t = one(d, "the row that is inserted or removed")
    if t.op != "int": raise Unproved("a row that is not known is inserted or removed")
    if not lo <= t.args[0] <= hi: panic(an, fr, i, dn, G); return None
    return t.args[0]
def mat_insert(an, fr, i, dn, args, G, st):
    r = mat_rows(dn); m = matrix(an, st, args[1][1], r); k = mat_where(an, fr, i, dn, args[2][1], 0, r, G)
    if k is None: return D0
    put_matrix(an, st, args[0][1], m[:k] + [as_float(args[3][1], 32)] + m[k:], geti(an, st, args[1][1], 24))
def mat_remove(an, fr, i, dn, args, G, st):
    r = mat_rows(dn); m = matrix(an, st, args[1][1], r); k = mat_where(an, fr, i, dn, args[2][1], 0, r - 1, G)
    if k is None: return D0
    put_matrix(an, st, args[0][1], m[:k] + m[k + 1:], geti(an, st, args[1][1], 24))
def mat_mul(an, fr, i, dn, args, G, st):
    r = mat_rows(dn); m = matrix(an, st, args[2][1], r); s = []
    for k in range(r):
        x = leaf(FZERO)
        for l in range(r): x = fadd(x, fmul(getf(an, st, args[1][1], 4 * (r * l + k)), m[l]))
        s.append(x)
    put_matrix(an, st, args[0][1], s, geti(an, st, args[2][1], 24))
def mat_values(d, it):
    """Reads of the computed matrices in a value, as what they hold; `it` is the column that is read."""
    m = {}
    for l in leaves(D_(d)):
        for t in subterms(l):
            if t.op == "ldx" and t.args[0].op == "init" and t.args[0].args[0].op == "ld" and t.args[0].args[0].args[0].op == "mat":
                es = t.args[0].args[0].args[0].args
                for k, e in enumerate(es):
                    if t.args[1] is lin_add(lin_scale(it, 4 * len(es)), INT(4 * k)): m[t] = subst(unwrap(e), {COL: leaf(it)}, ("col", it.id))
    return subst(D_(d), m, ("mat", tuple(sorted(x.id for x in m)))) if m else D_(d)
MD = r"nalgebra::base::matrix::Matrix<f32, nalgebra::base::dimension::U\d, nalgebra::base::dimension::Dynamic, nalgebra::base::vec_storage::VecStorage<[^<>]*>>"
MATLIB = [(r"^<%s as core::clone::Clone>::clone$" % MD, mat_clone), (r"^<%s>::insert_fixed_rows::<nalgebra::base::dimension::U1>" % MD, mat_insert), (r"^<%s>::remove_fixed_rows::<nalgebra::base::dimension::U1>" % MD, mat_remove),
          (r"^<&?nalgebra::base::matrix::Matrix<f32, nalgebra::base::dimension::U4, nalgebra::base::dimension::U4, nalgebra::base::array_storage::ArrayStorage<[^<>]*>> as core::ops::arith::Mul<&?%s>>::mul$" % MD, mat_mul),
          (r"^core::ptr::(drop_glue|drop_in_place)::<%s" % MD, nothing)]

# ------------------------------------------------------------------ lists of anything (see lists.py)
def obj_new(an, fr, i, dn, args, G, st): seq_id(an, st, args[0][1], G)
def obj_push(an, fr, i, dn, args, G, st):
    v = args[0][1]; k = as_int(args[2][1]); n = one(k).args[0]
    set_event(an, fr, i, G, "list-push", [leaf(seq_handle(an, st, v)), an.load(st, args[1][1], n), leaf(INT(n))]); put(an, st, v, 16, 8, iadd(geti(an, st, v, 16), leaf(ONE)))
OBJLIB = [(r"^sa_list_new$", obj_new), (r"^sa_list_push$", obj_push)]
DROPLIB = [(r"^core::ptr::(drop_glue|drop_in_place)::<", nothing)]

# ------------------------------------------------------------------ reading: streams, texts and their fields, numbers in texts
READ_SLOT = {6: "read_to_end", 7: "read_to_string"}      # of the table of Read's methods (after drop, size and alignment)
def flag(t): return to_bool(leaf(t))
def res_err(an): an.nset = getattr(an, "nset", 0) + 1; return T("error", an.nset)
def reading(size=None):
    """The models of reading, for streams of any size or of the given one."""
    name = "^<indirect>$" if size is None else "^<indirect>$|^<indirect:%s>$" % re.sub(r"\W+", "-", show(size))
    return [(name, lambda an, fr, i, dn, args, G, st: stream_read(an, fr, i, dn, args, G, st, size))] + READLIB[1:]
def stream_read(an, fr, i, dn, args, G, st, size=None):
    """A method of `dyn Read`: everything that is left of the stream, or an error."""
    c = fr.val(("ptr",), i.extra); t = one(c, "the method called"); slot = None
    if t.op == "sub" and t.args[0].op == "init" and t.args[1] % 8 == 0: slot = t.args[1] // 8
    if slot not in READ_SLOT: return NotImplemented
    what = READ_SLOT[slot]; k = T("bytes-of", wrap(args[0][1]), T(what)); fail = T("read-fails", k); e = res_err(an); n = size or T("size", k); INT_ATOMS.add(n)
    set_event(an, fr, i, G, what, [args[0][1], leaf(t.args[0]), flag(fail), leaf(e)])
    buf = args[1][1]; put(an, st, buf, 0, 8, leaf(T("capacity", k))); put(an, st, buf, 8, 8, leaf(mk_ptr(k, ZERO))); put(an, st, buf, 16, 8, leaf(n))
    fr.env[i.res] = leaf(T("agg", wrap(ite(flag(fail), leaf(ONE), D0)), wrap(ite(flag(fail), leaf(e), leaf(n)))))
def str_key(p, n): return T("text", wrap(p), wrap(n))
def text_of(an, t):
    """The characters of a constant text."""
    b, o = ptr_parts(t)
    if b.op != "global" or o is not ZERO: return None
    m = re.search(r'c"((?:[^"\\\\]|\\\\[0-9A-Fa-f]{2})*)"', an.m.globals.get(b.args[0], "")); return None if not m else re.sub(r"\\\\([0-9A-Fa-f]{2})", lambda x: chr(int(x.group(1), 16)), m.group(1))
def str_split(an, fr, i, dn, args, G, st):
    out, p, n, sep = [d for _, d, _ in args[:4]]
    if dn.endswith("<char>"): s = one(as_int(sep)); s = chr(s.args[0]) if s.op == "int" else None
    elif len(args) == 5:
        k = one(as_int(args[4][1])); s = text_of(an, one(sep)); s = s[:k.args[0]] if s is not None and k.op == "int" else None
    else: s = None
    key = T("fields", str_key(p, n), T("separator", s if s is not None else wrap(sep))); cnt = T("size", key); INT_ATOMS.add(cnt)
    set_event(an, fr, i, G, "split", [leaf(key), p, n]); put(an, st, out, 0, 8, leaf(key)); put(an, st, out, 8, 8, D0)
def str_field(an, fr, i, dn, args, G, st):
    it = args[0][1]; key = one(as_int(get(an, st, it, 0, 8)), "which text is split"); k = geti(an, st, it, 8)
    if key.op != "fields": raise Unproved("fields of an unknown text")
    put(an, st, it, 8, 8, iadd(k, leaf(ONE))); more = ilt(k, leaf(T("size", key)))
    p, n = lift1(lambda t: leaf(mk_ptr(T("field", key), lin_scale(t, 16))), k), lift1(lambda t: leaf(T("field-len", key, t)), k)
    set_event(an, fr, i, G, "field", [leaf(key), k])
    fr.env[i.res] = ite(more, lift1(lambda x: lift1(lambda y: leaf(T("agg", x, y)), n), p), leaf(T("agg", ZERO, UNDEF)))
def parse(an, fr, i, dn, args, G, st):
    bits = int(re.search(r"f(\d\d)", dn).group(1)); a = [d for _, d, _ in args]
    if bits == 64: out, p, n = a
    else: p, n = a
    key = str_key(p, n); bad = flag(T("not-a-number", key)); v = leaf(T("number", key)); v = v if bits == 64 else f_un("fptrunc", v); set_event(an, fr, i, G, "parse", [p, n, leaf(INT(bits)), bad])
    if bits == 64: put(an, st, out, 0, 1, ite(bad, leaf(ONE), D0)); put(an, st, out, 8, 8, v)
    else: fr.env[i.res] = ite(bad, leaf(mk_cat([(ONE, 4), (UNDEF, 4)])), lift1(lambda t: leaf(mk_cat([(ZERO, 4), (t, 4)])), v))
def new_error(an, fr, i, dn, args, G, st):
    e = res_err(an); set_event(an, fr, i, G, "new-error", [leaf(e), as_int(args[0][1])]); fr.env[i.res] = leaf(e)
READLIB = [(r"^<indirect>$", stream_read), (r"^<str>::split::<(&str|char)>$", str_split), (r"^<core::str::iter::Split<(&str|char)> as core::iter::traits::iterator::Iterator>::next$", str_field), (r"^<f(32|64) as core::str::traits::FromStr>::from_str$", parse),
           (r"^<(std|core)::io::error::Error>::new::<", new_error)]
