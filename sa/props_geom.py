"""Boxes, points, cells, conversions and scalar helpers."""
from framework import *

HOW = ("Value-flow analysis of the compiler's intermediate representation of the listed functions of /repo (all callees included): every result is "
       "computed as a gated value over the inputs, joins keep the comparison they were gated by, and the result is compared with the required value in "
       "every consistent combination of comparison outcomes; arithmetic is that of the reals. ")

def res_ctx(*res, **kw): return Ctx(positive=[farg(r) if isinstance(r, str) else r for r in res], **kw)

@prop("G01", HOW + "Rule: cell coordinate i = round half away from zero((point_i - offset_i) / resolution_i), no other input used, never panics.")
def g01(P):
    def chk(key, root, a, code, point, offset, res, ctx):
        P.equal(key, root, code, toint(fun("round", fdiv(fsub(point, offset), res))), ctx, a.guard)
    a = P.use(analyse("ccp")); ctx = res_ctx("resolution")
    P.returns("scalar-returns", "ccp", a, ctx)
    chk("scalar", "ccp", a, a.result, farg("point"), farg("offset"), farg("resolution"), ctx)
    for n in DIMS:
        r = "cfp%d" % n; a = P.use(analyse(r)); ctx = res_ctx("resolution")
        P.returns("cell_from_point-%dd-returns" % n, r, a, ctx)
        for i in range(n): chk("cell_from_point-%dd-%s" % (n, AX[i]), r, a, outi(a, "out", 8 * i), fpt("point", i), fpt("offset", i), farg("resolution"), ctx)
        r = "cfpn%d" % n; a = P.use(analyse(r)); ctx = res_ctx(*[fpt("resolution", i) for i in range(n)])
        P.returns("cell_from_point_n-%dd-returns" % n, r, a, ctx)
        for i in range(n): chk("cell_from_point_n-%dd-%s" % (n, AX[i]), r, a, outi(a, "out", 8 * i), fpt("point", i), fpt("offset", i), fpt("resolution", i), ctx)
        r = "m_cfp%d" % n; a = P.use(analyse(r)); bo, _ = mapfield(n, "bounds"); ro, _ = mapfield(n, "resolution"); res = inp("map", ro, 4); ctx = res_ctx(res)
        P.returns("map-cell_from_point-%dd-returns" % n, r, a, ctx)
        for i in range(n): chk("map-cell_from_point-%dd-%s" % (n, AX[i]), r, a, outi(a, "out", 8 * i), fpt("point", i), fpt("map", i, bo), res, ctx)

@prop("G02", HOW + "Rule: centre coordinate i = offset_i + cell_i * resolution_i, no other input used, never panics; substituting that centre into the point-to-cell value gives the cell back.")
def g02(P):
    def chk(key, root, a, code, cell, offset, res, ctx):
        P.equal(key, root, code, fadd(fmul(tof(cell), res), offset), ctx, a.guard)
    def back(key, root, to, frm, pt, off, res, cell, ctx, ren=()):
        """to: cell value as a function of the point, frm: centre as a function of the cell."""
        m = {pt: frm}; mid = ("back", pt.id, frm.id)
        P.equal(key, root, subst(to, m, mid), leaf(cell), ctx)
    a = P.use(analyse("pcc")); b = P.use(analyse("ccp")); ctx = res_ctx("resolution"); c = iarg("cell")
    P.returns("scalar-returns", "pcc", a, ctx)
    chk("scalar", "pcc", a, a.result, c, farg("offset"), farg("resolution"), ctx)
    back("scalar-back", "pcc", b.result, a.result, farg("point"), None, None, c, ctx)
    for n in DIMS:
        for root, inv, nm in (("pfc%d", "cfp%d", "point_from_cell"), ("pfcn%d", "cfpn%d", "point_from_cell_n"), ("m_pfc%d", "m_cfp%d", "map-point_from_cell")):
            r = root % n; a = P.use(analyse(r)); b = P.use(analyse(inv % n))
            if root == "m_pfc%d":
                bo, _ = mapfield(n, "bounds"); res = [inp("map", mapfield(n, "resolution")[0], 4)] * n; off = [fpt("map", i, bo) for i in range(n)]
            else:
                off = [fpt("offset", i) for i in range(n)]
                res = [fpt("resolution", i) if root == "pfcn%d" else farg("resolution") for i in range(n)]
            ctx = res_ctx(*res)
            P.returns("%s-%dd-returns" % (nm, n), r, a, ctx)
            for i in range(n):
                o = outf(a, "out", 4 * i)
                chk("%s-%dd-%s" % (nm, n, AX[i]), r, a, o, cel("cell", i), off[i], res[i], ctx)
                back("%s-%dd-%s-back" % (nm, n, AX[i]), r, outi(b, "out", 8 * i), o, fpt("point", i), None, None, cel("cell", i), ctx)

@prop("G03", HOW + "Not-a-number outcomes are kept apart. Rule: the constructor returns exactly when min_i <= max_i on every axis (ordered comparison), panics otherwise, and the result holds both corners unchanged; empty() is all zeros.")
def g03(P):
    for n in DIMS:
        for root, sz, get, le, nm, nan in (("b_new%d", 4, fpt, fle, "Bounds", True), ("cb_new%d", 8, cel, ile, "CellBounds", False)):
            r = root % n; a = P.use(analyse(r, nan=nan)); ctx = Ctx()
            spec = all_([le(get("min", i), get("max", i)) for i in range(n)])
            P.same_cond("%s-%dd-accepts" % (nm, n), r, a.guard, spec, ctx, what="accepting exactly the ordered corners")
            P.require("%s-%dd-panics" % (nm, n), r, any(e.kind == "panic" for e in a.events), "inverted corners do not panic")
            for k, arg in ((0, "min"), (1, "max")):
                for i in range(n):
                    o = outf(a, "out", sz * (k * n + i)) if sz == 4 else outi(a, "out", sz * (k * n + i))
                    P.equal("%s-%dd-%s-%s" % (nm, n, arg, AX[i]), r, o, leaf(get(arg, i)), ctx, a.guard)
        for root, sz, nm in (("b_empty%d", 4, "Bounds"), ("cb_empty%d", 8, "CellBounds")):
            r = root % n; a = P.use(analyse(r)); ctx = Ctx()
            P.returns("%s-%dd-empty-returns" % (nm, n), r, a, ctx)
            for i in range(2 * n):
                P.equal("%s-%dd-empty-%d" % (nm, n, i), r, outf(a, "out", sz * i) if sz == 4 else outi(a, "out", sz * i), leaf(FZERO) if sz == 4 else D0, ctx, a.guard)

def box(arg, n, base=0): return [fpt(arg, i, base) for i in range(n)], [fpt(arg, n + i, base) for i in range(n)]
def ordered(lo, hi): return [(l, "<=", h) for l, h in zip(lo, hi)]
def is_empty(lo, hi): return all_([feq(x, FZERO) for x in lo + hi])

@prop("G04", HOW + "Rule: for well-formed boxes each corner coordinate is the minimum / maximum of the two, except that an all-zero receiver yields the other box; both inputs keep their bytes; never panics.")
def g04(P):
    for n in DIMS:
        r = "b_encl%d" % n; a = P.use(analyse(r))
        al, ah = box("a", n); bl, bh = box("b", n); ctx = Ctx(facts=ordered(al, ah) + ordered(bl, bh))
        P.returns("%dd-returns" % n, r, a, ctx); e = is_empty(al, ah)
        for i in range(n):
            P.equal("%dd-min-%s" % (n, AX[i]), r, outf(a, "out", 4 * i), ite(e, leaf(bl[i]), fmin(bl[i], al[i])), ctx, a.guard)
            P.equal("%dd-max-%s" % (n, AX[i]), r, outf(a, "out", 4 * (n + i)), ite(e, leaf(bh[i]), fmax(bh[i], ah[i])), ctx, a.guard)
        P.untouched("%dd" % n, r, a, ["a", "b"])

@prop("G05", HOW + "Tolerances of at most 1e-6 count as rounding noise (zero). Rule: if the intersection is non-degenerate on every axis the result is its corners (larger minimum, smaller maximum), otherwise all zeros; an extent of rounding noise on one axis is no extent; never panics.")
def g05(P):
    for n in DIMS:
        r = "b_over%d" % n; a = P.use(analyse(r))
        al, ah = box("a", n); bl, bh = box("b", n); ctx = Ctx(exact=True, facts=ordered(al, ah) + ordered(bl, bh))
        P.returns("%dd-returns" % n, r, a, ctx)
        lo = [fmax(al[i], bl[i]) for i in range(n)]; hi = [fmin(ah[i], bh[i]) for i in range(n)]
        ov = all_([flt(l, h) for l, h in zip(lo, hi)])
        for i in range(n):
            P.equal("%dd-min-%s" % (n, AX[i]), r, outf(a, "out", 4 * i), ite(ov, lo[i], leaf(FZERO)), ctx, a.guard)
            P.equal("%dd-max-%s" % (n, AX[i]), r, outf(a, "out", 4 * (n + i)), ite(ov, hi[i], leaf(FZERO)), ctx, a.guard)
        # an extent of rounding noise is no extent
        for i in range(n):
            unit = {t: FC(w, 32) for k in range(n) if k != i for t, w in ((al[k], 0.0), (bl[k], 0.0), (ah[k], 1.0), (bh[k], 1.0))}      # the other axes overlap
            outs = [subst(outf(a, "out", 4 * k), unit, ("unit", n, i)) for k in range(2 * n)]
            for x, y in ((al, bl), (bl, al)):
                for u, v in ((ah, bh), (bh, ah)):
                    for pos in (True, False):
                        lo, hi = x[i], u[i]
                        f = [(al[i], "<=", ah[i]), (bl[i], "<=", bh[i]), (lo, ">=", y[i]), (hi, "<=", v[i]), (lo, "<", hi), (lo, ">", FZERO) if pos else (hi, "<", FZERO)]
                        f.append((hi, "<=", T("fmul", lo, FC(1 + 1e-7, 64))) if pos else (T("fmul", hi, FC(1 + 1e-7, 64)), "<=", lo))
                        P.holds("%dd-noise-%s-%s%s-%s" % (n, AX[i], "a" if x is al else "b", "a" if u is ah else "b", "pos" if pos else "neg"), r,
                                all_([feq(o, C(0)) for o in outs]), Ctx(facts=f), D1, what="an overlap whose extent is rounding noise is empty")
        P.untouched("%dd" % n, r, a, ["a", "b"])

def noisy(q, up, pos, res, corners):
    """The quotient q misses the integer next to it, which is not zero, by one part in ten million at most."""
    m = T("round", q); k = T("fmul", m, FC(1 + 1e-7, 64)); out = up == pos
    return Ctx(positive=[res], scale=[(x, res) for x in corners],
               facts=[(m, ">=" if pos else "<=", FC(1.0 if pos else -1.0, 32)), (q, ">" if up else "<", m)] + ([(q, "<=" if pos else ">=", k)] if out else [(T("fmul", q, FC(1 + 1e-7, 64)), ">=" if pos else "<=", m)]))

@prop("G06", HOW + "Tolerances of at most 1e-6 count as rounding noise (zero). Rule: min_i = resolution * floor(min_i / resolution), max_i = resolution * ceil(max_i / resolution), corners on a grid line unchanged; with expand exactly the maxima on a grid line gain one resolution; a quotient that misses a non-zero integer by at most 1e-7 (relative) counts as that integer; a well-formed box never panics.")
def g06(P):
    for n in DIMS:
        r = "b_disc%d" % n; a = P.use(analyse(r)); res = farg("resolution")
        lo, hi = box("b", n); ctx = Ctx(exact=True, positive=[res], scale=[(x, res) for x in lo + hi], facts=ordered(lo, hi)); g = a.guard
        ex = a.inputs["expand"][1]
        for i in range(n):
            q = fdiv(lo[i], res)
            P.equal("%dd-min-%s" % (n, AX[i]), r, outf(a, "out", 4 * i), fmul(fun("floor", q), res), ctx, g)
            q = fdiv(hi[i], res); up = fmul(fun("ceil", q), res)
            P.equal("%dd-max-%s" % (n, AX[i]), r, outf(a, "out", 4 * (n + i)), ite(dand(ex, feq(q, fun("round", q))), fadd(hi[i], res), up), ctx, g)
        P.holds("%dd-returns" % n, r, g, ctx, what="a well-formed box is accepted")
        # a corner is on a grid line if the quotient misses an integer by rounding noise only
        for i in range(n):
            for nm, x, o in (("min", lo[i], outf(a, "out", 4 * i)), ("max", hi[i], outf(a, "out", 4 * (n + i)))):
                q = T("fdiv", x, res); 
                for up in (True, False):
                    for pos in (True, False):
                        P.equal("%dd-%s-%s-noise-%s-%s" % (n, nm, AX[i], "above" if up else "below", "pos" if pos else "neg"), r, o, ite(ex, fadd(x, res), leaf(x)) if nm == "max" else leaf(x), noisy(q, up, pos, res, lo + hi), D1)
        P.untouched("%dd" % n, r, a, ["b"])

@prop("G07", HOW + "Rule: with coord = q * tile + r (truncated division), each rounded corner is an integer multiple of the tile size in every case, 0 <= min - rounded min < tile and 0 <= rounded max - max < tile; never panics for a positive tile size.")
def g07(P):
    for n in DIMS:
        r = "cb_disc%d" % n; a = P.use(analyse(r)); tile = iarg("tile_size")
        ctx = Ctx(positive=[tile], ints=[tile])
        P.returns("%dd-returns" % n, r, a, ctx)
        for k, nm in ((0, "min"), (1, "max")):
            for i in range(n):
                c = cel("cb", k * n + i); o = outi(a, "out", 8 * (k * n + i)); key = "%dd-%s-%s" % (n, nm, AX[i])
                d = isub(leaf(c), o) if nm == "min" else isub(o, leaf(c))
                P.holds(key + "-contains", r, ile(D0, d), ctx, a.guard, what="the rounded %s contains the original" % nm)
                P.holds(key + "-tight", r, ilt(d, leaf(tile)), ctx, a.guard, what="the rounded %s moves by less than a tile" % nm)
                def run():
                    bad = []
                    def f(facts, path, ts):
                        if ts[0] is ZERO or bad: return
                        if not multiple(ctx, facts, ts[1], tile): bad.append((path, ts[1]))
                    ctx.each([a.guard, o], f, stop=lambda ds: ds[0] is D0 or bad)
                    if bad: P.bad(key + "-aligned", P.site(r), "%s is not a multiple of the tile size when %s" % (show(bad[0][1]), show_path(bad[0][0])))
                    else: P.ok(key + "-aligned")
                P.guarded(key + "-aligned", r, run)
def multiple(ctx, facts, t, m):
    """Is the integer term t a multiple of the positive integer atom m?"""
    p = norm(t)
    if p.d.const() != 1: return False
    p = p.n
    for _ in range(6):
        if all(v.denominator == 1 and any(a is m for a, e in k) for k, v in p.m.items()): return True
        # an atom that is divided by m somewhere: replace it by quotient * m + remainder
        ch = False
        rems = set()
        for q in [q for q, _ in facts] + [p]:
            rems |= {a for a in q.atoms() if a.op == "fn" and a.args[0] in ("srem", "sdiv") and same_rat(arith._ratof[a.args[2]], norm(m))}
        for a in rems:
            x = arith._ratof[a.args[1]]; y = arith._ratof[a.args[2]]
            rt = fn_atom("srem", x, y); qt = fn_atom("sdiv", x, y)
            if x.n.m and len(x.n.m) == 1:
                (k, v), = x.n.m.items()
                if v == 1 and len(k) == 1 and k[0][1] == 1 and k[0][0] in p.atoms():
                    p = psub(p, k[0][0], patom(qt) * patom(m) + patom(rt)); ch = True
            if rt in p.atoms() and not ctx.feasible(list(facts) + [(patom(rt), "<")]) and not ctx.feasible(list(facts) + [(patom(rt), ">")]): p = psub(p, rt, P0); ch = True
        if not ch: return False
    return False
def same_rat(a, b): return not (a.n * b.d - b.n * a.d).m
def psub(p, atom, by):
    r = P0
    for k, v in p.m.items():
        e = dict(k).get(atom, 0)
        t = Poly({tuple(x for x in k if x[0] is not atom): v})
        for _ in range(e): t = t * by
        r = r + t
    return r

@prop("G08", HOW + "Rule: corner_i of the point box = cell_i * resolution_i; from a size and offset: offset_i * resolution_i and (size_i + offset_i) * resolution_i; corner_i of the cell box = round(corner_i / resolution), and all zeros for the empty box; never panics.")
def g08(P):
    for n in DIMS:
        for root, rn in (("b_fcb%d", False), ("b_fcbn%d", True), ("b_fsc%d", False), ("b_fscn%d", True)):
            r = root % n; a = P.use(analyse(r)); res = [fpt("resolution", i) if rn else farg("resolution") for i in range(n)]; ctx = res_ctx(*res)
            nm = {"b_fcb%d": "from_cell_bounds", "b_fcbn%d": "from_cell_bounds_n", "b_fsc%d": "from_size_cells", "b_fscn%d": "from_size_cells_n"}[root]
            P.returns("%s-%dd-returns" % (nm, n), r, a, ctx)
            for i in range(n):
                if "fsc" in root: lo, hi = leaf(cel("offset", i)), iadd(leaf(cel("size", i)), leaf(cel("offset", i)))
                else: lo, hi = leaf(cel("cb", i)), leaf(cel("cb", n + i))
                P.equal("%s-%dd-min-%s" % (nm, n, AX[i]), r, outf(a, "out", 4 * i), fmul(tof(lo), res[i]), ctx, a.guard)
                P.equal("%s-%dd-max-%s" % (nm, n, AX[i]), r, outf(a, "out", 4 * (n + i)), fmul(tof(hi), res[i]), ctx, a.guard)
        r = "cb_fb%d" % n; a = P.use(analyse(r)); res = farg("resolution"); ctx = res_ctx(res); lo, hi = box("b", n); e = is_empty(lo, hi)
        P.returns("from_bounds-%dd-returns" % n, r, a, ctx)
        for k, c in enumerate(lo + hi):
            P.equal("from_bounds-%dd-%s-%s" % (n, "min" if k < n else "max", AX[k % n]), r, outi(a, "out", 8 * k), ite(e, D0, toint(fun("round", fdiv(c, res)))), ctx, a.guard)

@prop("G12", HOW + "Rule: equal exactly when every coordinate of both corners is within the caller's tolerance (absolute), or equal, or within the absolute or relative tolerance (relative); the defaults are the single-precision machine epsilon.")
def g12(P):
    for n in DIMS:
        for root in ("b_abs%d", "b_rel%d"):
            r = root % n; a = P.use(analyse(r)); ctx = Ctx(nonneg=[farg("eps")] + ([farg("rel")] if "rel" in root else []))
            cs = []
            for i in range(2 * n):
                x, y = inp("a", 4 * i, 4), inp("b", 4 * i, 4); d = fun("fabs", fsub(x, y))
                c = fle(d, farg("eps"))
                if "rel" in root: c = dor(c, fle(d, fmul(fmax(fun("fabs", x), fun("fabs", y)), farg("rel"))))
                cs.append(c)
            P.returns("%s-%dd-returns" % (root[2:5], n), r, a, ctx)
            # coordinate by coordinate: the conjunction is compared as a whole, cases are split per coordinate
            P.same_cond("%s-%dd" % (root[2:5], n), r, to_bool(a.result), all_(cs), ctx, what="equality of the boxes being that of their corners")
        for root, nm in (("b_eps%d", "epsilon"), ("b_mrel%d", "max_relative")):
            r = root % n; a = P.use(analyse(r))
            P.equal("default-%s-%dd" % (nm, n), r, as_float(a.result, 32), leaf(FC(2.0 ** -23, 32)), Ctx(), a.guard)

@prop("S01", HOW + "Rule: log-odds = ln(p / (1 - p)); probability = 1 - 1 / (1 + exp(l)); both compositions simplify to the identity.")
def s01(P):
    a = P.use(analyse("s_logodds")); b = P.use(analyse("s_prob")); p, l = farg("probability"), farg("logodds"); ctx = Ctx()
    P.returns("logodds-returns", "s_logodds", a, ctx); P.returns("probability-returns", "s_prob", b, ctx)
    one = C(1.0)
    P.equal("logodds", "s_logodds", a.result, leaf(T("ln", fdiv(p, fsub(one, p)).term)), ctx, a.guard)
    P.equal("probability", "s_prob", b.result, fsub(one, fdiv(one, fadd(one, T("exp", l)))), ctx, b.guard)
    P.equal("probability-of-logodds", "s_prob", subst(b.result, {l: a.result}, ("s01a", a.result.id)), leaf(p), ctx)
    P.equal("logodds-of-probability", "s_logodds", subst(a.result, {p: b.result}, ("s01b", b.result.id)), leaf(l), ctx)

@prop("S02", HOW + "Infinities are not excluded, so the result must be one of three constants in every case. Rule: 0 / 1 / -1 when the number is equal to / above / below zero, for every coordinate in place.")
def s02(P):
    def chk(key, root, code, x, g):
        spec = ite(feq(x, FZERO), leaf(FZERO), ite(flt(FZERO, x), leaf(C(1.0)), leaf(C(-1.0))))
        consts = all(t.op in ("fc", "int") for t in leaves(restrict(code, g)))
        P.require(key + "-constant", root, consts, "a sign is computed by arithmetic on the value, which is not a sign for an infinite value: %s" % show(code, 5))
        P.equal(key, root, code, spec, Ctx(), g)
    a = P.use(analyse("s_signum", finite=False)); P.returns("scalar-returns", "s_signum", a, Ctx())
    chk("scalar", "s_signum", as_float(a.result, 32), farg("value"), a.guard)
    for n in DIMS:
        r = "signum%d" % n; a = P.use(analyse(r, finite=False)); P.returns("vector-%dd-returns" % n, r, a, Ctx())
        for i in range(n): chk("vector-%dd-%s" % (n, AX[i]), r, outf(a, "out", 4 * i), fpt("v", i), a.guard)

@prop("G13", HOW + "Rule: the value a literal macro builds from symbolic operands has operand i at coordinate i (first list: minimum, second: maximum); a copy of a box has the same corners; two boxes are equal exactly when every coordinate of both corners is.")
def g13(P):
    for n in DIMS:
        for m, size, double in (("point", 4, False), ("cell", 8, False), ("bounds", 4, True), ("cell_bounds", 8, True)):
            r = "mac_%s%d" % (m, n); a = P.use(analyse(r)); ctx = Ctx(); P.returns("%s%d-returns" % (m, n), r, a, ctx)
            names = list("xyz"[:n]) + (list("uvw"[:n]) if double else [])
            for i, x in enumerate(names):
                P.equal("%s%d-%s" % (m, n, x), r, outf(a, "out", 4 * i) if size == 4 else outi(a, "out", 8 * i), leaf(farg(x) if size == 4 else iarg(x)), ctx, a.guard)
        for b, size in (("b", 4), ("cb", 8)):
            r = "%s_clone%d" % (b, n); a = P.use(analyse(r)); ctx = Ctx(); P.returns(r + "-returns", r, a, ctx); P.untouched(r, r, a, ["a"])
            for i in range(2 * n): P.equal("%s-%d" % (r, i), r, outf(a, "out", 4 * i) if size == 4 else outi(a, "out", 8 * i), leaf(inp("a", size * i, size)), ctx, a.guard)
            r = ("b_peq%d" if b == "b" else "cb_eq%d") % n; a = P.use(analyse(r)); ctx = Ctx(); P.returns(r + "-returns", r, a, ctx); A, B_ = list(a.inputs)[:2]; P.untouched(r, r, a, [A, B_])
            cs = []
            for i in range(2 * n):
                x, y = inp(A, size * i, size), inp(B_, size * i, size)
                if size == 8: INT_ATOMS.add(x); INT_ATOMS.add(y)
                cs.append(feq(x, y) if size == 4 else ieq(leaf(x), leaf(y)))
            P.same_cond(r, r, to_bool(a.result), all_(cs), ctx, what="equality of two boxes being that of all coordinates")
