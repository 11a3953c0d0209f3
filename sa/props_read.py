"""The dataset readers: pose records, scans, directories."""
from sweep import *
from props_geom import HOW
from props_cloud import named, plain, over_by, cloud_fields
import models as MM, lists
import math, os
import extract as EX
from invar import agree

MESSAGE = r"^alloc::fmt::format"        # making the text of an error
EULER = r"^<nalgebra::base::unit::Unit<nalgebra::geometry::quaternion::Quaternion<f32>>>::from_euler_angles$"
def source(P, key, root, a, want):
    """The one reading of the stream: what it holds, whether reading fails and how long it is."""
    es = named(a, "read_to_string", "read_to_end")
    P.require(key + "-read-once", root, len(es) == 1 and es[0].guard is D1 and es[0].loops == (), "the stream is read in %d places, or not always" % len(es))
    if len(es) != 1: raise Unproved("the stream is not read exactly once")
    e = es[0]; P.require(key + "-stream", root, e.name == want and e.args[0] is leaf(mk_ptr(T("arg", "input.0"), ZERO)) and T("arg", "input.1") in set(subterms(e.args[1])), "%s of %s where %s of the stream given is required" % (e.name, show(e.args[0]), want))
    K = T("bytes-of", wrap(e.args[0]), T(e.name)); return K, flag(T("read-fails", K)), T("size", K)
def flag(t): return to_bool(leaf(t))
def dany(cs):
    r = D0
    for c in cs: r = dor(r, c)
    return r

class Record:
    """Reading a pose record, in terms of the fields of its text: number(k) of field k, not-a-number(k), and how many fields there are."""
    def __init__(self, P, key):
        self.P, self.key, self.root = P, key, "k_oxt_read"; root = self.root
        a = self.a = P.use(MM.modular(root, MM.OBJLIB, MM.DROPLIB, MM.READLIB, opaque=[EULER], rewrite=lists.collect)); ctx = self.ctx = Ctx(); S = self.S = Sweep(P, key, root, a, ctx)
        K, self.fails, size = source(P, key, root, a, "read_to_string"); ctx.assume(size, ">=", ZERO); self.K = K
        sp = named(a, "split"); P.require(key + "-split-once", root, len(sp) == 1 and not sp[0].loops, "the text is split in %d places" % len(sp))
        if len(sp) != 1: raise Unproved("the text is not split exactly once")
        self.fields = plain(sp[0].args[0]); want = T("fields", T("text", mk_ptr(K, ZERO), size), T("separator", " "))
        P.require(key + "-fields", root, self.fields is want, "what is split is %s" % show(self.fields, 6))
        self.count = S.nonneg(T("size", self.fields), 16); ctx.assume(self.count, ">=", ONE)        # splitting gives at least one field
        # lists of fields: element k of the list is field k
        self.pushed = {}; end = D1
        for e in named(a, "list-push"):
            h = plain(e.args[0]); P.require("%s-list-%d" % (key, len(self.pushed)), root, h not in self.pushed and len(e.loops) == 1, "fields are put into a list in several ways")
            vis = S.once("push-%d" % len(self.pushed), e, [self.count], outer=dnot(self.fails), what="putting a field into the list"); self.pushed[h] = e
            end = dand(end, dor(self.fails, over_by(S, e.loops[0], self.count, dnot(self.fails))))
        loops = {e.loops[0] for e in self.pushed.values() if e.loops}; P.require(key + "-loops", root, all(L.n in loops for L in a.loops), "there are loops that do something else than put fields into a list")
        self.end = end; self.m = {}
        for e in a.events:
            for d in list(e.args or []) + [e.guard]: self.see(d)
        for s, d in a.state.mem[T("arg", "_0")].cells.values(): self.see(d)
        self.see(a.guard); self.bad = dor(dor(self.fails, ilt(leaf(self.count), leaf(INT(6)))), dany(self.nan(k) for k in range(6)))
        self.well = dand(end, dnot(self.bad)); self.tag = self.v(outi(a, "_0", 0))
        # the reference position given
        t = inp("gps_origin", 0, 8); S.nonneg(t); ctx.assume(t, "<=", ONE); self.given = ieq(leaf(t), leaf(ONE)); self.m[T("low", t, 1)] = leaf(t); self.origin = [leaf(inp("gps_origin", 8 + 8 * i, 8)) for i in range(3)]
    def nan(self, k): return flag(T("not-a-number", k))
    def num(self, k): return leaf(T("number", k))
    def see(self, d):
        """Numbers and tests of numbers as those of a field."""
        if not isinstance(d, (T, D)): return
        for t in subterms(d):
            if t.op in ("number", "not-a-number") and isinstance(t.args[0], T) and t.args[0].op == "text" and t not in self.m:
                k = self.field(t.args[0])
                if k is not None: self.m[t] = leaf(T(t.op, k))
            if t.op == "cos" and t not in self.m:
                r = norm(t.args[0]); c = r.d.const()
                if c and len(r.n.m) == 1:
                    (mo, v), = r.n.m.items()
                    if mo == ((inp("gps_origin", 8, 8), 1),) and abs(float(v / c) / (math.pi / 180) - 1) < 1e-9: self.m[t] = leaf(T("cosine-of-reference-latitude"))
    def field(self, t):
        p, n = [plain(unwrap(x)) for x in t.args]
        r = [self.element(p, 0), self.element(n, 8)]
        if r[0] is None or r[0] is not r[1]: return None
        return r[0]
    def element(self, t, part):
        """Which field a pointer (part 0) or length (part 8) belongs to."""
        if t.op == "sub" and t.args[0].op == "init" and t.args[0].args[0].op == "ld" and t.args[0].args[0].args[0] in self.pushed and t.args[2] == 8 and t.args[1] % 16 == part:
            e = self.pushed[t.args[0].args[0].args[0]]; v = subst(e.args[1], {self.S.it(e.loops[0]): INT(t.args[1] // 16)}, ("element", e.loops[0], t.args[1] // 16)); t = plain(t_slice(v, part))
        if part == 0 and t.op == "ptr" and t.args[0].op == "field" and t.args[0].args[0] is self.fields and t.args[1].op == "int": return t.args[1].args[0] // 16
        if part == 8 and t.op == "field-len" and t.args[0] is self.fields and t.args[1].op == "int": return t.args[1].args[0]
        return None
    def v(self, d): return subst(D_(d), self.m, ("record", tuple(sorted((t.id, x.id) for t, x in self.m.items()))))
def t_slice(d, off):
    def f(t): return leaf(t_extract(t, off, 8))
    return apply("slice%d" % off, f, d)

K_HOW = HOW + "Reading everything from a stream, splitting a text at a separator, parsing a number and making an error are operations of their own, used through their contracts; collecting into a list is analysed as repeated push. "
@prop("K01", K_HOW + "Rule: the stream is read exactly once, as text; the text is split at single spaces; the result is an error exactly when reading fails, or there are fewer than six fields, or one of the first six is not a number; no path panics, whatever the text holds.")
def k01(P): P.guarded("record", "k_oxt_read", lambda: record_errors(P))
def record_errors(P):
    R = Record(P, "record"); a, ctx, root = R.a, R.ctx, R.root
    P.holds("record-returns", root, R.v(a.guard), ctx, R.end, what="reading a record returns normally")
    for k, e in enumerate(panics(a)): P.holds("record-panic-%d" % k, root, dnot(R.v(e.guard)), ctx, R.end, what="reading a record never panics (%s)" % e.name)
    err = ieq(R.tag, leaf(ONE)); P.holds("record-malformed", root, err, ctx, dand(R.end, R.bad), what="a record that cannot be read, is too short or has something else than numbers in its first six fields gives an error")
    P.holds("record-well-formed", root, ieq(R.tag, D0), ctx, R.well, what="a record with six numbers gives a pose")
    cs = [e for e in calls(a) if not re.search(EULER, e.name) and not re.search(MESSAGE, e.name)]; P.require("record-nothing-else", root, not cs, "something else is called: " + "; ".join(e.name for e in cs)[:300])

TUP = "(nalgebra::geometry::isometry::Isometry<f32, nalgebra::base::dimension::U3, nalgebra::base::unit::Unit<nalgebra::geometry::quaternion::Quaternion<f32>>>, nalgebra::geometry::translation::Translation<f64, nalgebra::base::dimension::U3>)"
def pose_layout():
    """Offsets in the result of reading a record: rotation, translation, reference position."""
    L = layout(); t = L.fields(TUP); f = L.fields(TUP[len("(nalgebra::geometry::isometry::"):].split(", nalgebra::geometry::translation")[0]); p = 8 + t["__0"][0]
    return p + f["rotation"][0], p + f["translation"][0], 8 + t["__1"][0]
@prop("K05", K_HOW + "Rule: when no reference is given, the translation is zero and the position returned is that of the first three fields; when one is given, the very same is returned and the translation depends on the differences to it only (K06). In read_from_dir, reading a file is an operation of its own; the reference handed to it is none in the first iteration and afterwards always the one the previous reading returned.")
def k05(P):
    P.guarded("reference", "k_oxt_read", lambda: reference(P)); P.guarded("reference-directory", "k_oxt_dir", lambda: directory_reference(P))
def reference(P):
    R = Record(P, "reference"); a, ctx, root = R.a, R.ctx, R.root; ro, tr, ref = pose_layout()
    for i in range(3):
        P.equal("reference-at-origin-%s" % AX[i], root, R.v(as_float(out(a, "_0", tr + 4 * i, 4), 32)), leaf(FZERO), ctx, dand(R.well, dnot(R.given)), what="the translation along %s without a reference" % AX[i])
        P.equal("reference-own-%d" % i, root, R.v(as_float(out(a, "_0", ref + 8 * i, 8), 64)), R.num(i), ctx, dand(R.well, dnot(R.given)), what="part %d of the position returned as reference" % i)
        P.equal("reference-kept-%d" % i, root, R.v(as_float(out(a, "_0", ref + 8 * i, 8), 64)), R.origin[i], ctx, dand(R.well, R.given), what="part %d of the reference returned" % i)
        P.equal("reference-same-%s" % AX[i], root, subst(R.v(as_float(out(a, "_0", tr + 4 * i, 4), 32)), {inp("gps_origin", 8 + 8 * j, 8): T("number", j) for j in range(3)}, ("same-place",)), leaf(FZERO), ctx, dand(R.well, R.given), what="the translation along %s of a record at the reference position" % AX[i])
@prop("K06", K_HOW + "Rule: with a reference, the translation is, in exact arithmetic, ((lon - lon0) * 40075160 * cos(lat0 * pi / 180) / 360, (lat - lat0) * 40008000 / 360, alt - alt0), lat, lon, alt being fields 0, 1, 2.")
def k06(P): P.guarded("metres", "k_oxt_read", lambda: metres(P))
def metres(P):
    R = Record(P, "metres"); a, ctx, root = R.a, R.ctx, R.root; _, tr, _ = pose_layout(); d = [fsub(R.num(i), R.origin[i]) for i in range(3)]; c = lambda x: FC(float(x), 64)
    want = [fdiv(fmul(d[1], fmul(c(40075160), T("cosine-of-reference-latitude"))), c(360)), fdiv(fmul(d[0], c(40008000)), c(360)), d[2]]
    for i in range(3): P.equal("metres-" + ("east", "north", "up")[i], root, R.v(as_float(out(a, "_0", tr + 4 * i, 4), 32)), want[i], ctx, dand(R.well, R.given), what="the translation " + ("east", "north", "up")[i])
@prop("K07", K_HOW + "Making a rotation of Euler angles is an operation of its own (nalgebra's, taking roll, pitch and yaw). Rule: with and without a reference, the rotation of the pose is the one made of fields 3, 4 and 5 in this order; the position returned or compared with the reference is made of fields 0, 1 and 2, as latitude, longitude and altitude (K05, K06 give the exact values, which contain no other field).")
def k07(P): P.guarded("fields", "k_oxt_read", lambda: field_roles(P))
def field_roles(P):
    R = Record(P, "fields"); a, ctx, root = R.a, R.ctx, R.root; ro, tr, ref = pose_layout(); es = calls(a, EULER)
    P.require("fields-rotations", root, bool(es) and not any(e.loops for e in es), "no rotation is made of Euler angles")
    for j, e in enumerate(es):
        g = dand(R.well, R.v(e.guard))
        for i in range(3): P.equal("fields-angle-%s-%d" % (("roll", "pitch", "yaw")[i], j), root, R.v(e.args[-3 + i]), f_un("fptrunc", R.num(3 + i)), ctx, g, what=("roll", "pitch", "yaw")[i])
        for o in range(0, 16, 8):
            P.equal("fields-rotation-%d-%d" % (o, j), root, R.v(outi(a, "_0", ro + o)), R.v(leaf(T("sub", T("out", e.term, 0), o, 8))), ctx, g, what="the orientation of the pose")
    P.holds("fields-always", root, dany(R.v(e.guard) for e in es), ctx, R.well, what="a rotation is made of the angles")
    for given in (True, False):         # the position does not change when another field does
        for i in range(3):
            x = R.v(as_float(out(a, "_0", tr + 4 * i, 4), 32)) if given else R.v(as_float(out(a, "_0", ref + 8 * i, 8), 64)); g = dand(R.well, R.given if given else dnot(R.given)); used = (1, 0, 2)[i] if given else i
            m = {t: T("another", t.args[0]) for l in leaves(x) for t in subterms(l) if t.op == "number" and t.args[0] != used}
            if m: P.equal("fields-%s-%d" % ("moved" if given else "own", i), root, subst(x, m, ("others", tuple(sorted((t.id, y.id) for t, y in m.items())))), x, ctx, g, what="part %d of the position when fields other than %d change" % (i, used))
            else: P.require("fields-%s-%d" % ("moved" if given else "own", i), root, True, "")

# ------------------------------------------------------------------ scans
@prop("K02", K_HOW + "The analysis substitutes 16*M + r for the number of bytes read. Rule: for every r in 1..15 every M gives an error and no panic; for r = 0 the loop that fills the list passes over exactly 4*M numbers or M groups of them, and in every group of four pushes exactly the numbers at bytes 16*k, 16*k+4 and 16*k+8 of the stream, in this order, onto an empty list that becomes the columns of the result, whose number of columns is M and whose length is 3*M (carried counters are summed up over a group); no path panics; an error of the stream gives an error.")
def k02(P): P.guarded("scan", "k_pcr_read", lambda: scan(P))
def scan(P):
    root = "k_pcr_read"; key = "scan"; a = P.use(MM.modular(root, MM.NUMLIB, MM.OBJLIB, MM.DROPLIB, MM.READLIB, rewrite=lists.collect))
    K, fails, size = source(P, key, root, a, "read_to_end"); M = T("points"); INT_ATOMS.add(M)
    cs = [e for e in calls(a) if not re.search(MESSAGE, e.name)]; P.require(key + "-nothing-else", root, not cs, "something else is called: " + "; ".join(e.name for e in cs)[:300])
    po, co = cloud_fields(3); res = [outi(a, "_0", o) for o in (po - 8, po, po + 8, co)]; err = lambda sub: ieq(sub(res[0]), leaf(INT(-1)))
    def ctx_(): c = Ctx(); c.assume(M, ">=", ZERO); c.assume(lin_scale(M, 16), "<=", INT(2 ** 63 - 32)); return c
    def at_size(n, extra=()):
        m = {size: n}; m.update(extra); m = {t: x if isinstance(x, D) else leaf(x) for t, x in m.items()}; return lambda d: subst(D_(d), m, ("scan", tuple(sorted((t.id, x.id) for t, x in m.items()))))
    for e in a.events:      # whatever the size of a stream that fails
        if e.kind == "panic": P.holds("%s-failing-panic-%d" % (key, a.events.index(e)), root, dnot(e.guard), ctx_(), fails, what="reading a scan never panics when the stream fails")
    P.holds(key + "-failing", root, dand(a.guard, err(D_)), ctx_(), fails, what="an error of the stream gives an error")
    for r in range(1, 16):
        sub = at_size(lin_add(lin_scale(M, 16), INT(r))); c = ctx_()
        P.holds("%s-partial-%d" % (key, r), root, dand(sub(a.guard), err(sub)), c, what="a scan with %d bytes more than whole points gives an error" % r)
        for e in panics(a): P.holds("%s-partial-panic-%d-%d" % (key, r, panics(a).index(e)), root, dnot(sub(e.guard)), c, what="reading a scan never panics")
    # whole scans: without points, and with M of them
    for nm, more in (("empty", None), ("whole", T("count"))): whole_scan(P, "%s-%s" % (key, nm), root, more)
def whole_scan(P, key, root, more):
    if more is not None: INT_ATOMS.add(more)
    M = ZERO if more is None else lin_add(more, ONE); size = lin_scale(M, 16); a = P.use(MM.modular(root, MM.NUMLIB, MM.OBJLIB, MM.DROPLIB, MM.reading(size), rewrite=lists.collect))
    K, fails, _ = source(P, key, root, a, "read_to_end"); ok = dnot(fails); po, co = cloud_fields(3); res = [outi(a, "_0", o) for o in (po - 8, po, po + 8, co)]
    def ctx_():
        c = Ctx()
        if more is not None: c.assume(more, ">=", ZERO); c.assume(size, "<=", INT(2 ** 63 - 32))
        return c
    cs = [e for e in calls(a) if not re.search(MESSAGE, e.name)]; P.require(key + "-nothing-else", root, not cs, "something else is called: " + "; ".join(e.name for e in cs)[:300])
    W = Groups(a, M, ok, ctx_)
    for L in a.loops:
        w = W.settle(L); P.require("%s-pass-%d" % (key, L.n), root, w is not None, "a loop does not pass over the numbers or the points of the scan: goes on when %s" % show(L.back, 7)[:400])
        if w is None: return
    if more is not None:
        h = {x for x in leaves(restrict(W.after(res[1]), ok)) if x.op == "list"}
        P.require(key + "-buffer", root, len(h) == 1, "the coordinates of the cloud are %s" % show(res[1], 5)[:300])
        if len(h) != 1: return
        h = h.pop(); P.require(key + "-order", root, W.ordered(h), "numbers are put into a list after it has been used")
        ps = W.pushes(h); c = W.ctx(); j = 0
        for size_, e, n, r in ps:
            P.require("%s-places-%d" % (key, j), root, size_ == 4 and j < 3, "more than three numbers are stored for a point, or something else than numbers")
            stored(P, W, "%s-value-%d" % (key, j), root, c, ok, W.at(n, r, e.args[1]), K, lin_add(lin_scale(W.q, 16), INT(4 * j))); j += 1
        P.require(key + "-three", root, j == 3, "%d numbers are stored for a point" % j); P.equal(key + "-list", root, W.after(res[1]), leaf(h), ctx_(), ok, what="the coordinates")
    for k, e in enumerate(panics(a)):
        if e.loops:
            for r in range(W.w[e.loops[0]]): P.holds("%s-panic-in-%d-%d" % (key, r, k), root, dnot(W.at(e.loops[0], r, e.guard)), W.ctx(), ok, what="reading a scan never panics")
            if W.tested[e.loops[0]]: P.holds("%s-panic-last-%d" % (key, k), root, dnot(W.after(e.guard)), ctx_(), ok, what="reading a scan never panics")
        else: P.holds("%s-panic-%d" % (key, k), root, dnot(W.after(e.guard)), ctx_(), ok, what="reading a scan never panics")
    P.holds(key + "-returns", root, dand(W.after(a.guard), dnot(ieq(W.after(res[0]), leaf(INT(-1))))), ctx_(), ok, what="a whole scan gives a cloud")
    P.equal(key + "-columns", root, W.after(res[3]), leaf(M), ctx_(), ok, what="the number of points"); P.equal(key + "-length", root, W.after(res[2]), leaf(lin_scale(M, 3)), ctx_(), ok, what="the number of coordinates")
class Groups:
    """Loops, one after another, that pass over w elements for each of M points: iteration w * q + r is number r of point q.  Values that are carried from one
    iteration to the next are followed through one group: what they grow by in a group is guessed at the first and established for every group."""
    PERIODS = (4, 3, 1)
    def __init__(self, a, M, ok, ctx): self.a, self.M, self.ok, self.ctx_ = a, M, ok, ctx; self.q = T("group"); INT_ATOMS.add(self.q); self.w = {}; self.tested = {}; self.steps = {}; self.exit = {}
    def ctx(self): c = self.ctx_(); c.assume(self.q, ">=", ZERO); c.assume(self.q, "<", self.M); return c
    def sub(self, d, m): return subst(D_(d), m, ("groups", tuple(sorted((t.id, x.id) for t, x in m.items())))) if m else D_(d)
    def after(self, d): return self.sub(d, self.exit)
    def head(self, L, w, hyp, k, r):
        """What is known at the head of iteration w * k + r."""
        m = dict(self.exit); m[T("it", L.n)] = leaf(lin_add(lin_scale(k, w), INT(r)))
        for x, (i0, pre) in hyp.items(): m[x] = iadd(i0, iadd(imul(leaf(k), leaf(INT(pre[-1]))), leaf(INT(pre[r]))))
        return m
    def at(self, n, r, d): L = next(x for x in self.a.loops if x.n == n); return self.sub(d, self.head(L, self.w[n], self.steps[n], self.q, r))
    def settle(self, L):
        if L.parent: return None
        it = T("it", L.n); INT_ATOMS.add(it); V = LoopVars(L, lambda d: d); ok = self.ok; M = self.M
        for w in self.PERIODS:
            c = self.ctx(); z = self.ctx_(); first = {x: as_int(self.sub(ini, self.exit)) for x, (ini, nxt) in V.vars.items()}; vals = dict(first); pre = {x: [0] for x in vals}
            for r in range(w):
                m = dict(self.exit); m[it] = leaf(INT(r)); m.update(vals)
                for x in list(vals):
                    try: d = one(z.canon(isub(restrict(as_int(self.sub(V.vars[x][1], m)), ok), first[x]))); pre[x].append(d.args[0] if d.op == "int" else None)
                    except Exception: pre[x].append(None)
                vals = {x: iadd(first[x], leaf(INT(pre[x][-1]))) for x in vals if None not in pre[x]}
            hyp = {x: (first[x], pre[x]) for x in vals}
            while True:         # drop those an iteration of an arbitrary group does not keep
                bad = set()
                for r in range(w):
                    m = self.head(L, w, hyp, self.q, r); m2 = self.head(L, w, hyp, self.q, r + 1) if r + 1 < w else self.head(L, w, hyp, lin_add(self.q, ONE), 0)
                    for x in hyp:
                        if x in bad: continue
                        try:
                            if not agree(c, ok, as_int(self.sub(V.vars[x][1], m)), m2[x]): bad.add(x)
                        except (Unproved, TooComplex): bad.add(x)
                if not bad: break
                hyp = {x: v for x, v in hyp.items() if x not in bad}
            back = lambda r, k=self.q: self.sub(L.back, self.head(L, w, hyp, k, r)); last = lin_add(M, INT(-1)); cn = self.ctx(); cn.assume(self.q, "<", last)
            enter = restrict(self.sub(L.entry_guard, self.exit), ok); every = all(implies(c, ok, back(r)) for r in range(w - 1))
            if M is ZERO:
                if not implies(z, ok, enter) and implies(z, ok, dnot(enter)): self.w[L.n], self.tested[L.n], self.steps[L.n] = w, False, hyp; return w
                if not implies(z, ok, dnot(back(0, ZERO))): continue
                rotated, tested = False, implies(z, ok, enter)
            else:
                if not every or not implies(z, ok, enter): continue
                rotated = implies(cn, ok, back(w - 1)) and implies(z, ok, dnot(back(w - 1, last)))
                tested = not rotated and implies(c, ok, back(w - 1)) and implies(z, ok, dnot(back(0, M)))
            if not rotated and not tested: continue
            self.w[L.n], self.tested[L.n], self.steps[L.n] = w, tested, hyp
            self.exit = self.head(L, w, hyp, M, 0) if tested else self.head(L, w, hyp, last, w - 1)
            return w
        return None
    def pushes(self, h):
        """What is put into list h for one point: (size, event, loop, iteration in the group) of each push, in order."""
        es = [e for e in named(self.a, "list-push") if plain(e.args[0]) is h]; ls = {e.loops for e in es}; c = self.ctx()
        if len(ls) != 1 or any(len(l) != 1 for l in ls): raise Unproved("a list is filled in %d loops" % len(ls))
        n = ls.pop()[0]; r = []
        for i in range(self.w[n]):
            for e in es:
                g = restrict(self.at(n, i, e.guard), self.ok); yes = implies(c, self.ok, g)
                if not yes and not implies(c, self.ok, dnot(g)): raise Unproved("whether a number is stored depends on something else than its place", (), show(g, 6)[:300])
                if yes: r.append((bytes_in(e.args[1]), e, n, i))
        if self.tested[n]:
            for e in es:
                if not implies(self.ctx_(), self.ok, dnot(self.after(e.guard))): raise Unproved("something is stored after the last point")
        return r
    def ordered(self, h):
        """Everything is put into the lists before anything is taken out of them."""
        seen_ = set()
        for e in self.a.events:
            if e.kind == "lib" and e.name == "list-push":
                if any(t.op == "ld" and t.args[0].op == "list" and t.args[0] in self.later(e) for x in e.args[1:] for t in subterms(x)): return False
        return True
    def later(self, e):
        """Lists something is put into at or after the loop of e."""
        i = min(self.a.events.index(x) for x in self.a.events if x.loops[:1] == e.loops[:1]); return {plain(x.args[0]) for x in self.a.events[i:] if x.kind == "lib" and x.name == "list-push"}
    def element(self, h, off):
        """The four bytes at offset off of list h, off being a multiple of the bytes of a group and a remainder."""
        ps = self.pushes(h); g = sum(s for s, _, _, _ in ps); b = lin_add(off, lin_scale(self.q, g), -1)
        if b.op != "int" or not 0 <= b.args[0] <= g - 4: raise Unproved("element at %s of a list with %d bytes for a point" % (show(off), g))
        b = b.args[0]
        for s, e, n, r in ps:
            if b < s:
                v = self.at(n, r, e.args[1]); return apply("bytes%d" % b, lambda t: leaf(t if b == 0 and s == 4 else t_extract(t, b, 4)), v)
            b -= s
def bytes_in(d):
    t = leaves(d)[0]
    return 4 if t.op != "cat" else sum(k for _, k in t.args)
def stored(P, W, key, root, ctx, g, v, K, want):
    """The value is the number at byte `want` of what the stream holds."""
    bad = []
    def resolve(facts, t, depth=0):
        if t.op not in ("ldx", "sub") or t.args[2] != 4 or depth > 8: return False
        b = t.args[0]; o = t.args[1] if t.op == "ldx" else INT(t.args[1])
        while b.op == "cpx":
            base, d0, n, src = b.args; rel = lin_add(o, d0, -1)
            if src.op != "at" or not ctx.entails(facts, rel, ">=", ZERO) or not ctx.entails(facts, lin_add(rel, INT(4)), "<=", n): return False
            b, o = src.args[0], lin_add(rel, src.args[1])
        if b.op == "init": b = b.args[0]
        if b is K: return lin_add(o, want, -1) is ZERO
        if b.op == "ld" and b.args[0].op == "list":
            d = W.element(b.args[0], o); res = []
            ctx.each([g, d], lambda f2, path, ts: None if ts[0] is ZERO else res.append(resolve(f2, ts[1], depth + 1)), stop=lambda ds: ds[0] is D0)
            return all(res)
        return False
    def f(facts, path, ts):
        if ts[0] is not ZERO and not bad and not resolve(facts, ts[1]): bad.append((path, ts[1]))
    P.guarded(key, root, lambda: (ctx.each([g, v], f, stop=lambda ds: bad or ds[0] is D0), P.require(key, root, not bad, "the number stored is %s where the one at byte %s of the stream is required%s" % (show(bad[0][1], 7)[:300] if bad else "", show(want), " when " + show_path(bad[0][0]) if bad and bad[0][0] else ""))))

# ------------------------------------------------------------------ files and directories
UNROTATED = ("-rotation-max-header-size=0", "-unroll-peel-max-count=0", "-unswitch-threshold=0")       # a loop begins with its test and its first iteration is not treated apart, nor does it come in several versions
SEQ = r"^kuba::kitti::fs::seq_files_in_dir$"; OPEN = r"^<std::fs::File>::open(::<|$)"; PRINT = r"::_e?print$"; NAME = r"^<std::path::Path>::file_name$"
READS = {"oxt": r"^kuba::kitti::oxt_reader::read$", "pcr": r"^kuba::kitti::point_cloud_reader::read$"}; TYPES = {"oxt": "pose", "pcr": "scan"}
LISTDIR = r"^std::fs::read_dir(::<|$)"; ENTRY = r"^<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next$"; PATH = r"^<std::fs::DirEntry>::path$"; SORT = r"^<\[std::path::PathBuf\]>::sort(_unstable)?(_by::<(.*)>)?$"; COMPARE = r"^<std::path::Path(Buf)? as core::cmp::Ord>::cmp$"
def part(e, off, width, k=0): return T("sub", T("out", e.term, k), off, width)
def bit(t, ctx): return low_bit(t, ctx)
def low_bit(t, ctx): x = T("low", t, 1); INT_ATOMS.add(x); ctx.assume(x, ">=", ZERO); ctx.assume(x, "<=", ONE); return ieq(leaf(x), leaf(ONE))
def word(t, lo, ctx): INT_ATOMS.add(t); ctx.assume(t, ">=", INT(lo)); return leaf(t)
def steady(L, ctx, given):
    """Values carried from one iteration to the next that never change, by what they are."""
    V = LoopVars(L, as_int); m = {}
    for x, (ini, nxt) in V.vars.items():
        d = restrict(ini, given)
        if d.var is None and d.term is not UNDEF: m[x] = d
    while True:
        sub = lambda d: subst(D_(d), m, ("steady", L.n, tuple(sorted((t.id, y.id) for t, y in m.items()))))
        g = dand(given, sub(V.back)); bad = [x for x in m if not agree(ctx, g, sub(V.vars[x][1]), m[x])]
        if not bad: return sub
        for x in bad: del m[x]
def only(P, key, root, es, what):
    P.require(key, root, len(es) == 1, "%s in %d places" % (what, len(es)))
    if len(es) != 1: raise Unproved("%s in %d places" % (what, len(es)))
    return es[0]
def read_fails(kind, e, ctx):
    """Where a reader's result is an error."""
    return low_bit(part(e, 0, 8), ctx) if kind == "oxt" else ieq(word(part(e, 0, 8), -1, ctx), leaf(INT(-1)))
def reads_the_file(P, key, root, a, e, op):
    """The stream read is the file opened, from its beginning."""
    fd = part(op, 4, 4); c = e.term.args[2]; vt = e.term.args[3]
    P.require(key + "-file", root, c.op == "&" and (seen(c, 0, 4) is fd or fd in set(subterms(c))), "what is read is not the file opened: " + show(c, 6)[:200])
    names = []
    for t in subterms(vt):
        if t.op == "global": names += [a.m.dem.get(s, s) for s in re.findall(r"@[\w.$]+", a.m.globals.get(t.args[0], ""))]
    own = [n for n in names if not re.search(r"^core::ptr::drop_(glue|in_place)::<((std|alloc)::io::buffered::bufreader::BufReader<)?std::fs::File>|^<((std|alloc)::io::buffered::bufreader::BufReader<)?std::fs::File>* as (std|alloc)::io::(read::)?Read>::|^<.* as (std|alloc)::io::(read::)?Read>::(is_read_vectored|read_buf|read_exact|by_ref)|^(std|alloc)::io::", n)]
    P.require(key + "-stream", root, bool(names) and not own, "what is read is not a file: " + "; ".join(own or ["unknown"])[:300])

F_HOW = "Value-flow (gated SSA) of the compiler's IR of %s in every calling context. Opening a file, listing a directory, the paths of its entries and sorting them are operations of their own, used through their contracts; collecting into a list is analysed as repeated push (the first item is not treated apart). "
def opened_file(P, kind):
    root = "k_%s_file" % kind; key = TYPES[kind] + "-file"; a = P.use(MM.modular(root, MM.OBJLIB, MM.DROPLIB, opaque=[OPEN, READS[kind]], rewrite=lists.collect)); ctx = Ctx()
    op = only(P, key + "-opened", root, calls(a, OPEN), "the file is opened"); rd = only(P, key + "-read", root, calls(a, READS[kind]), "the file is read")
    P.require(key + "-path", root, op.guard is D1 and not op.loops and leaf(op.args[1].term) is leaf(mk_ptr(T("arg", "path.0"), ZERO)) and plain(op.args[2]) is T("arg", "path.1"), "what is opened is not the path given")
    bad = low_bit(part(op, 0, 4), ctx); failed = read_fails(kind, rd, ctx)
    P.same_cond(key + "-once", root, rd.guard, dnot(bad), ctx, what="the file is read when it could be opened"); P.require(key + "-loop", root, not rd.loops, "the file is read in a loop")
    for k, e in enumerate(panics(a)): P.holds("%s-panic-%d" % (key, k), root, dnot(e.guard), ctx, what="reading a file never panics")
    reads_the_file(P, key, root, a, rd, op)
    if kind == "oxt": tag = outi(a, "_0", 0); err = ieq(apply("low1", lambda t: leaf(ONE if t is ONE else ZERO if t is ZERO else T("low", t, 1)), tag), leaf(ONE))
    else: po, co = cloud_fields(3); err = ieq(outi(a, "_0", po - 8), leaf(INT(-1)))
    P.holds(key + "-error-open", root, dand(a.guard, err), ctx, bad, what="a file that cannot be opened gives an error")
    P.holds(key + "-error-read", root, dand(a.guard, err), ctx, dand(dnot(bad), failed), what="a file that cannot be read gives an error")
    return a, ctx, root, key, rd, bad, failed, err
class Directory:
    """A pass over the paths of a directory that opens and reads each and stops at the first error."""
    def __init__(self, P, kind):
        self.P = P; root = self.root = "k_%s_dir" % kind; key = self.key = TYPES[kind] + "s-dir"; ctx = self.ctx = Ctx()
        a = self.a = P.use(MM.modular(root, MM.OBJLIB, MM.DROPLIB, opaque=[SEQ, OPEN, READS[kind], PRINT, NAME], rewrite=lists.collect, flags=UNROTATED))
        sq = only(P, key + "-listed", root, calls(a, SEQ), "the directory is listed")
        P.require(key + "-directory", root, sq.guard is D1 and not sq.loops and leaf(sq.args[1].term) is leaf(mk_ptr(T("arg", "dir.0"), ZERO)) and plain(sq.args[2]) is T("arg", "dir.1"), "what is listed is not the directory given")
        self.listed = dnot(ieq(word(part(sq, 0, 8), -1, ctx), leaf(INT(-1)))); n = self.n = part(sq, 16, 8); INT_ATOMS.add(n); ctx.assume(n, ">=", ZERO); ctx.assume(n, "<=", INT((2 ** 63 - 1) // 24)); self.paths = part(sq, 8, 8)
        op = self.op = only(P, key + "-opened", root, calls(a, OPEN), "files are opened"); rd = self.rd = only(P, key + "-read", root, calls(a, READS[kind]), "files are read")
        P.require(key + "-loops", root, len(a.loops) == 1 and op.loops == rd.loops == (a.loops[0].n,), "files are read in %s" % (("loops %s" % (rd.loops,)) if rd.loops else "no loop"))
        if len(a.loops) != 1 or not op.loops == rd.loops == (a.loops[0].n,): raise Unproved("not one pass over the files")
        L = self.L = a.loops[0]; it = self.it = T("it", L.n); INT_ATOMS.add(it); ctx.assume(it, ">=", ZERO)
        for e in calls(a, NAME):        # what is found in a directory has a name
            t = T("ev", T("ret", e.term), 0); INT_ATOMS.add(t); ctx.assume(t, ">", ZERO)
        v = self.v = steady(L, ctx, self.listed); self.back, self.enter = v(L.back), L.entry_guard; self.at = ilt(leaf(it), leaf(n)); self.bad_open = low_bit(part(op, 0, 4), ctx); self.bad_read = read_fails(kind, rd, ctx); self.good = dand(dnot(self.bad_open), dnot(self.bad_read))
        ctx.assume(T("ldx", T("init", T("ld", self.paths)), lin_scale(it, 24), 8), ">=", ZERO)      # a path's capacity
        N = leaf(n); more = ilt(iadd(leaf(it), leaf(ONE)), N); g = self.listed; self.fails = dand(self.at, dnot(self.good)); pos = lambda t: ilt(D0, word(t, -2 ** 63, ctx)); self.real = dand(dor(dnot(self.bad_open), pos(part(op, 8, 8))), dor(dnot(self.bad_read), pos(part(rd, 8, 8)))); i = lambda g, c: implies(ctx, g, c)
        rotated = i(dand(g, ilt(D0, N)), self.enter) and i(dand(g, ieq(D0, N)), dnot(self.enter)) and i(dand(g, dand(self.at, dand(self.good, more))), self.back) and i(dand(g, dand(self.at, dnot(dand(self.good, more)))), dnot(self.back))
        tested = not rotated and i(g, self.enter) and i(dand(g, dand(self.at, self.good)), self.back) and i(dand(dand(g, ile(leaf(it), N)), dnot(dand(self.at, self.good))), dnot(self.back))
        P.require(key + "-pass", root, rotated or tested, "the loop does not pass over the files, or not up to the first error: goes on when %s" % show(self.back, 8)[:400])
        if not rotated and not tested: raise Unproved("not a pass over the files")
        ctx.assume(it, "<=", n)     # the loop starts at 0 <= n (or 0 < n) and goes on below n (n - 1) only
        self.whole = dor(dnot(ilt(D0, N)), dand(self.at, dand(dnot(more), self.good))) if rotated else ieq(leaf(it), N)
        self.broken = dand(ilt(D0, N), self.fails); self.over = dor(self.whole, self.broken)
        self.res = [v(outi(a, "_0", o)) for o in (0, 8, 16)]; self.err = ieq(self.res[0], leaf(INT(-1)))
    def errors(self):
        P, key, root, ctx, a = self.P, self.key, self.root, self.ctx, self.a
        P.holds(key + "-error-list", root, dand(self.v(a.guard), self.err), ctx, dnot(self.listed), what="a directory that cannot be listed gives an error")
        P.holds(key + "-error-file", root, dand(self.v(a.guard), self.err), ctx, dand(self.real, dand(self.listed, self.broken)), what="a file that cannot be opened or read gives an error")
    def results(self, size):
        P, key, root, ctx, a, op, rd = self.P, self.key, self.root, self.ctx, self.a, self.op, self.rd
        for k, e in enumerate(panics(a)): P.holds("%s-panic-%d" % (key, k), root, dnot(self.v(e.guard)), ctx, dand(self.at, self.listed) if e.loops else dor(dnot(self.listed), self.over), what="reading a directory never panics (%s)" % e.name)
        path = T("init", T("ld", self.paths)); want = [T("ldx", path, lin_add(lin_scale(self.it, 24), INT(o)), 8) for o in (8, 16)]; at = dand(self.listed, self.at)
        P.equal(key + "-file", root, self.v(as_int(op.args[1])), leaf(want[0]), ctx, at, what="the path opened"); P.equal(key + "-file-length", root, self.v(as_int(op.args[2])), leaf(want[1]), ctx, at, what="the length of the path opened")
        P.holds(key + "-open-each", root, self.v(op.guard), ctx, at, what="each file is opened"); P.holds(key + "-open-only", root, dnot(self.v(op.guard)), ctx, dand(self.listed, dnot(self.at)), what="nothing else is opened")
        P.same_cond(key + "-read-each", root, dand(at, self.v(rd.guard)), dand(at, dnot(self.bad_open)), ctx, what="each file is read"); reads_the_file(P, key, root, a, rd, op)
        ps = [e for e in a.events if e.kind == "lib" and e.name == "list-push"]; pu = only(P, key + "-kept", root, ps, "results are put into a list"); h = plain(pu.args[0])
        P.require(key + "-kept-in", root, pu.loops == rd.loops, "results are not put into the list as they are read"); P.same_cond(key + "-kept-each", root, dand(self.listed, dand(ile(leaf(self.it), leaf(self.n)), self.v(pu.guard))), dand(at, self.good), ctx, what="each result is kept")
        base = 8 if size == 28 else 0
        for o in range(0, size, 4):
            P.equal("%s-result-%d" % (key, o), root, apply("bytes%d-4" % o, lambda t: D_(unwrap(t_extract(t, o, 4))), self.v(pu.args[1])), leaf(T("sub", T("out", rd.term, 0), base + o, 4)), ctx, dand(at, self.good), what="bytes %d to %d of the result that is kept" % (o, o + 4))
        g = dand(self.listed, self.whole)
        P.holds(key + "-given", root, dand(self.v(a.guard), dnot(self.err)), ctx, g, what="when every file has been read the results are returned"); P.equal(key + "-list", root, self.res[1], leaf(h), ctx, g, what="the list returned"); P.equal(key + "-count", root, self.res[2], leaf(self.n), ctx, g, what="the number of results")
def listing(P, errors):
    """Listing a directory."""
    root = "k_seq"; key = "listing"; a = P.use(MM.modular(root, MM.OBJLIB, MM.DROPLIB, opaque=[LISTDIR, ENTRY, PATH, SORT], rewrite=lists.collect, flags=UNROTATED)); ctx = Ctx()
    ls = only(P, key + "-listed", root, calls(a, LISTDIR), "the directory is listed"); en = only(P, key + "-entries", root, calls(a, ENTRY), "entries are read")
    P.require(key + "-directory", root, ls.guard is D1 and not ls.loops and leaf(ls.args[1].term) is leaf(mk_ptr(T("arg", "dir.0"), ZERO)) and plain(ls.args[2]) is T("arg", "dir.1"), "what is listed is not the directory given")
    P.require(key + "-loops", root, len(a.loops) == 1 and en.loops == (a.loops[0].n,), "entries are read in loops %s" % (en.loops,))
    if len(a.loops) != 1 or en.loops != (a.loops[0].n,): raise Unproved("not one pass over the entries")
    L = a.loops[0]; tag = part(ls, 8, 1); INT_ATOMS.add(tag); listed = dnot(ieq(leaf(tag), leaf(INT(2))))
    more = low_bit(part(en, 0, 8), ctx); p = part(en, 8, 8); INT_ATOMS.add(p); ctx.assume(p, ">=", ZERO); good = dand(more, dnot(ieq(leaf(p), leaf(ZERO))))
    pa = calls(a, PATH)
    for e in pa: word(part(e, 0, 8), 0, ctx)
    v = steady(L, ctx, listed)
    P.holds(key + "-start", root, L.entry_guard, ctx, listed, what="the entries are passed over")
    P.same_cond(key + "-entry", root, v(en.guard), D1, ctx, what="one entry is taken in each step"); P.same_cond(key + "-pass", root, v(L.back), good, ctx, what="the pass goes on after every entry")
    res = [v(outi(a, "_0", o)) for o in (0, 8, 16)]; err = ieq(res[0], leaf(INT(-1)))
    if errors:
        P.holds(key + "-error-list", root, dand(v(a.guard), err), ctx, dnot(listed), what="a directory that cannot be listed gives an error")
        P.holds(key + "-error-entry", root, dand(v(a.guard), err), ctx, dand(dand(listed, ilt(D0, word(part(en, 16, 8), -2 ** 63, ctx))), dand(more, dnot(good))), what="an entry that cannot be read gives an error"); return
    for k, e in enumerate(panics(a)): P.holds("%s-panic-%d" % (key, k), root, dnot(v(e.guard)), ctx, what="listing a directory never panics")
    pe = only(P, key + "-path", root, pa, "the path of an entry is made"); P.require(key + "-path-of", root, pe.loops == en.loops and T("out", en.term, 0) in set(subterms(pe.term.args[-1])), "the path is not that of the entry: " + show(pe.term, 4)[:200])
    pu = only(P, key + "-kept", root, [e for e in a.events if e.kind == "lib" and e.name == "list-push"], "paths are put into a list"); h = plain(pu.args[0])
    P.require(key + "-kept-in", root, pu.loops == en.loops, "paths are not put into the list as they are read"); P.same_cond(key + "-kept-each", root, v(pu.guard), good, ctx, what="each path is kept")
    for o in range(0, 24, 8): P.equal("%s-value-%d" % (key, o), root, apply("bytes%d-8" % o, lambda t: D_(unwrap(t_extract(t, o, 8))), v(pu.args[1])), leaf(T("sub", T("out", pe.term, 0), o, 8)), ctx, good, what="part %d of the path that is kept" % (o // 8))
    so = only(P, key + "-sorted", root, calls(a, SORT), "the paths are sorted"); done = dand(listed, dnot(more))
    own = re.match(SORT, so.name).group(3)
    if own and not re.match(COMPARE, own): compares(P, own)
    P.require(key + "-sorted-after", root, not so.loops and a.events.index(so) > a.events.index(pu), "the paths are sorted before all are there")
    P.holds(key + "-sorted-always", root, v(so.guard), ctx, done, what="the paths are sorted when all are there")
    P.equal(key + "-sorted-list", root, v(as_int(so.args[0])), leaf(h), ctx, done, what="what is sorted"); P.equal(key + "-sorted-all", root, v(as_int(so.args[1])), leaf(T("it", L.n)), ctx, done, what="how many paths are sorted")
    P.holds(key + "-given", root, dand(v(a.guard), dnot(err)), ctx, done, what="the paths are returned"); P.equal(key + "-list", root, res[1], leaf(h), ctx, done, what="the list returned"); P.equal(key + "-count", root, res[2], leaf(T("it", L.n)), ctx, done, what="the number of paths returned")
def compares(P, name):
    """A comparison of paths handed to sorting is the paths' own."""
    fs = [n for n, d in EX.raw().dem.items() if d == name and n in EX.raw().defined]; key = "listing-order"
    P.require(key, "k_seq", len(fs) == 1, "paths are compared by " + name)
    if len(fs) != 1: return
    a = MM.modular(fs[0][1:], MM.OBJLIB, MM.DROPLIB, opaque=[COMPARE])
    es = [e for e in a.events if e.kind != "store"]; ps = list(a.inputs)[-2:]
    P.require(key, "k_seq", len(es) == 1 and es[0].kind == "call" and re.match(COMPARE, es[0].name) and es[0].guard is D1 and a.guard is D1 and not a.loops and a.result is not None and D_(a.result) is leaf(T("ret", es[0].term)) and [D_(x) for x in es[0].args] in ([leaf(mk_ptr(T("arg", n), ZERO)) for n in ps], [leaf(t) for n in ps for t in (inp(n, 8, 8), inp(n, 16, 8))], [leaf(t) for n in ps for t in (mk_ptr(T("ld", inp(n, 8, 8)), ZERO), inp(n, 16, 8))]), "paths are compared by %s, which is not their order: %s" % (name, show(a.result, 6)[:200] if a.result is not None else "nothing"))
@prop("K03", F_HOW % "the file and directory readers and of listing a directory" + "Rule: listing gives an error when the directory or any entry cannot be read; reading a file gives an error when it cannot be opened, and otherwise gives what reading the opened file gives, with an error when that is one (K01 and K02 establish that reading the stream gives an error when the stream does); reading a directory gives an error when listing it does, or when one of its files cannot be opened or read.")
def k03(P):
    P.guarded("listing", "k_seq", lambda: listing(P, True))
    for k in READS: P.guarded(TYPES[k] + "-file", "k_%s_file" % k, lambda: opened_file(P, k)); P.guarded(TYPES[k] + "s-dir", "k_%s_dir" % k, lambda: Directory(P, k).errors())
@prop("K04", F_HOW % "the file and directory readers and of listing a directory" + "Whatever std's printing does, it is taken not to fail, and a path found in a directory to have a file name. Rule: listing takes every entry, keeps the path of each, sorts the list after the last and returns it; reading a file opens the path given, reads it once and returns what this gives; reading a directory opens each path of the listing in order, reads it once and keeps what this gives; the list is returned after the last one; all this, and that nothing panics, holds for either setting of the progress flag.")
def k04(P):
    P.guarded("listing", "k_seq", lambda: listing(P, False))
    for k in READS: P.guarded(TYPES[k] + "-file", "k_%s_file" % k, lambda: file_result(P, k)); P.guarded(TYPES[k] + "s-dir", "k_%s_dir" % k, lambda: Directory(P, k).results(28 if k == "oxt" else 32))
def file_result(P, kind):
    a, ctx, root, key, rd, bad, failed, err = opened_file(P, kind)
    for o in range(0, 64 if kind == "oxt" else 32, 4):
        if kind == "oxt" and 36 <= o < 40: continue      # padding
        P.equal("%s-result-%d" % (key, o), root, as_int(out(a, "_0", o, 4)), as_int(leaf(T("sub", T("out", rd.term, 0), o, 4))), ctx, dand(dnot(bad), dnot(failed)), what="bytes %d to %d of the result" % (o, o + 4))
def directory_reference(P):
    """The reference position handed from one record to the next, and to reading a record from a file."""
    a, ctx, root, key, rd, bad, failed, err = opened_file(P, "oxt"); o = rd.term.args[-1]
    for k in range(4): P.equal("reference-file-%d" % k, root, as_int(leaf(seen(o, 8 * k, 8))), leaf(inp("gps_origin", 8 * k, 8)), ctx, dnot(bad), what="part %d of the reference handed to reading the record" % k)
    Q = Directory(P, "oxt"); a, ctx, root, L, it = Q.a, Q.ctx, Q.root, Q.L, Q.it; ref = pose_layout()[2]; o = Q.rd.term.args[-1]; here = [as_int(leaf(seen(o, 8 * k, 8))) for k in range(4)]
    V = LoopVars(L, as_int); g = dand(Q.listed, dand(Q.at, Q.good))
    def when(d, which, n): m = {x: v[which] for x, v in V.vars.items()}; m[it] = leaf(n); return subst(D_(d), m, ("carried", which, root))
    P.equal("reference-none-first", root, when(here[0], 0, ZERO), D0, ctx, dand(Q.listed, ilt(D0, leaf(Q.n))), what="whether the first record is given a reference")
    tag = here[0]; t = plain(tag) if tag.var is None else None
    one = {}
    if t is not None and t.op != "int": INT_ATOMS.add(t); ctx.assume(t, ">=", ZERO); ctx.assume(t, "<=", ONE); one[T("low", t, 1)] = leaf(t)
    nxt = [subst(when(d, 1, lin_add(it, ONE)), one, ("one", root)) for d in here]; given = ieq(tag, leaf(ONE)); g = subst(g, one, ("one", root))
    P.equal("reference-given-later", root, nxt[0], leaf(ONE), ctx, g, what="whether later records are given a reference")
    for k in range(3):
        own = as_int(leaf(T("sub", T("out", Q.rd.term, 0), ref + 8 * k, 8)))
        P.equal("reference-carried-%d" % k, root, nxt[k + 1], own, ctx, dand(g, dnot(given)), what="part %d of the reference for the records after the first" % k)
        kept = agree(ctx, dand(g, given), nxt[k + 1], here[k + 1])
        if not kept: P.equal("reference-kept-on-%d" % k, root, nxt[k + 1], own, ctx, dand(g, given), what="part %d of the reference for the records after the next" % k)
