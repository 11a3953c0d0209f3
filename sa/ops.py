"""Transfer functions of the value domain (terms lifted over diagrams)."""
import math, struct
from terms import *

class OPT:
    nan = False      # distinguish unordered float comparisons
    sizes = True     # memory sizes do not overflow
    finite = True    # inputs and arithmetic over them are finite (idealised real arithmetic)

def fits(x, w):
    x &= (1 << w) - 1
    return x - (1 << w) if w > 1 and x >> (w - 1) else x

# ------------------------------------------------------------------ integers
def iadd(a, b): return apply("iadd", lambda x, y: leaf(t_add(x, y)), a, b)
def isub(a, b): return apply("isub", lambda x, y: leaf(t_sub(x, y)), a, b)
def is_ptr(t): return t.op == "ptr"
def t_add(x, y):
    if x is UNDEF or y is UNDEF: return UNDEF
    if x.op == "ptr": return ptr_add(x, y)
    if y.op == "ptr": return ptr_add(y, x)
    return lin_add(x, y)
def t_sub(x, y):
    if x is UNDEF or y is UNDEF: return UNDEF
    if x.op == "ptr" or y.op == "ptr":
        bx, ox = ptr_parts(x); by, oy = ptr_parts(y)
        if bx is by: return lin_add(ox, oy, -1)
    return lin_add(x, y, -1)
def imul(a, b):
    def f(x, y):
        if x.op == "int": return leaf(lin_scale(y, x.args[0]))
        if y.op == "int": return leaf(lin_scale(x, y.args[0]))
        return leaf(t_imul(x, y))
    return apply("imul", f, a, b)
def t_imul(x, y):
    fs = []
    for z in (x, y):
        fs += list(z.args) if z.op == "imul" else [z]
    return T("imul", *sorted(fs, key=lambda t: t.id))
def idiv(op, a, b):
    def f(x, y):
        if x.op == "int" and y.op == "int" and y.args[0] != 0:
            p, q = x.args[0], y.args[0]
            if op in ("udiv", "urem"): p, q = p & (2**64 - 1), q & (2**64 - 1)
            r = abs(p) // abs(q); r = r if (p < 0) == (q < 0) else -r
            return leaf(INT(r if op[1:] == "div" else p - q * r))
        if y.op == "int" and y.args[0] == 1: return leaf(x if op[1:] == "div" else ZERO)
        if y.op == "int" and op == "sdiv" or op == "udiv":
            c, it = to_lin(x); q = y.args[0] if y.op == "int" else None
            if q and c % q == 0 and all(k % q == 0 for _, k in it): return leaf(from_lin(c // q, [(t, k // q) for t, k in it]))
        if y.op == "int" and op == "urem" or op == "srem":
            c, it = to_lin(x); q = y.args[0] if y.op == "int" else None
            if q and c % q == 0 and all(k % q == 0 for _, k in it): return leaf(ZERO)
        return leaf(T(op, x, y))
    return apply(op, f, a, b)
def shl(a, b, w):
    def f(x, y):
        if y.op == "int":
            k = y.args[0]
            if x.op == "int": return leaf(INT(fits(x.args[0] << k, w)))
            if x.op in ("zx", "cat") and k % 8 == 0:
                return leaf(mk_cat([(ZERO, k // 8)] + cat_parts(x, w // 8 - k // 8)))
            if x.op in ("mdd",) and k % 8 == 0: return leaf(mk_cat([(ZERO, k // 8), (t_extract(x, 0, w // 8 - k // 8), w // 8 - k // 8)]))
            return leaf(lin_scale(x, 1 << k))
        return leaf(T("shl", x, y))
    return apply("shl%d" % w, f, a, b)
def lshr(a, b, w):
    def f(x, y):
        if y.op == "int":
            k = y.args[0]
            if x.op == "int": return leaf(INT((x.args[0] & ((1 << w) - 1)) >> k))
            if k % 8 == 0 and x.op in ("cat", "zx", "sub"):
                return unwrap(t_zext(t_extract(x, k // 8, w // 8 - k // 8), w // 8 - k // 8, w // 8))
            c, it = to_lin(x); q = 1 << k
            if c % q == 0 and all(m % q == 0 for _, m in it): return leaf(from_lin(c // q, [(t, m // q) for t, m in it]))
        return leaf(T("lshr", x, y))
    return apply("lshr%d" % w, f, a, b)
def ashr(a, b, w):
    def f(x, y):
        if y.op == "int":
            k = y.args[0]
            if x.op == "int": return leaf(INT(x.args[0] >> k))
            if k == w - 1: return sel_sgn(leaf(x), leaf(INT(-1)), D0, D0)
            c, it = to_lin(x); q = 1 << k
            if c % q == 0 and all(m % q == 0 for _, m in it): return leaf(from_lin(c // q, [(t, m // q) for t, m in it]))
        return leaf(T("ashr", x, y))
    return apply("ashr%d" % w, f, a, b)
def band(a, b, w):
    if w == 1: return dand(to_bool(a), to_bool(b))
    def f(x, y):
        if x.op == "int" and y.op == "int": return leaf(INT(x.args[0] & y.args[0]))
        for p, q in ((x, y), (y, x)):
            if q.op == "int":
                m = q.args[0]
                if m == 0: return D0
                if m == -1 or m == (1 << w) - 1: return leaf(p)
                u = -m if m < 0 else (1 << w) - m
                if u & (u - 1) == 0 and u > 1:      # rounding down to a multiple of a power of two
                    c, it = to_lin(p)
                    if c % u == 0 and all(k % u == 0 for _, k in it): return leaf(p)
                if p.op in ("zx", "cat", "sub") and m > 0 and (m + 1) & m == 0 and m.bit_length() % 8 == 0:
                    n = m.bit_length() // 8
                    return unwrap(t_zext(t_extract(p, 0, n), n, w // 8))
                if p.op == "cat" and 0 < m < 1 << (8 * min(7, p.args[0][1])): return band(unwrap(p.args[0][0]), leaf(INT(m)), 8 * p.args[0][1])
                if m > 0 and (m + 1) & m == 0:
                    c, it = to_lin(p)
                    if all(k % (m + 1) == 0 for _, k in it): return leaf(INT(c & m))
                    return leaf(T("low", p, m.bit_length()))
        return leaf(T("and", *sorted((x, y), key=lambda t: t.id)))
    return apply("and%d" % w, f, a, b)
def bor(a, b, w):
    if w == 1: return dor(to_bool(a), to_bool(b))
    def f(x, y):
        if x.op == "int" and y.op == "int": return leaf(INT(x.args[0] | y.args[0]))
        for p, q in ((x, y), (y, x)):
            if q is ZERO: return leaf(p)
        if all(t.op in ("zx", "cat", "int", "sub") for t in (x, y)):
            r = overlay(x, y, w // 8)
            if r is not None: return unwrap(r)
        return leaf(T("or", *sorted((x, y), key=lambda t: t.id)))
    return apply("or%d" % w, f, a, b)
def bxor(a, b, w):
    if w == 1: return ite(to_bool(a), dnot(to_bool(b)), to_bool(b))
    def f(x, y):
        if x.op == "int" and y.op == "int": return leaf(INT(x.args[0] ^ y.args[0]))
        for p, q in ((x, y), (y, x)):
            if q is ZERO: return leaf(p)
            if q.op == "int" and (q.args[0] == -1 or q.args[0] == (1 << w) - 1): return leaf(lin_add(INT(-1), p, -1))
        return leaf(T("xor", *sorted((x, y), key=lambda t: t.id)))
    return apply("xor%d" % w, f, a, b)

# ------------------------------------------------------------------ byte views
def t_size(t):
    if t.op == "zx": return t.args[2]
    if t.op == "cat": return sum(s for _, s in t.args)
    if t.op == "sub": return t.args[2]
    return None
def cat_parts(t, n):
    """First n bytes of t as parts."""
    if t.op == "cat":
        out = []; left = n
        for p, s in t.args:
            if left <= 0: break
            if s <= left: out.append((p, s)); left -= s
            else: out.append((t_extract(p, 0, left), left)); left = 0
        if left > 0: out.append((ZERO, left))
        return out
    if t.op == "zx":
        x, s, d = t.args
        if s >= n: return [(t_extract(x, 0, n) if s > n else x, n)]
        return [(x, s), (ZERO, n - s)]
    if t is ZERO: return [(ZERO, n)]
    if t.op == "int": return [(t, n)]
    return [(t, n)]
def mk_cat(parts):
    out = []
    for p, s in parts:
        if s == 0: continue
        if p.op == "cat" and sum(z for _, z in p.args) == s:
            sub = list(p.args)
        elif p.op == "zx" and p.args[2] == s:
            sub = [(p.args[0], p.args[1]), (ZERO, s - p.args[1])]
        else: sub = [(p, s)]
        for q, z in sub:
            if out:
                l, ls = out[-1]
                if l is ZERO and q is ZERO: out[-1] = (ZERO, ls + z); continue
                if l.op == "sub" and q.op == "sub" and l.args[0] is q.args[0] and l.args[2] == ls and q.args[2] == z and l.args[1] + ls == q.args[1]:
                    out[-1] = (T("sub", l.args[0], l.args[1], ls + z), ls + z); continue
                if l.op == "int" and q.op == "int":
                    v = (l.args[0] & ((1 << (8 * ls)) - 1)) | ((q.args[0] & ((1 << (8 * z)) - 1)) << (8 * ls))
                    out[-1] = (INT(fits(v, 8 * (ls + z))), ls + z); continue
                if l.op == "bytes" and q.op == "bytes" and l.args[0] is q.args[0] and l.args[1] + ls == q.args[1] and l.args[2] == ls and q.args[2] == z:
                    x = l.args[0]; out[-1] = (x if l.args[1] == 0 and ls + z == 8 and x.op in ("list", "ptr", "lin", "it") else T("bytes", x, l.args[1], ls + z), ls + z); continue
                if l is UNDEF and q is UNDEF: out[-1] = (UNDEF, ls + z); continue
            out.append((q, z))
    if len(out) == 1: return out[0][0]
    if len(out) == 2 and out[1][0] is ZERO: return T("zx", out[0][0], out[0][1], out[0][1] + out[1][1])
    return T("cat", *out)
def t_extract(t, off, size):
    """Bytes [off, off+size) of t."""
    if t is UNDEF: return t
    if t.op == "mdd": return wrap(apply("ext%d:%d" % (off, size), lambda u: unwrap(t_extract(u, off, size)), t.args[0]))
    if t.op == "int": return INT(fits((t.args[0] & ((1 << 256) - 1)) >> (8 * off), 8 * size))
    if t.op == "fc":
        if off == 0 and size == t.args[1] // 8: return t
        b = struct.pack("<f" if t.args[1] == 32 else "<d", t.args[0])
        return INT(int.from_bytes(b[off:off + size], "little", signed=True))
    if t.op == "sub":
        if off == 0 and size == t.args[2]: return t
        return T("sub", t.args[0], t.args[1] + off, size)
    if t.op == "zx":
        x, s, d = t.args
        if off == 0 and size == d: return t
        if off == 0 and size == s: return x
        if off >= s: return ZERO
        if off + size <= s: return t_extract(x, off, size)
        return mk_cat([(t_extract(x, off, s - off), s - off), (ZERO, size - (s - off))])
    if t.op == "cat":
        out = []; pos = 0
        for p, s in t.args:
            lo = max(pos, off); hi = min(pos + s, off + size)
            if lo < hi:
                out.append((p if (lo == pos and hi == pos + s) else t_extract(p, lo - pos, hi - lo), hi - lo))
            pos += s
        if pos < off + size: out.append((ZERO, off + size - max(pos, off)))
        return mk_cat(out)
    if t.op == "bytes": return T("bytes", t.args[0], t.args[1] + off, size)
    if t.op == "ldx" and off + size <= t.args[2]: return T("ldx", t.args[0], lin_add(t.args[1], INT(off)), size)
    return T("bytes", t, off, size)
def extract(d, off, size, whole=None):
    if off == 0 and whole == size: return d
    return apply("ext%d:%d" % (off, size), lambda t: unwrap(t_extract(t, off, size)), d)
def zext(d, s, dd):
    """Zero extension by bytes; a case distinction over non-constants stays wrapped (it is being packed)."""
    if d.var is None or all(t.op == "int" for t in leaves(d)):
        return apply("zx%d:%d" % (s, dd), lambda t: unwrap(t_zext(t, s, dd)), d)
    return leaf(t_zext(wrap(d), s, dd))
def dcat(parts):
    """Concatenation of diagrams, kept packed unless a single part."""
    if len(parts) == 1: return parts[0][0]
    sizes = tuple(n for _, n in parts)
    if sum(sizes) == 8 and any(d.var is not None for d, _ in parts):       # a word
        return apply(("catted", sizes), lambda *ts: leaf(mk_cat(list(zip(ts, sizes)))), *[d for d, _ in parts])
    return unwrap(mk_cat([(wrap(d), n) for d, n in parts]))
def t_zext(t, s, d):
    if s == d: return t
    if t.op == "int": return INT(t.args[0] & ((1 << (8 * s)) - 1))
    if t.op == "zx" and t.args[2] == s: return T("zx", t.args[0], t.args[1], d)
    if t.op == "lin": return t
    if t.op == "cat": return mk_cat(list(t.args) + [(ZERO, d - s)])
    return T("zx", t, s, d)
def overlay(x, y, n):
    a = cat_parts(x, n); b = cat_parts(y, n)
    def bounds(ps):
        s = {0}; o = 0
        for _, z in ps: o += z; s.add(o)
        return s
    bs = sorted(bounds(a) | bounds(b)); out = []
    ca, cb = T("cat", *a) if len(a) > 1 else None, T("cat", *b) if len(b) > 1 else None
    for lo, hi in zip(bs, bs[1:]):
        p = t_extract(ca, lo, hi - lo) if ca else t_extract(a[0][0], lo, hi - lo) if (lo, hi) != (0, n) else a[0][0]
        q = t_extract(cb, lo, hi - lo) if cb else t_extract(b[0][0], lo, hi - lo) if (lo, hi) != (0, n) else b[0][0]
        if p is ZERO: out.append((q, hi - lo))
        elif q is ZERO: out.append((p, hi - lo))
        else: return None
    return mk_cat(out)

# ------------------------------------------------------------------ pointers
NULLB = T("nullbase")
def ptr_parts(t):
    if t.op == "ptr": return t.args
    if t.op == "int": return NULLB, t
    if t.op == "lin":   # integer arithmetic on a pointer
        ps = [a for a, k in t.args[1] if k == 1 and a.op == "ptr"]
        if len(ps) == 1:
            b, o = ps[0].args
            return b, lin_add(o, lin_add(t, ps[0], -1))
    return T("ld", t), ZERO
def mk_ptr(b, o):
    if b.op == "ld" and o is ZERO: return b.args[0]
    if b is NULLB: return o
    return T("ptr", b, o)
def ptr_add(p, k):
    b, o = ptr_parts(p)
    return mk_ptr(b, lin_add(o, k))

# ------------------------------------------------------------------ comparisons
import math as _m
def sgn_leaf(t):
    if t.op == "int":
        v = t.args[0]; return leaf(INT(0 if v < 0 else 1 if v == 0 else 2))
    if t is UNDEF: return leaf(INT(1))
    c, it = to_lin(t)
    if c and all((k > 0) == (c > 0) and nonneg(a) for a, k in it): return leaf(INT(2 if c > 0 else 0))
    g = 0
    for _, k in it: g = _m.gcd(g, k)
    g = _m.gcd(g, c) if c else g
    lead = it[0][1]
    flip = lead < 0
    if g > 1 or flip:
        d = -g if flip else g
        t = from_lin(c // d, [(a, k // d) for a, k in it])
    if nonneg(t):
        if t.op not in ("lin",): 
            v = T("sgn", t); o = (INT(1), INT(1), INT(2))   # never negative
            r = case(v, [leaf(INT(1)), leaf(INT(1)), leaf(INT(2))])
            r = case(v, (leaf(INT(1)), leaf(INT(1)), leaf(INT(2))))
            return r if not flip else apply("flip3", lambda z: leaf(INT(2 - z.args[0])), r)
    v = T("sgn", t)
    o = (2, 1, 0) if flip else (0, 1, 2)
    return case(v, [leaf(INT(j)) for j in o])
def nonneg(t): return t.op in ("zx", "low", "iabs", "urem", "f2u", "count")
def sgn_case(d): return apply("sgn", sgn_leaf, d)
def sel_sgn(d, n, z, p):
    s = sgn_case(d)
    return apply3(s, (n, z, p))
PRED = {"eq": (0, 1, 0), "ne": (1, 0, 1), "slt": (1, 0, 0), "sle": (1, 1, 0), "sgt": (0, 0, 1), "sge": (0, 1, 1)}
def ucmp_leaf(a, b):
    if a.op == "int" and b.op == "int":
        x, y = a.args[0] & (2**64 - 1), b.args[0] & (2**64 - 1)
        return leaf(INT(0 if x < y else 1 if x == y else 2))
    if a is b: return leaf(INT(1))
    # sizes are far below the largest machine integers
    for p, q, o in ((a, b, 0), (b, a, 2)):
        if q.op == "int" and (1 << 59) <= q.args[0] < (1 << 63) and OPT.sizes: return leaf(INT(o))
    if nonneg(a) and (nonneg(b) or b.op == "int" and b.args[0] >= 0) or nonneg(b) and a.op == "int" and a.args[0] >= 0:
        return sgn_leaf(lin_add(a, b, -1))
    if b.op == "int" and b.args[0] == 0:      # x <u 0 never; x == 0 or above
        return sel_sgn(leaf(a), leaf(INT(2)), leaf(INT(1)), leaf(INT(2)))
    if a.op == "int" and a.args[0] == 0:
        return sel_sgn(leaf(b), leaf(INT(0)), leaf(INT(1)), leaf(INT(0)))
    if b.op == "int" and b.args[0] == 1:      # x <u 1  <=>  x == 0
        s = sgn_leaf(lin_add(a, b, -1))
        return sel_sgn(leaf(a), leaf(INT(2)), leaf(INT(0)), apply3(s, (leaf(INT(2)), leaf(INT(1)), leaf(INT(2)))))
    for p, q, o in ((a, b, 0), (b, a, 2)):
        if q.op == "int" and q.args[0] > 1 and p.op == "lin" and p.args[0] % q.args[0] == 0 and all(k % q.args[0] == 0 for _, k in p.args[1]):     # a multiple of q is below it only if it is zero
            s = sgn_leaf(lin_add(p, q, -1)); return sel_sgn(leaf(p), leaf(INT(2 - o)), leaf(INT(o)), apply3(s, (leaf(INT(2 - o)), leaf(INT(1)), leaf(INT(2 - o)))))
    if a.op == "int" and (b.op != "int" and True) or (b.op != "int" and a.id > b.id):
        return case(T("ucmp", b, a), (leaf(INT(2)), leaf(INT(1)), leaf(INT(0))))
    return case(T("ucmp", a, b), (leaf(INT(0)), leaf(INT(1)), leaf(INT(2))))
def ucmp_case(a, b): return apply("ucmp", ucmp_leaf, a, b)
UPRED = {"ult": (1, 0, 0), "ule": (1, 1, 0), "ugt": (0, 0, 1), "uge": (0, 1, 1)}
def B(j): return D1 if j else D0
def icmp(pred, a, b, w, isptr=False):
    if w == 1 and pred in ("eq", "ne"):
        r = bxor(a, b, 1)
        return r if pred == "ne" else dnot(r)
    if pred in PRED:
        if isptr or any(t.op == "ptr" for d in (a, b) for t in leaves(d)):
            return peq(pred, a, b)
        return apply3(sgn_case(isub(a, b)), [B(j) for j in PRED[pred]])
    return apply3(ucmp_case(a, b), [B(j) for j in UPRED[pred]])
OBJ = ("arg", "alloca", "global", "heap")
NONNULL = ("elements", "field", "bytes-of", "list", "key", "value")
def peq(pred, a, b):
    def f(x, y):
        bx, ox = ptr_parts(x); by, oy = ptr_parts(y)
        if bx is by: return apply3(sgn_leaf(lin_add(ox, oy, -1)), [B(j) for j in PRED[pred]])
        eq = None
        if bx.op in OBJ and (by.op in OBJ or by is NULLB) or by.op in OBJ and bx is NULLB: eq = D0
        elif by is NULLB or bx is NULLB:
            t, n = (x, y) if by is NULLB else (y, x)
            if n.op == "int" and n.args[0] == 0:
                bt, ot = ptr_parts(t)
                if bt.op == "ld" and ot is not ZERO or bt.op in NONNULL: eq = D0
                else: eq = apply3(sgn_leaf(t), (D0, D1, D0))
        if eq is None:
            p, q = sorted((x, y), key=lambda t: t.id)
            eq = case(T("peq", p, q), (D0, D1))
        return eq if pred == "eq" else dnot(eq)
    if pred not in ("eq", "ne"):
        return apply3(sgn_case(isub(a, b)), [B(j) for j in PRED[pred]])
    return apply("peq" + pred, f, a, b)
def to_bool(d):
    def f(t):
        if t.op == "int": return D1 if t.args[0] & 1 else D0
        if t is UNDEF: return D0
        return case(T("b", t), (D0, D1))
    return apply("tobool", f, d)

# ------------------------------------------------------------------ floats
INF = float("inf")
def fc(v, bits=32):
    if bits == 32 and v == v and abs(v) != INF:
        try: v = struct.unpack("<f", struct.pack("<f", v))[0]
        except OverflowError: v = math.copysign(INF, v)
    return FC(v, bits)
_fin = {}
def finite(t):
    r = _fin.get(t)
    if r is None:
        if t.op == "fc": r = abs(t.args[0]) != INF and t.args[0] == t.args[0]
        elif t.op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "fabs", "round", "floor", "ceil", "trunc", "sqrt", "fpext", "fptrunc"):
            r = all(finite(a) for a in t.args if isinstance(a, T))
        elif t.op in ("i2f", "u2f"): r = True
        elif t.op == "sub": r = finite_blob(t.args[0])
        elif t.op in ("cos", "sin", "exp", "atan", "tan"): r = finite(t.args[0])
        elif t.op in ("arg", "reach", "shift", "some-distance"): r = True
        elif t.op == "ldx": r = True
        else: r = False
        _fin[t] = r
    return r
def finite_blob(b):
    return b.op in ("init", "out")
def f_isnan(t):
    if not OPT.nan: return D0
    if t.op == "fc": return D1 if t.args[0] != t.args[0] else D0
    if t.op in ("i2f", "u2f"): return D0
    if t.op in ("fabs", "fneg", "round", "floor", "ceil", "fpext", "fptrunc"): return f_isnan(t.args[0])
    return case(T("nan", t), (D0, D1))
def cmpf_leaf(a, b):
    if a is b: return leaf(INT(1))
    if a is UNDEF or b is UNDEF: return leaf(INT(1))
    if a.op == "fc" and b.op == "fc":
        x, y = a.args[0], b.args[0]
        return leaf(INT(0 if x < y else 1 if x == y else 2))
    if OPT.finite:
        for p, q, fl in ((a, b, False), (b, a, True)):
            if q.op == "fc" and abs(q.args[0]) == INF and finite(p):
                lt = q.args[0] > 0
                return leaf(INT((0 if lt else 2) if not fl else (2 if lt else 0)))
    for p, q, fl in ((a, b, False), (b, a, True)):
        if p.op in ("fabs", "sqrt") and q.op == "fc" and q.args[0] < 0:
            return leaf(INT(2 if not fl else 0))
    if a.op == "fc" or (b.op != "fc" and a.id > b.id):
        return case(T("cmpf", b, a), (leaf(INT(2)), leaf(INT(1)), leaf(INT(0))))
    return case(T("cmpf", a, b), (leaf(INT(0)), leaf(INT(1)), leaf(INT(2))))
def cmpf_case(a, b): return apply(("cmpf", OPT.finite), cmpf_leaf, a, b)
FP = {"oeq": (0, 1, 0, 0), "ogt": (0, 0, 1, 0), "oge": (0, 1, 1, 0), "olt": (1, 0, 0, 0), "ole": (1, 1, 0, 0), "one": (1, 0, 1, 0), "ord": (1, 1, 1, 0),
      "ueq": (0, 1, 0, 1), "ugt": (0, 0, 1, 1), "uge": (0, 1, 1, 1), "ult": (1, 0, 0, 1), "ule": (1, 1, 0, 1), "une": (1, 0, 1, 1), "uno": (0, 0, 0, 1),
      "true": (1, 1, 1, 1), "false": (0, 0, 0, 0)}
def fcmp(pred, a, b):
    m = FP[pred]
    if m[:3] == (1, 1, 1): r = D1
    elif m[:3] == (0, 0, 0): r = D0
    else: r = apply3(cmpf_case(a, b), [B(j) for j in m[:3]])
    if OPT.nan:
        n = dor(apply(("isnan", OPT.nan), f_isnan, a), apply(("isnan", OPT.nan), f_isnan, b))
        r = ite(n, B(m[3]), r)
    return r
def fbin(op, a, b, bits=32):
    def f(x, y):
        if x is UNDEF or y is UNDEF: return leaf(UNDEF)
        if x.op == "fc" and y.op == "fc":
            p, q = x.args[0], y.args[0]
            try:
                if op == "fadd": return leaf(fc(p + q, bits))
                if op == "fsub": return leaf(fc(p - q, bits))
                if op == "fmul": return leaf(fc(p * q, bits))
                if op == "fdiv" and q != 0: return leaf(fc(p / q, bits))
                if op == "fdiv" and p != 0 and p == p and q == q:
                    return leaf(FC(math.copysign(INF, p) * math.copysign(1, q), bits))
            except OverflowError: pass
        z = lambda t, v: t.op == "fc" and t.args[0] == v
        if op == "fadd":
            if z(x, 0): return leaf(y)
            if z(y, 0): return leaf(x)
        if op == "fsub" and z(y, 0): return leaf(x)
        if op == "fmul":
            if z(x, 1): return leaf(y)
            if z(y, 1): return leaf(x)
        if op == "fdiv" and z(y, 1): return leaf(x)
        if op in ("fadd", "fmul") and x.id > y.id: x, y = y, x
        # infinities absorb finite operands
        if op in ("fadd", "fsub") and OPT.finite:
            if x.op == "fc" and abs(x.args[0]) == INF and finite(y): return leaf(x)
            if y.op == "fc" and abs(y.args[0]) == INF and finite(x): return leaf(y if op == "fadd" else FC(-y.args[0], y.args[1]))
        return leaf(T(op, x, y))
    return apply((op, bits, OPT.finite), f, a, b)
def f_un(op, a, bits=32):
    def f(x):
        if x is UNDEF: return leaf(x)
        if x.op == "fc":
            v = x.args[0]
            fn = {"fneg": lambda v: -v, "fabs": abs, "floor": lambda v: float(math.floor(v)), "ceil": lambda v: float(math.ceil(v)),
                  "trunc": lambda v: float(math.trunc(v)), "sqrt": math.sqrt, "round": lambda v: math.copysign(math.floor(abs(v) + 0.5), v),
                  "fpext": lambda v: v, "fptrunc": lambda v: v}.get(op)
            if fn and v == v and (abs(v) != INF or op in ("fneg", "fabs", "fpext", "fptrunc")) and not (op == "sqrt" and v < 0):
                return leaf(fc(fn(v), {"fpext": 64, "fptrunc": 32}.get(op, bits)))
        if op in ("round", "floor", "ceil", "trunc") and x.op in ("i2f", "u2f", "round", "floor", "ceil", "trunc"): return leaf(x)
        if op == "fneg" and x.op == "fneg": return leaf(x.args[0])
        if op == "fabs" and x.op in ("fabs", "sqrt"): return leaf(x)
        if op == "fabs" and x.op == "fneg": return leaf(T("fabs", x.args[0]))
        return leaf(T(op, x))
    return apply(("fun", op, bits), f, a)
def fcopysign(a, b):
    """The magnitude of one and the sign of the other number; the sign of a zero (or of no number) is left open."""
    def f(x, y):
        m = f_un("fabs", leaf(x)); t = leaf(T("copysign", x, y))
        r = apply3(cmpf_leaf(y, fc(0.0, 32)), (f_un("fneg", m), t, m))
        return ite(f_isnan(y), t, r) if OPT.nan else r
    return apply(("copysign", OPT.nan, OPT.finite), f, a, b)
def fmaxmin(op, a, b):
    """maxnum/minnum: the other operand if one is NaN."""
    def f(x, y):
        c = cmpf_leaf(x, y)
        r = apply3(c, (leaf(y), leaf(x), leaf(x)) if op == "max" else (leaf(x), leaf(x), leaf(y)))
        if OPT.nan: r = ite(f_isnan(x), leaf(y), ite(f_isnan(y), leaf(x), r))
        return r
    return apply(("fmm", op, OPT.nan, OPT.finite), f, a, b)
def f2i(a, signed=True):
    def f(x):
        if x is UNDEF: return leaf(x)
        if x.op == "fc" and x.args[0] == x.args[0]:
            v = x.args[0]; lo, hi = (-2**63, 2**63 - 1) if signed else (0, 2**64 - 1)
            return leaf(INT(lo if v < lo else hi if v > hi else int(v)))
        if x.op == "i2f": return leaf(x.args[0])
        return leaf(T("f2i" if signed else "f2u", x))
    return apply(("f2i", signed), f, a)
def i2f(a, bits=32, signed=True):
    def f(x):
        if x.op == "int": return leaf(fc(float(x.args[0]), bits))
        if x.op == "f2i" and x.args[0].op in ("round", "floor", "ceil", "trunc"): return leaf(x.args[0])
        return leaf(T("i2f" if signed else "u2f", x))
    return apply(("i2f", bits, signed), f, a)

# ------------------------------------------------------------------ rebuilding after substitution
def rebuild(x, na):
    """x with its term arguments replaced by the diagrams in na."""
    o = x.op
    if o == "lin":
        r = leaf(INT(x.args[0]))
        for (d, k) in na[1]: r = iadd(r, imul(leaf(INT(k)), d))
        return r
    if o == "imul":
        r = na[0]
        for d in na[1:]: r = imul(r, d)
        return r
    if o in ("fadd", "fsub", "fmul", "fdiv"): return fbin(o, *na)
    if o in ("fneg", "fabs", "floor", "ceil", "trunc", "sqrt", "round", "fpext", "fptrunc"): return f_un(o, na[0])
    if o == "f2i": return f2i(na[0])
    if o == "i2f": return i2f(na[0])
    if o in ("srem", "sdiv", "urem", "udiv"): return idiv(o, *na)
    if o == "ptr": return apply("mkptr", lambda b, k: leaf(mk_ptr(b, k)), na[0], na[1])
    if o == "mdd": return na[0]
    if o == "low": return band(na[0], leaf(INT((1 << x.args[1]) - 1)), 64)
    if o == "bytes" and isinstance(x.args[0], T): return apply("part%d:%d" % x.args[1:3], lambda u: leaf(t_extract(u, x.args[1], x.args[2])), D_of(na[0]))
    if o == "lshr": return lshr(na[0], na[1], 64)
    if o == "cat":
        sizes = tuple(k for _, k in x.args)
        return apply(("catted", sizes), lambda *ts: leaf(mk_cat(list(zip(ts, sizes)))), *[D_of(p[0]) for p in na])
    # opaque: lift over leaves of plain term arguments
    idx = [i for i, a in enumerate(na) if isinstance(a, D)]
    ds = [na[i] for i in idx]
    def f(*ts):
        args = list(na)
        for i, t in zip(idx, ts): args[i] = t
        if o == "ldx" and isinstance(args[0], T) and args[0].op == "init" and isinstance(args[1], T) and args[1].op == "int": return leaf(T("sub", args[0], args[1].args[0], args[2]))
        return leaf(T(o, *[wrap_arg(a) for a in args]))
    return apply(("rb", x, tuple(frozen(a) for a in na if not isinstance(a, D))), f, *ds)
def D_of(x): return x if isinstance(x, D) else leaf(x)
def frozen(a): return a.id if isinstance(a, (T, D)) else tuple(frozen(b) for b in a) if isinstance(a, tuple) else a
def wrap_arg(a):
    if isinstance(a, D): return wrap(a)
    if isinstance(a, tuple): return tuple(wrap_arg(b) for b in a)
    return a
