"""Normal forms and a polyhedral domain for arithmetic over value terms.

Terms become rational functions over atoms (inputs, loop symbols, and applications such as round(x) or
cos(x) whose argument is itself in normal form).  Arithmetic is that of the reals: what rounding of
single operations does is outside of this domain.  Comparison outcomes are linear constraints over the
monomials of such functions; a conjunction of them is consistent iff its polyhedron is not empty.
"""
from fractions import Fraction as Fr
from terms import *

class Poly:
    __slots__ = ("m", "_k")
    def __init__(self, m): self.m = {k: v for k, v in m.items() if v}; self._k = None
    def key(self):
        if self._k is None: self._k = tuple(sorted(((tuple((a.id, e) for a, e in k), v) for k, v in self.m.items())))
        return self._k
    def __add__(self, o):
        r = dict(self.m)
        for k, v in o.m.items(): r[k] = r.get(k, 0) + v
        return Poly(r)
    def scale(self, c): return Poly({k: v * c for k, v in self.m.items()})
    def __sub__(self, o): return self + o.scale(-1)
    def __mul__(self, o):
        r = {}
        for k, v in self.m.items():
            for q, w in o.m.items():
                x = mono_mul(k, q); r[x] = r.get(x, 0) + v * w
        return Poly(r)
    def const(self):
        if not self.m: return Fr(0)
        if len(self.m) == 1 and () in self.m: return self.m[()]
        return None
    def atoms(self): return {a for k in self.m for a, _ in k}
    def __repr__(self):
        if not self.m: return "0"
        out = []
        for k, v in sorted(self.m.items(), key=lambda p: tuple((a.id, e) for a, e in p[0])):
            s = "*".join(name(a) + ("^%d" % e if e > 1 else "") for a, e in k)
            out.append(("%s" % v if not s else s if v == 1 else "-" + s if v == -1 else "%s*%s" % (v, s)))
        return " + ".join(out)
def mono_mul(a, b):
    d = dict(a)
    for x, e in b: d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda p: p[0].id))
P0, P1 = Poly({}), Poly({(): Fr(1)})
def pconst(c): return Poly({(): Fr(c)})
def patom(a): return Poly({((a, 1),): Fr(1)})

class Rat:
    __slots__ = ("n", "d")
    def __init__(self, n, d=P1): self.n, self.d = reduce_(n, d)
    def __add__(self, o):
        if self.d.key() == o.d.key(): return Rat(self.n + o.n, self.d)
        return Rat(self.n * o.d + o.n * self.d, self.d * o.d)
    def __sub__(self, o): return self + Rat(o.n.scale(-1), o.d)
    def __mul__(self, o): return Rat(self.n * o.n, self.d * o.d)
    def __truediv__(self, o):
        if not o.n.m: return Rat(patom(T("div0", self.term())))
        return Rat(self.n * o.d, self.d * o.n)
    def term(self): return T("rat", *rat_key(self))
    def __repr__(self): return "%s" % self.n if self.d.const() == 1 else "(%s)/(%s)" % (self.n, self.d)
def reduce_(n, d):
    if not n.m: return P0, P1
    # common monomial factor
    common = None
    for p in (n, d):
        for k in p.m:
            dk = dict(k)
            common = dk if common is None else {a: min(e, dk[a]) for a, e in common.items() if a in dk}
    if common:
        inv = tuple((a, -e) for a, e in common.items())
        n = Poly({mono_mul(k, inv): v for k, v in n.m.items()}); d = Poly({mono_mul(k, inv): v for k, v in d.m.items()})
    lead = min(d.m, key=lambda k: tuple((a.id, e) for a, e in k)); c = d.m[lead]
    if c != 1: n, d = n.scale(1 / c), d.scale(1 / c)
    if d.const() is None and len(d.m) > 1:
        q = pdiv(n, d)
        if q is not None: return q, P1
        q = pdiv(d, n) if n.const() is None else None
        if q is not None: return reduce_(P1, q)
    return n, d
def pdiv(n, d):
    """Exact division by a polynomial, or None."""
    order = lambda k: (sum(e for _, e in k), tuple((a.id, e) for a, e in k))
    ld = max(d.m, key=order); q = P0; r = n
    for _ in range(40):
        if not r.m: return q
        lr = max(r.m, key=order)
        k = dict(lr)
        for a, e in ld:
            if k.get(a, 0) < e: return None
            k[a] -= e
        t = Poly({tuple(sorted(((a, e) for a, e in k.items() if e), key=lambda p: p[0].id)): r.m[lr] / d.m[ld]})
        q = q + t; r = r - t * d
    return None
def rat_key(r):
    f = lambda p: tuple(sorted((tuple(sorted(k, key=lambda x: x[0].id)), v) for k, v in p.m.items())) if False else p.key()
    return f(r.n), f(r.d), tuple(sorted(r.n.atoms() | r.d.atoms(), key=lambda a: a.id))

_names = {}
def name(a):
    if a in _names: return _names[a]
    if a.op == "fn":
        return "%s(%s)" % (a.args[0], ", ".join(repr(_ratof[x]) if x in _ratof else show(x, 3) for x in a.args[1:]))
    return show(a, 4)
_ratof = {}
def fn_atom(f, *rs):
    ts = []
    for r in rs:
        t = r.term(); _ratof[t] = r; ts.append(t)
    return T("fn", f, *ts)
INTFN = ("round", "floor", "ceil", "trunc")
EVEN = ("fabs", "cos")
def is_int(r):
    """Is the value always an integer?"""
    if r.d.const() != 1: return False
    for k, v in r.n.m.items():
        if v.denominator != 1: return False
        for a, _ in k:
            if not int_atom(a): return False
    return True
INT_ATOMS = set()     # extra atoms known to be integers
def int_atom(a):
    if a in INT_ATOMS or a.op in ("tile-of", "tile-above"): return True
    if a.op == "fn": return a.args[0] in INTFN + ("sdiv", "srem", "udiv", "urem", "int", "low")
    return False

_norm = {}
def norm(t):
    """Normal form of a term as a Rat."""
    r = _norm.get(t)
    if r is None: r = _norm[t] = norm1(t)
    return r
def Rc(c): return Rat(pconst(c))
def Ra(a): return Rat(patom(a))
def norm1(t):
    o = t.op
    if o == "int": return Rc(t.args[0])
    if o == "fc":
        v = t.args[0]
        if v != v or abs(v) == float("inf"): return Ra(t)
        return Rc(Fr(v))
    if o == "lin":
        r = Rc(t.args[0])
        for a, k in t.args[1]: r = r + intterm(a) * Rc(k)
        return r
    if o == "imul":
        r = Rc(1)
        for a in t.args: r = r * intterm(a)
        return r
    if o == "fadd": return norm(t.args[0]) + norm(t.args[1])
    if o == "fsub": return norm(t.args[0]) - norm(t.args[1])
    if o == "fmul": return norm(t.args[0]) * norm(t.args[1])
    if o == "fdiv": return norm(t.args[0]) / norm(t.args[1])
    if o == "fneg": return Rc(0) - norm(t.args[0])
    if o in ("fpext", "fptrunc"): return norm(t.args[0])
    if o in ("i2f", "u2f"): return intterm(t.args[0])
    if o in ("f2i", "f2u"):
        r = norm(t.args[0])
        if is_int(r): return r
        return Ra(fn_atom("trunc", r))
    if o in INTFN:
        r = norm(t.args[0])
        if is_int(r): return r
        if o == "trunc": return Ra(fn_atom(o, r))
        # integer offsets move through
        return Ra(fn_atom(o, r))
    if o in ("sqrt", "fabs", "cos", "sin", "exp", "ln", "tan", "log1p", "expm1", "pow", "atan", "log2", "log10"):
        rs = [norm(a) for a in t.args]
        if o in EVEN and lead_neg(rs[0]): rs[0] = Rc(0) - rs[0]
        inner = {"exp": "ln", "ln": "exp"}.get(o)
        if inner and rs[0].d.const() == 1 and len(rs[0].n.m) == 1:
            (k, v), = rs[0].n.m.items()
            if v == 1 and len(k) == 1 and k[0][1] == 1 and k[0][0].op == "fn" and k[0][0].args[0] == inner: return _ratof[k[0][0].args[1]]
        if o in ("log1p",): return Ra(fn_atom("ln", rs[0] + Rc(1)))
        if o == "expm1": return Ra(fn_atom("exp", rs[0])) - Rc(1)
        if o == "exp" and lead_neg(rs[0]): return Rc(1) / Ra(fn_atom("exp", Rc(0) - rs[0]))
        if o == "fabs":
            c = rs[0].n.const()
            if c is not None and rs[0].d.const() == 1: return Rc(abs(c))
        return Ra(fn_atom(o, *rs))
    if o in ("sdiv", "srem", "udiv", "urem"):
        x, y = norm(t.args[0]), norm(t.args[1])
        if o[0] == "s" and lead_neg(x): return Rc(0) - Ra(fn_atom(o, Rc(0) - x, y))       # both are odd in what is divided
        return Ra(fn_atom(o, x, y))
    if o == "zx" and t.args[0].op == "mdd": return Ra(t)
    if o == "zx": return intterm(t.args[0]) if t.args[1] >= 8 else Ra(t)
    return Ra(t)
def intterm(a):
    return norm(a)
def lead_neg(r):
    k = min(r.n.m, key=lambda k: tuple((a.id, e) for a, e in k), default=None)
    return k is not None and r.n.m[k] < 0
def same(a, b):
    """Equal as rational functions?"""
    if a is b: return True
    x, y = norm(a), norm(b)
    return not (x.n * y.d - y.n * x.d).m

# ------------------------------------------------------------------ polyhedra
class Infeasible(Exception): pass

def lp_feasible(cons):
    """cons: list of (dict var->Fr, const, rel) meaning sum + const rel 0, rel in '<','<=','='.
    Exact: Gaussian elimination of the equalities, then Fourier-Motzkin / simplex on the rest."""
    eqs = [(dict(c), k) for c, k, r in cons if r == "="]
    ine = [(dict(c), k, r) for c, k, r in cons if r != "="]
    while eqs:
        c, k = eqs.pop()
        c = {v: x for v, x in c.items() if x}
        if not c:
            if k != 0: return False
            continue
        v = min(c, key=lambda v: v if isinstance(v, int) else 0); p = c[v]
        def elim(d, kk):
            f = d.get(v)
            if not f: return d, kk
            f = f / p; d = dict(d)
            for w, x in c.items():
                y = d.get(w, 0) - f * x
                if y: d[w] = y
                else: d.pop(w, None)
            return d, kk - f * k
        eqs = [elim(d, kk) for d, kk in eqs]
        ine = [elim(d, kk) + (r,) for d, kk, r in ine]
    rows = []
    seen = {}
    for d, k, r in ine:
        d = {v: x for v, x in d.items() if x}
        if not d:
            if k > 0 or (k == 0 and r == "<"): return False
            continue
        # normalise scale
        s = abs(next(iter(sorted(d.items())))[1])
        key = tuple(sorted((v, x / s) for v, x in d.items())); k = k / s
        o = seen.get(key)
        if o is None or k > o[0] or (k == o[0] and r == "<"): seen[key] = (k, r)
    rows = [(dict(key), k, r) for key, (k, r) in seen.items()]
    if not rows: return True
    # drop variables that occur with one sign only (they can absorb their rows)
    ch = True
    while ch and rows:
        ch = False
        sg = {}
        for d, k, r in rows:
            for v, x in d.items(): sg[v] = sg.get(v, 0) | (1 if x > 0 else 2)
        free = {v for v, s in sg.items() if s != 3}
        if free:
            n = [row for row in rows if not any(v in free for v in row[0])]
            if len(n) != len(rows): rows = n; ch = True
    if not rows: return True
    return simplex_feasible(rows)

def simplex_feasible(rows):
    """Is there x with  a.x + k <= 0 (or < 0)?  Maximise eps with a.x + eps*[strict] + k <= 0, eps <= 1."""
    vs = sorted({v for d, _, _ in rows for v in d})
    n = len(vs); idx = {v: i for i, v in enumerate(vs)}
    # free variables split: x = p - q (q shared): p_i - q
    ncol = n + 2   # p_i >= 0, q >= 0, eps >= 0
    A = []; b = []
    for d, k, r in rows:
        row = [Fr(0)] * ncol
        for v, x in d.items(): row[idx[v]] += x; row[n] -= x
        if r == "<": row[n + 1] = Fr(1)
        A.append(row); b.append(-k)
    A.append([Fr(0)] * (n + 1) + [Fr(1)]); b.append(Fr(1))
    strict = any(r == "<" for _, _, r in rows)
    m = len(A)
    # phase 1: with artificial variable x0:  A x - x0 <= b
    basis = [ncol + 1 + i for i in range(m)]   # slack i -> ncol+1+i ; x0 -> ncol
    T_ = [A[i] + [Fr(-1)] + [Fr(1) if j == i else Fr(0) for j in range(m)] + [b[i]] for i in range(m)]
    W = ncol + 1 + m
    def pivot(r, c):
        p = T_[r][c]; T_[r] = [x / p for x in T_[r]]
        pr = T_[r]
        nz = [j for j, x in enumerate(pr) if x]
        for i in range(m):
            if i != r and T_[i][c]:
                f = T_[i][c]; row = T_[i]
                for j in nz: row[j] -= f * pr[j]
        for o in objs:
            f = o[c]
            if f:
                for j in nz: o[j] -= f * pr[j]
        basis[r] = c
    obj1 = [Fr(0)] * (W + 1); obj1[ncol] = Fr(1)      # minimise x0
    obj2 = [Fr(0)] * (W + 1); obj2[n + 1] = Fr(-1)    # maximise eps
    objs = [obj1, obj2]
    def solve(o, allowed):
        while True:
            c = next((j for j in range(W) if allowed(j) and o[j] < 0), None)     # Bland
            if c is None: return
            best = None
            for i in range(m):
                if T_[i][c] > 0:
                    q = T_[i][W] / T_[i][c]
                    if best is None or q < best[0] or (q == best[0] and basis[i] < basis[best[1]]): best = (q, i)
            if best is None: return
            pivot(best[1], c)
    r = min(range(m), key=lambda i: b[i])
    if b[r] < 0:
        pivot(r, ncol)
        solve(obj1, lambda j: True)
        if -obj1[W] > 0: return False
        if ncol in basis:
            i = basis.index(ncol)
            c = next((j for j in range(W) if j != ncol and T_[i][j]), None)
            if c is not None: pivot(i, c)
    if not strict: return True
    solve(obj2, lambda j: j != ncol)
    return obj2[W] > 0
