"""Hash-consed value terms and multi-terminal decision diagrams over comparison outcomes.

A *term* stands for the value some SSA name has, as a function of the inputs of the analysed entry
point.  A *diagram* (D) is a case distinction over the outcomes of comparisons with terms at the
leaves: it is what a gated phi node denotes.  Diagrams are canonical for a fixed variable order, so
two program fragments that compute the same gated value get the same node.
"""
import math, struct, sys
sys.setrecursionlimit(100000)

class TooComplex(Exception): pass

class T:
    __slots__ = ("id", "op", "args", "_h")
    tab = {}
    def __new__(cls, op, *args):
        k = (op,) + args
        t = cls.tab.get(k)
        if t is None:
            t = object.__new__(cls); t.id = len(cls.tab); t.op = op; t.args = args; t._h = hash(k)
            cls.tab[k] = t
        return t
    def __hash__(self): return self._h
    def __eq__(self, o): return self is o
    def __repr__(self): return show(self)

class D:
    """Diagram node: leaf (var None, term) or inner (var, kids)."""
    __slots__ = ("id", "var", "kids", "term")
    tab = {}
    limit = 400000
    def __new__(cls, var, kids, term=None):
        k = (var, kids, term)
        n = cls.tab.get(k)
        if n is None:
            if len(cls.tab) > cls.limit: raise TooComplex("diagram table")
            n = object.__new__(cls); n.id = len(cls.tab); n.var = var; n.kids = kids; n.term = term
            cls.tab[k] = n
        return n
    def __repr__(self): return show(self)

def show(x, depth=6):
    if isinstance(x, D):
        if x.var is None: return show(x.term, depth)
        if depth <= 0: return "…"
        return "{%s ? %s}" % (show(x.var, depth - 1), " | ".join(show(k, depth - 1) for k in x.kids))
    if isinstance(x, T):
        if x.op == "int": return str(x.args[0])
        if x.op == "fc": return repr(x.args[0])
        if depth <= 0: return "…"
        if x.op == "lin":
            s = " + ".join(("%s" % show(a, depth - 1)) if c == 1 else "%d*%s" % (c, show(a, depth - 1)) for a, c in x.args[1])
            return "(%s%s)" % (s, "" if x.args[0] == 0 else " + %d" % x.args[0])
        if x.op == "sub": return "%s[%s:%s]" % (show(x.args[0], depth), x.args[1], x.args[2])
        if x.op == "init": return show(x.args[0], depth)
        if x.op in ("arg", "alloca"): return str(x.args[0])
        if x.op == "mdd": return show(x.args[0], depth)
        return "%s(%s)" % (x.op, ", ".join(show(a, depth - 1) for a in x.args))
    if isinstance(x, tuple): return "(" + ", ".join(show(a, depth - 1) for a in x) + ")"
    return str(x)

def leaf(t): return D(None, None, t)
def is_leaf(d): return d.var is None
def INT(n): return T("int", n)
def FC(v, bits=32): return T("fc", v if v != 0 else (0.0 if math.copysign(1, v) > 0 else -0.0), bits, "neg" if v == 0 and math.copysign(1, v) < 0 else "")
ZERO, ONE = INT(0), INT(1)
D0, D1 = leaf(ZERO), leaf(ONE)
UNDEF = T("undef")

# ---------------------------------------------------------------- integer linear forms
def to_lin(t):
    if t.op == "int": return t.args[0], ()
    if t.op == "lin": return t.args
    return 0, ((t, 1),)
def from_lin(c, items):
    items = tuple(sorted(((a, k) for a, k in items if k), key=lambda p: p[0].id))
    if not items: return INT(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    return T("lin", c, items)
def lin_add(a, b, k=1):
    ca, ia = to_lin(a); cb, ib = to_lin(b)
    d = dict(ia)
    for t, c in ib: d[t] = d.get(t, 0) + k * c
    return from_lin(ca + k * cb, d.items())
def lin_scale(a, k):
    c, i = to_lin(a); return from_lin(c * k, [(t, x * k) for t, x in i])

# ---------------------------------------------------------------- diagrams
def top(ds):
    v = None
    for d in ds:
        if d.var is not None and (v is None or d.var.id < v.id): v = d.var
    return v
def cof(d, v, j): return d.kids[j] if d.var is v else d
def arity(v): return DOM[v.op]
DOM = {"sgn": 3, "cmpf": 3, "ucmp": 3, "b": 2, "nan": 2, "peq": 2}
def node(v, kids):
    kids = tuple(kids)
    k0 = kids[0]
    for k in kids:
        if k is not k0: return D(v, kids)
    return k0

_case_memo = {}
def case(v, kids):
    """Case distinction on v, where kids may mention variables that come before v."""
    kids = tuple(kids)
    k0 = kids[0]
    if all(k is k0 for k in kids): return k0
    key = (v, kids)
    r = _case_memo.get(key)
    if r is not None: return r
    t = top(kids)
    if t is None or v.id < t.id: r = node(v, kids)
    elif t is v: r = node(v, [cof(k, v, j) for j, k in enumerate(kids)])
    else: r = node(t, [case(v, [cof(k, t, j) for k in kids]) for j in range(arity(t))])
    _case_memo[key] = r
    return r

_app_memo = {}
def apply(name, f, *ds):
    """Lift f: terms -> D over diagrams; memoised under name (which must determine f)."""
    key = (name, ds)
    r = _app_memo.get(key)
    if r is not None: return r
    v = top(ds)
    if v is None: r = f(*[d.term for d in ds])
    else: r = case(v, [apply(name, f, *[cof(d, v, j) for d in ds]) for j in range(arity(v))])
    _app_memo[key] = r
    return r

_ite_memo = {}
def ite(c, a, b):
    if a is b: return a
    if c is D1: return a
    if c is D0: return b
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is not None: return r
    if c.var is None:   # undef or unexpected leaf: treat as an unknown boolean
        r = case(T("b", c.term), (b, a))
    else:
        v = top((c, a, b))
        r = case(v, [ite(cof(c, v, j), cof(a, v, j), cof(b, v, j)) for j in range(arity(v))])
    _ite_memo[key] = r
    return r
def dnot(a): return ite(a, D0, D1)
def dand(a, b): return ite(a, b, D0)
def dor(a, b): return ite(a, D1, b)

_res_memo = {}
def restrict(f, c):
    """Simplify f using that only the cases in c matter."""
    if c is D1 or f.var is None: return f
    if c is D0: return f
    key = (f, c)
    r = _res_memo.get(key)
    if r is not None: return r
    v = top((f, c))
    if f.var is not v:
        cc = D0
        for k in c.kids: cc = dor(cc, k)
        r = restrict(f, cc)
    else:
        ks = [(cof(f, v, j), cof(c, v, j)) for j in range(arity(v))]
        live = [restrict(a, b) for a, b in ks if b is not D0]
        if not live: r = f
        else: r = node(v, [restrict(a, b) if b is not D0 else live[0] for a, b in ks])
    _res_memo[key] = r
    return r

def leaves(d, seen=None, out=None):
    if out is None: out, seen = [], set()
    if d.id in seen: return out
    seen.add(d.id)
    if d.var is None: out.append(d.term)
    else:
        for k in d.kids: leaves(k, seen, out)
    return out
def vars_of(d, seen=None, out=None):
    if out is None: out, seen = [], set()
    if d.id in seen: return out
    seen.add(d.id)
    if d.var is not None:
        if d.var not in out: out.append(d.var)
        for k in d.kids: vars_of(k, seen, out)
    return out
def paths(d, pre=()):
    """All (assignment, leaf term) of a diagram; assignment is a tuple of (var, outcome)."""
    if d.var is None: yield pre, d.term
    else:
        for j, k in enumerate(d.kids): yield from paths(k, pre + ((d.var, j),))

def wrap(d):
    """A diagram as a term (for use inside opaque applications)."""
    return d.term if d.var is None else T("mdd", d)
def unwrap(t):
    return t.args[0] if t.op == "mdd" else leaf(t)

def subterms(x, seen=None):
    """All terms reachable from a term or diagram."""
    if seen is None: seen = set()
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, D):
            if ("d", y.id) in seen: continue
            seen.add(("d", y.id))
            if y.var is None: st.append(y.term)
            else: st.append(y.var); st.extend(y.kids)
        elif isinstance(y, T):
            if y.id in seen: continue
            seen.add(y.id); yield y; st.extend(y.args)
        elif isinstance(y, tuple): st.extend(y)

_subst_memo = {}
def subst(x, m, mid):
    """Replace terms (keys of dict m) in a term or diagram; mid identifies m for memoisation. Returns D."""
    from ops import rebuild
    if isinstance(x, D):
        key = ("d", x.id, mid)
        r = _subst_memo.get(key)
        if r is not None: return r
        if x.var is None: r = subst(x.term, m, mid)
        else:
            kids = [subst(k, m, mid) for k in x.kids]
            r = rebuild_case(x.var, kids, m, mid)
        _subst_memo[key] = r
        return r
    if x in m:
        y = m[x]
        return y if isinstance(y, D) else leaf(y)
    key = (x.id, mid)
    r = _subst_memo.get(key)
    if r is not None: return r
    def sub_arg(a):
        if isinstance(a, T): return subst(a, m, mid)
        if isinstance(a, D): return subst(a, m, mid)
        if isinstance(a, tuple): return tuple(sub_arg(b) for b in a)
        return a
    na = [sub_arg(a) for a in x.args]
    def same(a, b):
        if isinstance(a, T): return b.var is None and b.term is a
        if isinstance(a, D): return a is b
        if isinstance(a, tuple): return all(same(p, q) for p, q in zip(a, b))
        return True
    if all(same(a, b) for a, b in zip(x.args, na)): r = leaf(x)
    else: r = rebuild(x, na)
    _subst_memo[key] = r
    return r
def rebuild_case(v, kids, m, mid):
    from ops import sgn_case, cmpf_case, ucmp_case
    if v.op == "sgn": return apply3(sgn_case(subst(v.args[0], m, mid)), kids)
    if v.op == "cmpf": return apply3(cmpf_case(subst(v.args[0], m, mid), subst(v.args[1], m, mid)), kids)
    if v.op == "ucmp": return apply3(ucmp_case(subst(v.args[0], m, mid), subst(v.args[1], m, mid)), kids)
    s = [subst(a, m, mid) if isinstance(a, T) else a for a in v.args]
    if v.op in ("b",):
        from ops import to_bool
        return ite(to_bool(s[0]), kids[1], kids[0])
    if all(isinstance(q, D) and q.var is None for q in s): return case(T(v.op, *[q.term for q in s]), kids)
    return case(T(v.op, *[wrap(q) if isinstance(q, D) else q for q in s]), kids)
def apply3(sel, kids):
    """sel: diagram with int leaves choosing among kids."""
    key = ("sel", sel, tuple(kids))
    r = _ite_memo.get(key)
    if r is not None: return r
    if sel.var is None: r = kids[sel.term.args[0]]
    else: r = case(sel.var, [apply3(k, [restrict_to(x, sel.var, j) for x in kids]) for j, k in enumerate(sel.kids)])
    _ite_memo[key] = r
    return r
def restrict_to(d, v, j):
    if d.var is None or d.var.id > v.id: return d
    if d.var is v: return d.kids[j]
    key = (d, v, j)
    r = _restrict_memo.get(key)
    if r is None: r = _restrict_memo[key] = node(d.var, [restrict_to(k, v, j) for k in d.kids])
    return r
_restrict_memo = {}
