"""Deciding relations between values over all outcomes of the comparisons they are gated by."""
from fractions import Fraction as Fr
from terms import *
import ops, arith
from ops import *
from arith import *

class Unproved(Exception):
    def __init__(self, what, path=(), detail=""):
        Exception.__init__(self, what); self.what, self.path, self.detail = what, path, detail

REL = {0: "<", 1: "=", 2: ">"}
class Ctx:
    """Facts that hold in the context of an obligation."""
    MAXPATHS = 60000
    def __init__(self, positive=(), nonneg=(), facts=(), ints=(), mult=(), exact=False, scale=()):
        self.exact = exact; self.scale = {x: u for x, u in scale}
        self.shared = set(positive) | set(nonneg); self.bmemo = {}
        self.mult = []; self.paths = 0; self.queries = 0; self.memo = {}
        self.cmemo = {}; self.vmemo = {}; self.reps = {}; self.smemo = {}; self.polys = {}
        self.pos = set(positive); self.base = []      # (Poly, rel) meaning poly rel 0
        for t in positive: self.base.append((self.nrm(t).n, ">"))
        for t in nonneg: self.base.append((self.nrm(t).n, ">="))
        for a, rel, b in facts: self.base += self.fact(self.nrm(a), rel, self.nrm(b))
        for t in ints: INT_ATOMS.add(t)
        self.mult = [norm(t).n for t in mult]
    def assume(self, a, rel, b):
        self.base += self.fact(self.nrm(a), rel, self.nrm(b)); self.memo = {}
    # -------------------------------------------------- facts
    def sign(self, p):
        """+1 / -1 if p is known to be positive / negative, else None."""
        c = p.const()
        if c is not None: return 1 if c > 0 else -1 if c < 0 else None
        s = None
        for k, v in p.m.items():
            for a, e in k:
                if e % 2 and a not in self.pos and not (a.op == "fn" and a.args[0] == "exp"): return None
            t = 1 if v > 0 else -1
            if s is None: s = t
            elif s != t: return None
        return s
    def fact(self, a, rel, b):
        """a rel b as polynomial facts (list), [] if it cannot be expressed."""
        if any(infinite(x) for x in (a, b)): return self.inf_fact(a, rel, b)
        n = a.n * b.d - b.n * a.d; d = a.d * b.d
        if rel in ("=", "!="):
            return [(self.strip(n), rel)]
        s = self.sign(d)
        if s is None:
            # keep the quotients as atoms
            x, y = a, b
            if a.d.const() is None: x = Ra(T("quot", a.term()))
            if b.d.const() is None: y = Ra(T("quot", b.term()))
            n = x.n * y.d - y.n * x.d; s = self.sign(x.d * y.d)
            if s is None: return []
        if s < 0: n = n.scale(-1)
        return [(self.strip(n), rel)]
    def strip(self, p):
        """Without common factors that are positive."""
        common = None
        for k in p.m:
            dk = dict(k); common = dk if common is None else {a: min(e, dk[a]) for a, e in common.items() if a in dk}
        common = {a: e for a, e in (common or {}).items() if a in self.pos}
        if not common: return p
        inv = tuple((a, -e) for a, e in common.items())
        return Poly({mono_mul(k, inv): v for k, v in p.m.items()})
    def inf_fact(self, a, rel, b): return []
    def feasible(self, facts):
        key = frozenset((p.key(), r) for p, r in facts)
        r = self.memo.get(key)
        if r is None:
            r = None
            if len(facts) > 3:      # unrelated facts are looked at separately
                cs = self.components(facts)
                if len(cs) > 1: r = all(self.feasible(c) for c in cs)
            if r is None:
                self.queries += 1
                r = self.feasible1(facts)
            self.memo[key] = r
        return r
    def feasible1(self, facts):
        allf = eliminate(list(self.base) + list(facts))
        for p, r in list(allf):
            for m in self.mult:
                if r != "!=": allf.append((p * m, r))
        # properties of the atoms involved
        done = set(); alts = []; w = [a for p, _ in allf for a in p.atoms()]
        while w:
            a = w.pop()
            if a in done: continue
            done.add(a)
            for alt in self.axioms(a):
                if len(alt) == 1: allf += alt[0]
                elif alt: alts.append(alt)
                for br in alt:
                    for p, _ in br: w += [x for x in p.atoms() if x not in done]
        return self.search(allf, alts)
    def components(self, facts):
        parts = []
        for f in facts:
            b = set(self.basic(f[0])); fs = [f]; nr = []
            for pb, pf in parts:
                if b & pb: b |= pb; fs = pf + fs
                else: nr.append((pb, pf))
            parts = nr + [(b, fs)]
        return [fs for _, fs in parts]
    def search(self, allf, alts):
        if not self.lp(allf): return False
        if not alts: return True
        for br in alts[0]:
            if self.search(allf + br, alts[1:]): return True
        return False
    def lp(self, allf):
        cons = []; mono = {}
        neqs = []
        for p, r in allf:
            d = {}; k = Fr(0)
            for mo, v in p.m.items():
                if mo == (): k += v
                else: d[mono.setdefault(mo, len(mono))] = v
            if r == "!=": neqs.append((d, k, p)); continue
            if r in (">", ">="): d = {v: -x for v, x in d.items()}; k = -k; r = "<" if r == ">" else "<="
            if r == "<" and int_poly(p): r = "<="; k = k + 1
            cons.append((d, k, r))
        if not lp_feasible(cons): return False
        for d, k, p in neqs:
            one = 1 if int_poly(p) else 0
            lo = cons + [(d, k + one, "<=" if one else "<")]
            hi = cons + [({v: -x for v, x in d.items()}, -k + one, "<=" if one else "<")]
            if not lp_feasible(lo) and not lp_feasible(hi): return False
        return True
    def axioms(self, a):
        """What is known about an atom: a list of disjunctions of lists of facts."""
        if a.op != "fn": return []
        f = a.args[0]; x = arith._ratof[a.args[1]]; s = patom(a)
        sd = self.sign(x.d)
        if sd is None: n, d = patom(T("quot", a.args[1])), P1
        elif sd > 0: n, d = x.n, x.d
        else: n, d = x.n.scale(-1), x.d.scale(-1)
        h = pconst(Fr(1, 2))
        S = s * d
        if f == "floor": return [[[(S - n, "<="), (n - S - d, "<")]]]
        if f in ("ceil", "round"):
            fl = patom(fn_atom("floor", x)); F = fl * d
            base = [[(F - n, "<="), (n - F - d, "<")]]
            if f == "ceil": return [base, [[(s - fl, "="), (F - n, "=")], [(s - fl - P1, "="), (F - n, "<")]]]
            return [base, [[(S - n - d * h, "<="), (n - S - d * h, "<=")]], [[(s - fl, "="), (n - F - d * h, "<=")], [(s - fl - P1, "="), (n - F - d * h, ">=")]]]
        if f == "trunc":
            fl = patom(fn_atom("floor", x)); F = fl * d
            return [[[(F - n, "<="), (n - F - d, "<")]], [[(n, ">="), (s - fl, "=")], [(n, "<"), (F - n, "="), (s - fl, "=")], [(n, "<"), (F - n, "<"), (s - fl - P1, "=")]]]
        if f == "fabs": return [[[(S - n, "="), (n, ">=")], [(S + n, "="), (n, "<")]]]
        if f == "sqrt": return [[[(s, ">=")]]]
        if f == "exp": return [[[(s, ">")]]]
        if f in ("srem", "sdiv"):
            y = arith._ratof[a.args[2]]
            if y.d.const() != 1 or x.d.const() != 1 or self.sign(y.n) != 1: return []
            q, r = patom(fn_atom("sdiv", x, y)), patom(fn_atom("srem", x, y))
            return [[[(x.n - q * y.n - r, "=")]], [[(x.n, ">="), (r, ">="), (r - y.n, "<")], [(x.n, "<"), (r, "<="), (r + y.n, ">")]]]
        if f in ("urem", "udiv"):
            y = arith._ratof[a.args[2]]
            if y.d.const() != 1 or x.d.const() != 1 or self.sign(y.n) != 1: return []
            q, r = patom(fn_atom("udiv", x, y)), patom(fn_atom("urem", x, y))
            return [[[(x.n - q * y.n - r, "=")]], [[(r, ">="), (r - y.n, "<")]]]
        return []
    NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "=": "!=", "!=": "="}
    def entails(self, facts, a, rel, b):
        """Do the facts imply a rel b (terms)?"""
        x, y = self.nrm(a), self.nrm(b)
        if rel == "=":
            if not (x.n * y.d - y.n * x.d).m: return True
            f1 = self.fact(x, "<", y); f2 = self.fact(x, ">", y)
            if not f1 or not f2: return False
            return not self.feasible(list(facts) + f1) and not self.feasible(list(facts) + f2)
        n = self.fact(x, self.NEG[rel], y)
        if not n: return False
        return not self.feasible(list(facts) + n)
    def same(self, facts, a, b):
        """Equal in every situation that satisfies the facts."""
        if same(a, b): return True
        x, y = self.nrm(a), self.nrm(b)
        if not (x.n * y.d - y.n * x.d).m: return True
        if self.entails(facts, a, "=", b): return True
        m = {}
        for p, r in facts:
            if r != "=": continue
            lin = [k for k in p.m if k]
            if len(lin) == 1 and len(lin[0]) == 1 and lin[0][0][1] == 1 and lin[0][0][0].op != "fn":
                m[lin[0][0][0]] = -p.m.get((), Fr(0)) / p.m[lin[0]]
        if m:
            mm = {}
            for t, v in m.items():
                mm[t] = INT(int(v)) if v.denominator == 1 and int_atom(t) else FC(float(v), 32)
            mid = ("eqs", tuple(sorted((t.id, x.id) for t, x in mm.items())))
            x, y = subst(a, mm, mid), subst(b, mm, mid)
            if x.var is None and y.var is None and (x.term is y.term or same(x.term, y.term)): return True
        return False
    # -------------------------------------------------- canonical comparisons
    def cvar(self, v):
        if v in self.vmemo: return self.vmemo[v]
        s = None
        if v.op == "sgn": s = self.signof(self.nrm(v.args[0]))
        elif v.op == "cmpf": s = self.signof_cmp(v.args[0], v.args[1])
        elif v.op == "ucmp": s = self.ucanon(v)
        self.vmemo[v] = s
        return s
    def ren(self, t):
        """The term with tolerances of the size of rounding noise as zero (in exact contexts) and lengths in units of the resolution."""
        m = {}
        if self.exact or self.scale:
            for x in subterms(t):
                if self.exact and x.op == "fc" and 0 < abs(x.args[0]) <= 1e-6 and x.args[0] == x.args[0]: m[x] = FC(0.0, x.args[1])
                u = self.scale.get(x)
                if u is not None: m[x] = fbin("fmul", leaf(T("units", show(x))), leaf(u))
        if m:
            d = subst(t, m, ("ren", tuple(sorted((x.id, y.id) for x, y in m.items()))))
            if d.var is None: t = d.term
        return t
    def nrm(self, t):
        """Normal form, with absolute values of values of known sign resolved."""
        r = norm(self.ren(t))
        for a in sorted(r.n.atoms() | r.d.atoms(), key=lambda a: a.id):
            if a.op == "fn" and a.args[0] == "fabs":
                x = arith._ratof[a.args[1]]; s = self.signof(x)
                if s.var is None: r = rat_sub(r, a, Rc(0) - x if s.term.args[0] == 0 else x)
        return r
    def canon(self, d, top_level=True):
        """The same case distinction over signs of normalised polynomials, with equal values made identical."""
        r = self.cmemo.get(d)
        if r is not None: return r
        if d.var is None: r = leaf(self.rep(d.term))
        else:
            if top_level:       # keep the order of the comparisons
                for w in self.grouped(vars_of(d)): self.cvar(w)
            kids = [self.canon(k, False) for k in d.kids]
            s = self.cvar(d.var)
            r = apply3(s, kids) if s is not None else case(d.var, kids)
        self.cmemo[d] = r
        return r
    def grouped(self, vs):
        """Comparisons in their order, those about the same inputs together."""
        parts = []
        for v in sorted(vs, key=lambda t: t.id):
            b = set(self.basic(v)); mine = [v]; nr = []; at = None
            for pb, pv in parts:
                if b & pb:
                    b |= pb; mine = pv + mine
                    if at is None: at = len(nr); nr.append(None)
                else: nr.append((pb, pv))
            if at is None: nr.append((b, mine))
            else: nr[at] = (b, sorted(mine, key=lambda t: t.id))
            parts = nr
        return [v for _, p in parts for v in p]
    def rep(self, t):
        if t.op in ("int", "fc", "undef"): return t
        t = self.ren(t)
        if t.op in ("ptr", "cat", "zx", "agg"): return t
        k = norm(t).term()
        r = self.reps.setdefault(k, t)
        return r
    def signof_cmp(self, a, b):
        x, y = self.nrm(a), self.nrm(b)
        if infinite(x) or infinite(y): return case(T("cmpf", a, b), (leaf(INT(0)), leaf(INT(1)), leaf(INT(2))))
        return self.signof(x - y)
    def ucanon(self, v):
        a, b = norm(v.args[0]), norm(v.args[1])
        nn = [not self.feasible(self.fact(x, "<", Rc(0))) for x in (a, b)]
        if all(nn): return self.signof(a - b)
        if nn[1]:   # a <u b  <=>  0 <= a < b
            return apply3(self.signof(a), (leaf(INT(2)), self.signof(a - b), self.signof(a - b)))
        if nn[0]: return apply3(self.signof(b), (leaf(INT(0)), self.signof(a - b), self.signof(a - b)))
        return case(v, (leaf(INT(0)), leaf(INT(1)), leaf(INT(2))))
    def signof(self, r):
        """Diagram with leaves 0 / 1 / 2 for a negative / zero / positive value."""
        for a in sorted(r.n.atoms() | r.d.atoms(), key=lambda a: a.id):
            if a.op == "fn" and a.args[0] == "fabs":
                x = arith._ratof[a.args[1]]
                s = self.signof(x)
                pos = self.signof(rat_sub(r, a, x))
                return apply3(s, (self.signof(rat_sub(r, a, Rc(0) - x)), pos, pos))
        sd = self.sign(r.d)
        n = r.n
        if sd is None:
            return flip_if(self.signp(r.d), self.signp(n))
        if sd < 0: n = n.scale(-1)
        return self.signp(n)
    def signp(self, p):
        k = p.key(); q = self.smemo.get(k)
        if q is not None: return q
        self.smemo[k] = q = self.signp1(p)
        return q
    def signp1(self, p):
        c = p.const()
        if c is not None: return leaf(INT(0 if c < 0 else 1 if c == 0 else 2))
        # drop common factors of known sign; split off the others
        common = None
        for k in p.m:
            dk = dict(k); common = dk if common is None else {a: min(e, dk[a]) for a, e in common.items() if a in dk}
        if common:
            inv = tuple((a, -e) for a, e in common.items())
            rest = Poly({mono_mul(k, inv): v for k, v in p.m.items()})
            out = self.signp(rest) if rest.const() is None else leaf(INT(2 if rest.const() > 0 else 0))
            for a, e in sorted(common.items(), key=lambda x: x[0].id):
                s = self.atom_sign(a)
                if e % 2 == 0: s = apply("sq3", lambda z: leaf(INT(1 if z.args[0] == 1 else 2)), s)
                out = flip_if(s, out)
            return out
        # a square root against something else: compare the squares
        roots = [a for a in p.atoms() if a.op == "fn" and a.args[0] == "sqrt"]
        if len(roots) == 1 and roots[0] not in self.pos:
            a = roots[0]; ks = [k for k in p.m if any(x is a for x, _ in k)]
            if ks == [((a, 1),)]:
                c = p.m[ks[0]]; q = arith._ratof[a.args[1]]; r = Poly({k: v for k, v in p.m.items() if k is not ks[0]})
                if c < 0: r = r.scale(-1)
                s = apply3(self.signp(r), (self.signof(Rc(c * c) * q - Rat(r) * Rat(r)), self.signof(q), leaf(INT(2))))
                return s if c > 0 else flip_if(leaf(INT(0)), s)
        lead = min(p.m, key=lambda k: tuple((a.id, e) for a, e in k))
        s = p.m[lead]; fl = s < 0
        p = p.scale(1 / abs(s))
        if fl: p = p.scale(-1)
        if int_poly(p.scale(abs(s))) and not int_poly(p): p = p.scale(abs(s))
        return self.var(p, fl)
    def var(self, p, fl):
        live = [j for j in range(3) if self.feasible([(p, REL[j])])]
        if len(live) == 1: return leaf(INT(2 - live[0] if fl else live[0]))
        t = T("poly", *rat_key(Rat(p))[:1], tuple(sorted(p.atoms(), key=lambda a: a.id)))
        self.polys[t] = p
        o = [2, 1, 0] if fl else [0, 1, 2]
        kids = [leaf(INT(o[j])) for j in range(3)]
        for j in range(3):
            if j not in live: kids[j] = kids[live[0]]
        return case(T("sgn", t), kids)
    def atom_sign(self, a):
        if a in self.pos: return leaf(INT(2))
        if a.op == "fn":
            f = a.args[0]
            if f == "exp": return leaf(INT(2))
            x = arith._ratof[a.args[1]]
            if f == "fabs": return apply("sq3", lambda z: leaf(INT(1 if z.args[0] == 1 else 2)), self.signof(x))
        return self.var(patom(a), False)
    # -------------------------------------------------- paths
    def outcome_facts(self, v, j):
        """Facts of outcome j of comparison v; list of alternatives (each a list of facts)."""
        if v.op == "sgn" and v.args[0].op == "poly": return [[(self.polys[v.args[0]], REL[j])]]
        if v.op == "sgn": return [self.fact(norm(v.args[0]), REL[j], Rc(0))]
        if v.op == "cmpf": return [self.fact(self.nrm(v.args[0]), REL[j], self.nrm(v.args[1]))]
        if v.op == "ucmp":
            a, b = norm(v.args[0]), norm(v.args[1])
            if j == 1: return [self.fact(a, "=", b)]
            if j == 0: # a <u b:  0<=a<b, or b<0<=a, or both negative and a<b
                z = Rc(0)
                return [self.fact(a, ">=", z) + self.fact(a, "<", b), self.fact(a, ">=", z) + self.fact(b, "<", z), self.fact(b, "<", z) + self.fact(a, "<", b)]
            z = Rc(0)
            return [self.fact(b, ">=", z) + self.fact(b, "<", a), self.fact(b, ">=", z) + self.fact(a, "<", z), self.fact(a, "<", z) + self.fact(b, "<", a)]
        return [[]]
    def basic(self, x):
        """The inputs a polynomial, term or diagram depends on (shared parameters excepted)."""
        k = x.key() if isinstance(x, Poly) else x
        r = self.bmemo.get(k)
        if r is not None: return r
        if isinstance(x, Poly):
            r = set()
            for a in x.atoms(): r |= self.basic(a)
        elif isinstance(x, T):
            if x.op == "fn":
                r = set()
                for y in x.args[1:]:
                    y = arith._ratof[y]; r |= self.basic(y.n) | self.basic(y.d)
            elif x in self.polys: r = self.basic(self.polys[x])
            elif x.op == "int" or x.op == "fc" or x in self.shared: r = set()
            elif x.op in ("sgn", "cmpf", "ucmp"):
                r = set()
                for y in x.args: r |= self.basic(y)
            else:
                q = norm(x)
                if q.d.const() == 1 and len(q.n.m) == 1 and x in q.n.atoms(): r = {x}
                else: r = self.basic(q.n) | self.basic(q.d)
        else:
            if x.var is None: r = self.basic(x.term)
            else:
                r = set(self.basic(x.var))
                for y in x.kids: r |= self.basic(y)
        r = frozenset(r)
        self.bmemo[k] = r
        return r
    def relevant(self, facts, ds):
        """The facts connected with what is left to decide."""
        sup = set()
        for d in ds: sup |= self.basic(d)
        rest = list(facts); keep = set(); ch = True
        while ch and rest:
            ch = False; nr = []
            for f in rest:
                b = self.basic(f[0])
                if not b or b & sup: sup |= b; keep.add(f); ch = True
                else: nr.append(f)
            rest = nr
        return tuple(f for f in facts if f in keep)
    def each(self, ds, fn, facts=(), path=(), stop=None, raw=False, seen=None):
        """Calls fn(facts, path, leaf terms) for every consistent joint outcome of the diagrams ds."""
        ds = list(ds)
        if not raw: ds = [self.canon(d) for d in ds]; seen = set()
        if stop is not None and stop(ds): return
        v = top(ds)
        facts = self.relevant(facts, ds)
        key = (tuple(d.id for d in ds), frozenset((p.key(), r) for p, r in facts))
        if key in seen: return
        seen.add(key)
        if v is None:
            terms = [d.term for d in ds]
            self.paths += 1
            if self.paths > self.MAXPATHS: raise Unproved("too many cases")
            fn(list(facts), path, terms); return
        for j in range(arity(v)):
            for alt in self.outcome_facts(v, j):
                nf = tuple(facts) + tuple(alt)
                if alt and not self.feasible(list(nf)): continue
                self.each([cof(d, v, j) for d in ds], fn, nf, path + ((v, j),), stop, True, seen)
    def holds(self, cond, facts, path=()):
        """Is the diagram cond true under the facts?  Returns None or a falsifying path."""
        bad = []
        def f(fs, p, ts):
            if ts[0] is not ONE: bad.append(p)
        self.each([cond], f, facts, path, stop=lambda ds: bad or ds[0] is D1)
        return bad[0] if bad else None
def flip_if(s, r):
    """Sign of a product."""
    return apply("mul3", lambda a, b: leaf(INT(1 if 1 in (a.args[0], b.args[0]) else 2 if a.args[0] == b.args[0] else 0)), s, r)

def eliminate(fs):
    """Facts with the atoms that are known to have one value replaced by it (in products too)."""
    val = {}
    for p, r in fs:
        if r != "=": continue
        lin = [k for k in p.m if k]
        if len(lin) == 1 and len(lin[0]) == 1 and lin[0][0][1] == 1: val[lin[0][0][0]] = -p.m.get((), Fr(0)) / p.m[lin[0]]
    if not val: return fs
    out = list(fs)
    for p, r in fs:
        if not any(len(k) + sum(e for _, e in k) > 2 and any(a in val for a, _ in k) for k in p.m): continue
        m = {}
        for k, v in p.m.items():
            for a, e in k:
                if a in val: v = v * val[a] ** e
            if v: kk = tuple(x for x in k if x[0] not in val); m[kk] = m.get(kk, Fr(0)) + v
        out.append((Poly({k: v for k, v in m.items() if v}), r))
    return out
def rat_sub(r, atom, by):
    def f(p):
        q = Rc(0)
        for k, v in p.m.items():
            t = Rat(Poly({tuple(x for x in k if x[0] is not atom): v}))
            for _ in range(dict(k).get(atom, 0)): t = t * by
            q = q + t
        return q
    return f(r.n) / f(r.d)
def infinite(r): return any(a.op == "fc" for a in r.n.atoms() | r.d.atoms())
def int_poly(p): return all(v.denominator == 1 for v in p.m.values()) and all(int_atom(a) for a in p.atoms())

_polys = {}
def repr_poly(t):
    p = Poly({tuple((next(a for a in t.args[1] if a.id == i), e) for i, e in k): v for k, v in t.args[0]})
    return repr(p)
def show_path(path, n=12):
    out = []
    for v, j in path[:n]:
        if isinstance(v, T):
            if v.op in ("sgn", "cmpf", "ucmp"):
                l = repr_poly(v.args[0]) if v.args[0].op == "poly" else show(v.args[0], 4); r = show(v.args[1], 4) if len(v.args) > 1 else "0"
                out.append("%s %s %s" % (l, REL[j], r))
            else: out.append("%s%s" % ("" if j else "not ", show(v, 4)))
        else: out.append("%s %s 0" % (v, j))
    return " and ".join(out) + (" and ..." if len(path) > n else "")
