"""Access paths to the inputs and results of the entry points, in the vocabulary of the properties."""
import re
import extract as EX, ll
from engine import *
from engine import Analyzer
from layout import Layout
import ops, arith, graph
from ops import OPT
from arith import norm, same, INT_ATOMS
from prove import *

_layout = None
def layout():
    global _layout
    if _layout is None: _layout = Layout(EX.raw_text())
    return _layout
MAPN = "GridMapN<f32, nalgebra::base::dimension::U%d, ndarray::dimension::dim::Dim<[usize; %d]>>"
def mapfield(n, f):
    """(offset, size) of a field of a grid map of dimension n."""
    L = layout(); fs = {}
    def walk(ref, off):
        for nm, o, sz, t in L.members(ref):
            ty = L.type_name(t); fs.setdefault(nm, []).append((off + o, sz, ty))
            if not re.match(r"(ArrayBase|Vec|Bounds|Cell|RefCell|Mutex|PhantomData)<", ty) and L.md.get(t, ("",))[0] == "DICompositeType": walk(t, off + o)
    walk(L.find(MAPN % (n, n)), 0)
    if len(fs.get(f, [])) == 1: return fs[f][0][:2]
    # under another name: the only field of its type
    c = [x for xs in fs.values() for x in xs if re.match(FIELDTYPE[f], x[2])]
    if len(c) != 1: raise Unproved("the grid map has no field named " + f)
    return c[0][:2]
FIELDTYPE = {"data": r"ArrayBase<", "bounds": r"Bounds<", "tile_size": r"usize$", "resolution": r"f32$", "track_changes": r"bool$", "changed_cells": r"Vec<nalgebra::geometry::point::Point<isize"}

AX = "xyz"
DIMS = (2, 3)
_an = {}
def analyse(root, cuts=(), nan=False, finite=True, peel=None, models=(), noclobber=(), flags=(), nopeel=None, preset=None, keep=(), rewrite=None):
    key = (root, tuple(cuts), nan, finite, peel, tuple(m[0] for m in models), tuple(noclobber), tuple(flags), nopeel, preset, tuple(keep), rewrite and rewrite.__name__)
    if key in _an: return _an[key]
    OPT.nan, OPT.finite = nan, finite
    more = [f for f, d in EX.raw().dem.items() if f in EX.raw().defined and any(re.search(k, d) for k in keep)]
    m = EX.group([root] + [f[1:].strip('"') for f in more], list(cuts), flags=flags, rewrite=rewrite)
    a = Analyzer(m, noclobber=noclobber)
    if peel is not None: a.PEEL = peel
    if nopeel: a.nopeel = re.compile(nopeel)
    a.preset = preset
    a.models = [(re.compile(p), h) for p, h in models]
    a.run(root); a.rootname = root
    _an[key] = a
    return a

def inp(arg, off, size): return T("sub", T("init", T("arg", arg)), off, size)
def fpt(arg, i, base=0):        # coordinate i of a point of floats
    return inp(arg, base + 4 * i, 4)
def cel(arg, i, base=0):        # coordinate i of a cell
    t = inp(arg, base + 8 * i, 8); INT_ATOMS.add(t); return t
def iarg(n): t = T("arg", n); INT_ATOMS.add(t); return t
def farg(n): return T("arg", n)
def out(a, arg, off, size): return read_obj(a.obj(a.state, T("arg", arg)), off, size)
def outf(a, arg, off): return as_float(out(a, arg, off, 4), 32)
def outi(a, arg, off): return as_int(out(a, arg, off, 8))
def changed_bytes(a, arg):
    """Byte ranges of an argument's referent that do not hold their initial value at the end."""
    base = T("arg", arg); o = a.state.mem.get(base); r = []
    if o is None: return r
    if o.blob is not leaf(T("init", base)): return [("*", show(o.blob, 3))]
    for off, (s, d) in sorted(o.cells.items()):
        if d is not leaf(T("sub", T("init", base), off, s)): r.append((off, s))
    return r
def panics(a, D_=None):
    return [e for e in a.events if e.kind == "panic"]
def calls(a, pat=None):
    return [e for e in a.events if e.kind == "call" and (pat is None or re.search(pat, e.name))]

# building expected values
def D_(x): return x if isinstance(x, D) else leaf(x)
def fadd(a, b): return fbin("fadd", D_(a), D_(b))
def fsub(a, b): return fbin("fsub", D_(a), D_(b))
def fmul(a, b): return fbin("fmul", D_(a), D_(b))
def fdiv(a, b): return fbin("fdiv", D_(a), D_(b))
def fun(op, a): return f_un(op, D_(a))
def toint(a): return f2i(D_(a))
def tof(a): return i2f(D_(a))
def fmin(a, b): return ite(fcmp("olt", D_(b), D_(a)), D_(b), D_(a))
def fmax(a, b): return ite(fcmp("ogt", D_(b), D_(a)), D_(b), D_(a))
def flt(a, b): return fcmp("olt", D_(a), D_(b))
def fle(a, b): return fcmp("ole", D_(a), D_(b))
def feq(a, b): return fcmp("oeq", D_(a), D_(b))
def ige(a, b): return ile(b, a)
def ile(a, b): return icmp("sle", D_(a), D_(b), 64)
def ilt(a, b): return icmp("slt", D_(a), D_(b), 64)
def ieq(a, b): return icmp("eq", D_(a), D_(b), 64)
def all_(cs):
    r = D1
    for c in cs: r = dand(r, c)
    return r
def C(v): return FC(float(v), 32)
FZERO = FC(0.0, 32)

def exact(d):
    """Comparisons with a tolerance of rounding-noise size become exact ones."""
    m = {}
    for t in subterms(d):
        if t.op == "fc" and 0 < abs(t.args[0]) <= 1e-6 and t.args[0] == t.args[0]: m[t] = FC(0.0, t.args[1])
    if not m: return d
    return subst(d, m, ("exact", tuple(sorted(t.id for t in m))))

def stores(a):
    """Stores that someone else can see: (event, base, offset, cond) of every target."""
    out = []
    for e in a.events:
        if e.kind != "store": continue
        for cond, p in split_leaves(e.args[0]):
            if p is UNDEF: continue
            b, o = ptr_parts(p)
            if b.op in ("alloca", "heap"): continue
            g = dand(e.guard, cond)
            if g is not D0: out.append((e, b, o, g))
    return out
def region(n, *fields):
    """Byte offsets of the named fields of a grid map."""
    r = set()
    for f in fields:
        o, s = mapfield(n, f); r |= set(range(o, o + s))
    return r
def bytes_of(ch):
    r = set()
    for o, s in ch:
        if o == "*": return None
        r |= set(range(o, o + s))
    return r
ARR = "ArrayBase<ndarray::data_repr::OwnedRepr<f32>, ndarray::dimension::dim::Dim<[usize; %d]>>"
def arrfield(n, f): return layout().fields(ARR % n)[f][:2]
class MapView:
    """The parts of a grid map argument as they were on entry."""
    def __init__(self, n, arg="map", base=0):
        self.n, self.arg = n, arg
        d, _ = mapfield(n, "data"); d += base
        po, _ = arrfield(n, "ptr"); do, _ = arrfield(n, "dim"); so, _ = arrfield(n, "strides")
        self.ptr = T("ld", inp(arg, d + po, 8))
        self.dim = [inp(arg, d + do + 8 * i, 8) for i in range(n)]
        self.stride = [inp(arg, d + so + 8 * i, 8) for i in range(n)]
        for t in self.dim + self.stride: INT_ATOMS.add(t)
        o, _ = mapfield(n, "bounds"); o += base
        self.lo = [fpt(arg, i, o) for i in range(n)]; self.hi = [fpt(arg, n + i, o) for i in range(n)]
        self.res = inp(arg, mapfield(n, "resolution")[0] + base, 4)
        self.tile = inp(arg, mapfield(n, "tile_size")[0] + base, 8); INT_ATOMS.add(self.tile)
    def inside(self, cell): return all_([dand(ile(D0, c), ilt(c, d)) for c, d in zip(cell, self.dim)])
    def address(self, cell):
        o = D0
        for c, s in zip(cell, self.stride): o = iadd(o, imul(imul(leaf(c), leaf(s)), leaf(INT(4))))
        return o
