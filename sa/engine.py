"""Forward value-flow analysis of one entry point over SSA form.

Every SSA name and every byte range of every object gets a gated value (terms.D) as a function of the
entry point's inputs.  Joins build case distinctions over the branch outcomes, loops with a statically
known number of iterations are expanded, all other loops are summarised by their initial values, their
per-iteration transfer and their exits.  Calls to functions outside of the analysed group become
uninterpreted applications to their arguments and everything those point to.
"""
import re
import ll
from terms import *
import ops
from ops import *

class Unsupported(Exception): pass

class Obj:
    __slots__ = ("cells", "blob")
    def __init__(self, cells, blob): self.cells, self.blob = cells, blob

class State:
    __slots__ = ("mem",)
    def __init__(self, mem=None): self.mem = dict(mem or {})
    def copy(self): return State(self.mem)

class Event:
    def __init__(self, kind, guard, name, args, inst, fn, loops, term=None):
        self.kind, self.guard, self.name, self.args, self.inst, self.fn, self.loops, self.term = kind, guard, name, args, inst, fn, loops, term
    def __repr__(self): return "<%s %s %s guard=%s loops=%s>" % (self.kind, self.name, [show(a) for a in self.args], show(self.guard, 3), self.loops)

class LoopInfo:
    pass

class CFG:
    """Block order, dominators and natural loops of one function."""
    def __init__(self, f):
        self.f = f
        entry = f.order[0]
        self.entry = entry
        post = []; seen = set(); st = [(entry, iter(f.blocks[entry].succs()))]; seen.add(entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s, iter(f.blocks[s].succs()))); break
            else: post.append(b); st.pop()
        self.rpo = post[::-1]; self.idx = {b: i for i, b in enumerate(self.rpo)}
        self.preds = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in f.blocks[b].succs():
                if b not in self.preds[s]: self.preds[s].append(b)
        idom = {entry: entry}; ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.preds[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while self.idx[x] > self.idx[y]: x = idom[x]
                        while self.idx[y] > self.idx[x]: y = idom[y]
                    n = x
                if idom.get(b) != n: idom[b] = n; ch = True
        self.idom = idom
        self.loops = {}
        for b in self.rpo:
            for s in f.blocks[b].succs():
                if self.idx[s] <= self.idx[b]:
                    if not self.dom(s, b): raise Unsupported("irreducible control flow in " + f.name)
                    body = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in body: continue
                        body.add(x); w += self.preds[x]
        # blocks that can only end in a dead end (panic / unreachable)
        self.dead = set()
        for b in reversed(self.rpo):
            t = f.blocks[b].term
            if t.op == "unreachable": self.dead.add(b)
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                if b in self.dead: continue
                ss = f.blocks[b].succs()
                if ss and all(s in self.dead for s in ss): self.dead.add(b); ch = True
    def dom(self, a, b):
        while self.idx[b] > self.idx[a]: b = self.idom[b]
        return a == b
    def inner(self, header, region):
        """Loops strictly inside of region whose header is not `header`, outermost first."""

class Edge:
    __slots__ = ("guard", "state", "phis", "src")
    def __init__(self, guard, state, phis, src): self.guard, self.state, self.phis, self.src = guard, state, phis, src

def as_float(d, bits):
    def f(t):
        if t.op == "int":
            if bits == 32: return leaf(FC(struct.unpack("<f", struct.pack("<I", t.args[0] & 0xffffffff))[0], 32))
            return leaf(FC(struct.unpack("<d", struct.pack("<Q", t.args[0] & (2**64 - 1)))[0], 64))
        if t.op == "mdd": return as_float(t.args[0], bits)
        return leaf(t)
    if d.var is None and d.term.op not in ("int", "mdd"): return d
    return apply(("asf", bits), f, d)
def as_int(d):
    def f(t):
        if t.op == "fc":
            b = struct.pack("<f" if t.args[1] == 32 else "<d", t.args[0])
            return leaf(INT(int.from_bytes(b, "little", signed=True)))
        return leaf(t)
    return apply("asi", f, d)

def restr(d, g):
    return d if g is D1 else restrict(d, g)

# calls that may end the program because memory ran out or a size computation overflowed
CAPACITY = re.compile(r"alloc::raw_vec::(handle_error|capacity_overflow)|handle_alloc_error|capacity_overflow|try_reserve_exact_error|alloc_error")
ALLOC = re.compile(r"__rust_alloc$|__rust_alloc_zeroed$|exchange_malloc$")
IGNORED = ("llvm.lifetime.", "llvm.experimental.noalias", "llvm.dbg", "llvm.invariant", "llvm.donothing", "llvm.prefetch", "llvm.var.annotation", "llvm.pseudoprobe")
PURE_FLOAT = {"round": "round", "floor": "floor", "ceil": "ceil", "trunc": "trunc", "sqrt": "sqrt", "fabs": "fabs"}
MATH = {"cosf": "cos", "cos": "cos", "sinf": "sin", "sin": "sin", "logf": "ln", "log": "ln", "expf": "exp", "exp": "exp", "log1pf": "log1p", "expm1f": "expm1", "tanf": "tan", "tan": "tan",
        "roundf": "round", "floorf": "floor", "ceilf": "ceil", "truncf": "trunc", "sqrtf": "sqrt", "round": "round", "fabsf": "fabs", "hypotf": "hypot", "powf": "pow", "sincos": "sincos",
        "atan2f": "atan2", "tanhf": "tanh", "log2f": "log2", "log10f": "log10"}

class Analyzer:
    PEEL = 40
    nopeel = None     # loops that call these functions are always summarised
    preset = None     # fills in the memory an analysis starts with
    def __init__(self, mod, cuts=(), noclobber=(), max_depth=12):
        self.m = mod; self.cfgs = {}; self.events = []; self.loops = []; self.nloop = 0; self.nheap = 0
        self.max_depth = max_depth; self.noclobber = [re.compile(x) for x in noclobber]
        self.globals = {}; self.loopstack = []; self.stats = dict(functions=set(), blocks=0, instrs=0, calls=0)
        self.heapnames = {}
        self.models = []   # list of (regex, handler)

    # ------------------------------------------------------------- entry
    def run(self, root):
        f = ll.body(self.m, "@" + root)
        st = State(); env = {}
        self.root = f
        self.inputs = {}
        for t, n, a in f.params:
            if t == ("ptr",): v = leaf(mk_ptr(T("arg", n[1:]), ZERO))
            else: v = leaf(T("arg", n[1:]))
            if t == ("i", 1): v = to_bool(v)
            env[n] = v; self.inputs[n[1:]] = (t, v, a)
        if self.preset: self.preset(st)
        self.ret = self.exec_fn(f, env, st, D1, (), 0)
        self.result, self.state, self.guard = self.ret
        return self
    def exec_fn(self, f, env, st, guard, path, depth):
        if f.name not in self.cfgs: self.cfgs[f.name] = CFG(f)
        g = self.cfgs[f.name]; self.stats["functions"].add(f.name)
        fr = Frame(self, f, g, env, path, depth)
        rets = []
        fr.region(set(g.rpo), g.entry, [Edge(guard, st, {}, None)], rets, None)
        if not rets: return None, None, D0
        G = D0
        for e, v in rets: G = dor(G, e.guard)
        state = merge_states(self, [(e.guard, e.state) for e, v in rets], G)
        val = None
        if rets[0][1] is not None: val = merge_vals([(e.guard, v) for e, v in rets], G)
        return val, state, G

    # ------------------------------------------------------------- memory
    def obj(self, st, base):
        o = st.mem.get(base)
        if o is None:
            if base.op == "alloca" or base.op == "heap": o = Obj({}, leaf(UNDEF))
            elif base.op == "global": o = Obj(self.global_cells(base.args[0]), leaf(T("init", base)))
            else: o = Obj({}, leaf(T("init", base)))
            st.mem[base] = o
        return o
    def global_cells(self, name):
        if name in self.globals: return dict(self.globals[name])
        cells = {}
        txt = self.m.globals.get(name)
        try:
            if txt and " constant " in " " + txt and not txt.startswith("external"):
                body = txt.split("constant ", 1)[1]
                p = ll.P(ll.tokenize(body)); t = ll.parse_type(p); v = ll.parse_value(p, t)
                self.flatten(t, v, 0, cells)
        except SyntaxError: pass
        self.globals[name] = cells
        return dict(cells)
    def flatten(self, t, v, off, cells):
        if v[0] == "bytes":
            raw = v[1][2:-1] if v[1].startswith("c") else v[1][1:-1]
            b = bytearray(); i = 0
            while i < len(raw):
                if raw[i] == "\\" and raw[i + 1] != "\\": b.append(int(raw[i + 1:i + 3], 16)); i += 3
                elif raw[i] == "\\": b.append(92); i += 2
                else: b.append(ord(raw[i])); i += 1
            for i in range(0, len(b), 8):
                c = b[i:i + 8]; cells[off + i] = (len(c), leaf(INT(int.from_bytes(c, "little", signed=True))))
        elif v[0] == "agg":
            for i, (et, ev) in enumerate(v[1]):
                o, _ = ll.field_off(t, i); self.flatten(et, ev, off + o, cells)
        elif v[0] == "zero": cells[off] = (ll.size_of(t), D0)
        elif v[0] == "undef": pass
        else:
            d = self.const(t, v)
            cells[off] = (ll.size_of(t), d)
    def const(self, t, v):
        k = v[0]
        if k == "c":
            if t[0] == "f": return leaf(FC(v[1], t[1]))
            return leaf(INT(fits(v[1], t[1]) if t[0] == "i" else v[1]))
        if k == "g": return leaf(mk_ptr(T("global", v[1]), ZERO))
        if k == "undef": return leaf(UNDEF)
        if k == "zero":
            if t[0] == "f": return leaf(FC(0.0, t[1]))
            if t[0] in ("st", "arr", "vec"): return leaf(ZERO)
            return D0
        if k == "ce":
            if v[1] == "gep":
                b = self.const(("ptr",), v[3][0][1]); return self.gep(b, v[2], [(ot, self.const(ot, ov)) for ot, ov in v[3][1:]])
            if v[1] in ("inttoptr", "ptrtoint", "bitcast", "addrspacecast", "ptrtoaddr"): return self.const(v[2], v[3])
            if v[1] in ("add", "sub"): return (iadd if v[1] == "add" else isub)(self.const(v[2], v[3]), self.const(v[2], v[4]))
        if k == "agg": return leaf(T("aggc", *[wrap(self.const(et, ev)) for et, ev in v[1]]))
        raise Unsupported("constant %s" % (v,))
    def gep(self, base, t, idx):
        off = imul(idx[0][1], leaf(INT(ll.size_of(t)))); cur = t
        for ot, d in idx[1:]:
            if cur[0] == "st":
                o, cur = ll.field_off(cur, d.term.args[0]); off = iadd(off, leaf(INT(o)))
            else: off = iadd(off, imul(d, leaf(INT(ll.size_of(cur[2]))))); cur = cur[2]
        return apply("ptradd", lambda p, k: leaf(ptr_add(p, k)) if p is not UNDEF else leaf(UNDEF), base, off)
    def load(self, st, ptr, size):
        def one(p):
            if p is UNDEF: return leaf(UNDEF)
            b, o = ptr_parts(p)
            if b is NULLB: return leaf(UNDEF)
            ob = self.obj(st, b)
            if o.op == "int": return read_obj(ob, o.args[0], size)
            return leaf(T("ldx", content(ob), o, size))
        if ptr.var is None: return one(ptr.term)
        return lift1(one, ptr)
    def store(self, st, ptr, size, val):
        if ptr.var is None: return self.store1(st, ptr.term, size, val)
        # a store through a case distinction: merge the outcomes
        outs = []
        for cond, t in split_leaves(ptr):
            s2 = st.copy(); self.store1(s2, t, size, val); outs.append((cond, s2))
        m = merge_states(self, outs, D1); st.mem = m.mem
    def store1(self, st, p, size, val):
        if p is UNDEF: return
        b, o = ptr_parts(p)
        ob = self.obj(st, b)
        if o.op == "int": st.mem[b] = write_obj(ob, o.args[0], size, val)
        else: st.mem[b] = Obj({}, leaf(T("stx", content(ob), o, size, wrap(val))))
    def havoc(self, st, b, lo, size, term):
        """[lo, lo+size) of object b (all of it if size is None) becomes unknown bytes named by term."""
        ob = self.obj(st, b)
        if size is None: st.mem[b] = Obj({}, leaf(term))
        elif lo.op == "int": st.mem[b] = write_obj(ob, lo.args[0], size, leaf(T("sub", term, 0, size)))
        else: st.mem[b] = Obj({}, leaf(T("stx", content(ob), lo, size, term)))

def lift1(f, d):
    """Like apply, without memoisation (f depends on the state)."""
    memo = {}
    def go(x):
        r = memo.get(x)
        if r is None:
            r = f(x.term) if x.var is None else case(x.var, [go(k) for k in x.kids])
            memo[x] = r
        return r
    return go(d)
def split_leaves(d):
    """[(condition diagram, leaf term)]"""
    out = []
    for t in leaves(d):
        memo = {}
        def go(x):
            if x.var is None: return D1 if x.term is t else D0
            if x not in memo: memo[x] = case(x.var, [go(k) for k in x.kids])
            return memo[x]
        out.append((go(d), t))
    return out

def content(ob):
    if not ob.cells: return wrap(ob.blob)
    return T("obj", wrap(ob.blob), tuple((o, s, wrap(d)) for o, (s, d) in sorted(ob.cells.items())))
def sub_blob(blob, off, size):
    def f(b):
        if b is UNDEF: return leaf(UNDEF)
        if b.op == "obj":
            return read_obj(Obj({o: (s, unwrap(t)) for o, s, t in b.args[1]}, unwrap(b.args[0])), off, size)
        if b.op == "mdd": return sub_blob(b.args[0], off, size)
        if b.op == "bset": # memset
            v = b.args[0]
            if v.op == "int":
                x = v.args[0] & 255; return leaf(INT(fits(int.from_bytes(bytes([x]) * size, "little"), 8 * size)))
        return leaf(T("sub", b, off, size))
    return lift1(f, blob)
def read_obj(ob, off, size):
    c = ob.cells.get(off)
    if c is not None and c[0] == size: return c[1]
    parts = []; pos = off; end = off + size
    for o in sorted(ob.cells):
        s, d = ob.cells[o]
        if o + s <= pos or o >= end: continue
        if o > pos: parts.append((sub_blob(ob.blob, pos, o - pos), o - pos)); pos = o
        lo = pos - o; n = min(o + s, end) - pos
        parts.append((extract(d, lo, n, s), n)); pos += n
        if pos >= end: break
    if pos < end: parts.append((sub_blob(ob.blob, pos, end - pos), end - pos))
    return dcat(parts)
def write_obj(ob, off, size, val):
    cells = {}; end = off + size
    for o, (s, d) in ob.cells.items():
        if o + s <= off or o >= end: cells[o] = (s, d); continue
        if o < off: cells[o] = (off - o, extract(d, 0, off - o, s))
        if o + s > end: cells[end] = (o + s - end, extract(d, end - o, o + s - end, s))
    # split packed values into their parts
    if val.var is None and val.term.op in ("cat", "zx") and t_size(val.term) == size:
        pos = off
        for p, n in cat_parts(val.term, size):
            cells[pos] = (n, unwrap(p)); pos += n
    else: cells[off] = (size, val)
    return Obj(cells, ob.blob)

def merge_vals(gvs, G):
    v = gvs[-1][1]
    for g, x in reversed(gvs[:-1]): v = ite(g, x, v)
    return restr(v, G)
def merge_states(an, gs, G):
    if len(gs) == 1: return gs[0][1].copy()
    bases = {}
    for _, s in gs:
        for b in s.mem: bases[b] = 1
    out = {}
    for b in bases:
        os_ = [(g, s.mem.get(b)) for g, s in gs]
        if any(o is None for _, o in os_):
            if b.op in ("alloca", "heap"):
                os_ = [(g, o) for g, o in os_ if o is not None]     # not allocated on the other paths
            else: os_ = [(g, o if o is not None else an.obj(State(), b)) for g, o in os_]
        o0 = os_[0][1]
        if all(o is o0 for _, o in os_): out[b] = o0; continue
        blob = o0.blob if all(o.blob is o0.blob for _, o in os_) else merge_vals([(g, o.blob) for g, o in os_], G)
        cuts = set()
        for _, o in os_:
            for c, (s, _) in o.cells.items(): cuts.add(c); cuts.add(c + s)
        cs = sorted(cuts); cells = {}
        for lo, hi in zip(cs, cs[1:]):
            if not any(c <= lo and hi <= c + s for _, o in os_ for c, (s, _) in o.cells.items()): continue
            # keep whole cells together when every side has them or does not touch them
            vs = [(g, read_obj(o, lo, hi - lo)) for g, o in os_]
            v0 = vs[0][1]
            cells[lo] = (hi - lo, v0 if all(v is v0 for _, v in vs) else merge_vals(vs, G))
        out[b] = Obj(cells, blob)
    return State(out)

class Frame:
    def __init__(self, an, f, cfg, env, path, depth):
        self.an, self.f, self.cfg, self.env, self.path, self.depth = an, f, cfg, env, path, depth
    # ------------------------------------------------------------- regions and loops
    def region(self, blocks, entry, edges, rets, header):
        """Processes a set of blocks entered at entry; returns edges leaving it and the back edges to header."""
        cfg = self.cfg
        inflow = {entry: list(edges)}
        exits = {}; back = []
        skip = set()
        order = [b for b in cfg.rpo if b in blocks]
        for b in order:
            if b in skip: continue
            es = [e for e in inflow.pop(b, []) if e.guard is not D0]
            if not es: continue
            if b in cfg.loops and b != header:
                body = cfg.loops[b]
                skip |= body
                for (dst, e) in self.loop(b, body, es, rets):
                    if dst in blocks and not (dst == header): inflow.setdefault(dst, []).append(e)
                    elif dst == header: back.append(e)
                    else: exits.setdefault(dst, []).append(e)
                continue
            G, st = self.enter(b, es)
            for dst, e in self.block(b, G, st, rets):
                if dst == header: back.append(e)
                elif dst in blocks: inflow.setdefault(dst, []).append(e)
                else: exits.setdefault(dst, []).append(e)
        return exits, back
    def enter(self, b, es):
        G = D0
        for e in es: G = dor(G, e.guard)
        st = merge_states(self.an, [(e.guard, e.state) for e in es], G)
        for ph in self.f.blocks[b].phis:
            self.env[ph.res] = merge_vals([(e.guard, e.phis[ph.res]) for e in es], G)
        return G, st
    def loop(self, h, body, es, rets):
        an = self.an
        if not (an.nopeel and self.calls_in(body, an.nopeel)):
            r = self.peel(h, body, es, rets)
            if r is not None: return r
        return self.summarise(h, body, es, rets)
    def calls_in(self, body, pat):
        for b in body:
            bl = self.f.blocks[b]
            for i in bl.instrs + [bl.term]:
                c = i.extra
                if i.op in ("call", "invoke") and c and c[0] == "g" and pat.search(self.an.m.dem.get(c[1], c[1][1:])): return True
        return False
    def exit_test_folded(self, body):
        """Did some branch that leaves the loop have a known outcome in the last iteration?"""
        return self.folded
    def peel(self, h, body, es, rets):
        an = self.an
        ev0 = len(an.events); lo0 = len(an.loops); n0 = (an.nloop, an.nheap); r0 = len(rets)
        out = []; cur = es
        for k in range(an.PEEL):
            self.foldedset = set(); save = getattr(self, "body_stack", [])
            self.body_stack = save + [body]; self.folded_by = getattr(self, "folded_by", {})
            self.folded_by[h] = False
            exits, back = self.region(body, h, cur, rets, h)
            self.body_stack = save
            out += [(d, e) for d, l in exits.items() for e in l]
            back = [e for e in back if e.guard is not D0]
            if not back: return out
            if not self.folded_by[h]: break
            cur = back
        del an.events[ev0:]; del an.loops[lo0:]; an.nloop, an.nheap = n0; del rets[r0:]
        return None
    def summarise(self, h, body, es, rets):
        an = self.an
        n = an.nloop; an.nloop += 1
        G0 = D0
        for e in es: G0 = dor(G0, e.guard)
        pre = merge_states(an, [(e.guard, e.state) for e in es], G0)
        phis = self.f.blocks[h].phis
        init = {}
        for ph in phis: init[("phi", ph.res)] = merge_vals([(e.guard, e.phis[ph.res]) for e in es], G0)
        kinds = {k: "mu" for k in init}; strides = {}; forms = {}
        pointers = {("phi", ph.res) for ph in phis if ph.ty[0] == "ptr"}
        memvars = {}      # (base, off, size) varying cells ; base -> whole object
        whole = set()
        it = T("it", n)
        ev0, lo0, nl0, nh0, rt0 = len(an.events), len(an.loops), an.nloop, an.nheap, len(rets)
        for rnd in range(14):
            del an.events[ev0:]; del an.loops[lo0:]; an.nloop, an.nheap = nl0, nh0; del rets[rt0:]
            def advance(key, ini, k):
                if key in pointers: return apply("padv", lambda p, q: leaf(ptr_add(p, q)), ini, leaf(lin_scale(k, strides[key])))
                return apply("ptradd", lambda p, q: leaf(t_add(p, q)), ini, leaf(lin_scale(k, strides[key])))
            def sym(key, ini):
                if kinds[key] == "lin": return advance(key, ini, it)
                if kinds[key] == "inv": return ini
                if kinds[key] == "fn": return forms[key]
                return leaf(T("mu", n, keyname(key)))
            head = pre.copy()
            for b in whole: head.mem[b] = Obj({}, leaf(T("muobj", n, b)))
            for (b, o, s) in memvars:
                if b in whole: continue
                key = ("mem", b, o, s)
                head.mem[b] = write_obj(an.obj(head, b), o, s, sym(key, init[key]))
            hphis = {ph.res: sym(("phi", ph.res), init[("phi", ph.res)]) for ph in phis}
            an.loopstack.append(n)
            headmem = dict(head.mem)
            exits, back = self.region(body, h, [Edge(D1, head, hphis, None)], rets, h)
            an.loopstack.pop()
            back = [e for e in back if e.guard is not D0]
            if not back: break
            GB = D0
            for e in back: GB = dor(GB, e.guard)
            bst = merge_states(an, [(e.guard, e.state) for e in back], GB)
            bphi = {ph.res: merge_vals([(e.guard, e.phis[ph.res]) for e in back], GB) for ph in phis}
            changed = False
            nxt = {}
            for ph in phis:
                key = ("phi", ph.res); nxt[key] = bphi[ph.res]
            for b in bst.mem:
                o1 = bst.mem[b]; o0 = headmem.get(b)
                if b in whole: nxt[("obj", b)] = o1; continue
                if o0 is None: o0 = an.obj(State(), b)
                if o1 is o0: continue
                if o1.blob is not o0.blob: whole.add(b); changed = True; continue
                cuts = set()
                for o in (o0, o1):
                    for c, (s, _) in o.cells.items(): cuts.add(c); cuts.add(c + s)
                cs = sorted(cuts)
                for lo, hi in zip(cs, cs[1:]):
                    if not any(c <= lo and hi <= c + s for o in (o0, o1) for c, (s, _) in o.cells.items()): continue
                    v0 = read_obj(o0, lo, hi - lo); v1 = read_obj(o1, lo, hi - lo)
                    key = ("mem", b, lo, hi - lo)
                    if key[1:] in memvars: nxt[key] = v1; continue
                    if v0 is v1: continue
                    if b.op == "alloca" and all(t is UNDEF for t in leaves(v0)): 
                        # scratch storage: written before it is read in every iteration, or unknown
                        pass
                    # drop overlapping older variables
                    for k2 in [k2 for k2 in memvars if k2[0] is b and k2[1] < hi and lo < k2[1] + k2[2]]:
                        del memvars[k2]; kinds.pop(("mem",) + k2, None)
                    memvars[key[1:]] = 1; kinds[key] = "mu"; init[key] = read_obj(an.obj(pre, b), lo, hi - lo); changed = True
            fresh = set()
            for key, v in nxt.items():
                if key[0] == "obj" or kinds.get(key) != "mu": continue
                mu = T("mu", n, keyname(key))
                w = restr(v, GB)
                if w.var is None and key not in forms and not any(t.op in ("mu", "muobj") and t.args[0] == n for t in subterms(w)):
                    # the next value depends on nothing but the number of the iteration, and so does the first one
                    e = subst(w, {it: lin_add(it, INT(-1))}, ("before", n))
                    if e is not w and subst(e, {it: ZERO}, ("first", n)) is restr(init[key], G0):
                        kinds[key] = "fn"; forms[key] = e; fresh.add(key); changed = True; continue
                if w.var is None and (v.var is None or key[0] == "mem"):
                    v = w
                    if v.term is mu: kinds[key] = "inv"; fresh.add(key); changed = True; continue
                    d = stride(v.term, mu)
                    if d is not None:
                        kinds[key] = "lin"; strides[key] = d; fresh.add(key); changed = True
                        if v.term.op == "ptr": pointers.add(key)
                elif v.var.op == "ucmp" and mu in v.var.args:
                    # what is left of a sequence that is taken in pieces: a multiple of their length, if it starts as one
                    ds = [d for d in (stride(t, mu) for t in leaves(w)) if d is not None]
                    if ds and len(set(ds)) == 1 and ds[0] < -1 and all(t.op in ("int", "lin") and all(x % ds[0] == 0 for x in ([t.args[0]] if t.op == "int" else [t.args[0]] + [k for _, k in t.args[1]])) for t in leaves(restr(init[key], G0))):
                        kinds[key] = "lin"; strides[key] = ds[0]; fresh.add(key); changed = True
            # verify assumed invariants / linear ones
            for key, v in nxt.items():
                if key[0] == "obj" or key in fresh: continue
                k = kinds.get(key)
                if k == "inv" and v is not init[key] and restr(v, GB) is not init[key]: kinds[key] = "mu!"; changed = True
                if k == "fn" and subst(restr(v, GB), {it: lin_add(it, INT(-1))}, ("before", n)) is not forms[key]: kinds[key] = "mu!"; changed = True
                if k == "lin":
                    want = advance(key, init[key], lin_add(it, ONE))
                    if restr(v, GB) is not want and v is not want: kinds[key] = "mu!"; changed = True
            for key in kinds:
                if kinds[key] == "mu!": pass
            if not changed: break
        else: raise TooComplex("loop in %s does not stabilise" % self.f.name)
        L = LoopInfo()
        L.n = n; L.fn = self.f.name; L.header = h; L.kinds = kinds; L.strides = strides; L.init = {keyname(k): v for k, v in init.items() if k in kinds}
        L.entry_guard = G0; L.parent = list(an.loopstack); L.pre = pre
        L.dbg = next((i.dbg for b in [h] for i in self.f.blocks[b].instrs if i.dbg), None) or (self.f.blocks[h].term.dbg)
        L.back = None if not back else GB
        L.next = {} if not back else {keyname(k): v for k, v in nxt.items()}
        L.whole = whole; L.names = {keyname(k): k for k in kinds}
        L.exits = []
        out = []
        tot = D0
        for d, l in exits.items():
            for e in l: tot = dor(tot, e.guard)
        for d, l in exits.items():
            for e in l:
                L.exits.append((d, e.guard, e.src))
                g = e.guard if len([1 for x in exits.values() for _ in x]) > 1 else D1
                g = restr(g, tot) if g is not D1 else D1
                out.append((d, Edge(dand(G0, mark_exit(n, g)), e.state, e.phis, e.src)))
        L.events = an.events[ev0:]
        L.first_event, L.end_event = ev0, len(an.events)
        an.loops.append(L)
        return out

    # ------------------------------------------------------------- blocks
    def edge_phis(self, src, dst):
        r = {}
        for ph in self.f.blocks[dst].phis:
            for v, b in ph.extra:
                if b == src: r[ph.res] = self.val(ph.ty, v); break
            else: raise Unsupported("phi without " + src)
        return r
    def val(self, t, v):
        if v[0] == "l":
            d = self.env.get(v[1])
            if d is None: raise Unsupported("use before definition: %s in %s" % (v[1], self.f.name))
            return d
        if t == ("i", 1) and v[0] == "c": return D1 if v[1] else D0
        return self.an.const(t, v)
    def block(self, b, G, st, rets):
        an = self.an; blk = self.f.blocks[b]; an.stats["blocks"] += 1
        cfg = self.cfg
        for ins in blk.instrs:
            an.stats["instrs"] += 1
            r = self.instr(ins, G, st)
            if r is not None:
                G2 = r
                if G2 is D0: return []
                G = G2
        t = blk.term
        if t.op == "ret":
            rets.append((Edge(G, st, {}, b), self.val(t.ty, t.args[0]) if t.args else None)); return []
        if t.op == "unreachable": return []
        outs = []
        if t.op == "br":
            if len(t.extra) == 1: outs = [(t.extra[0], D1)]
            else:
                c = to_bool(self.val(("i", 1), t.args[0]))
                outs = [(t.extra[0], c), (t.extra[1], dnot(c))]
                c2 = restr(c, G)
                if c2.var is None or c is D1 or c is D0:
                    for body in getattr(self, "body_stack", []):
                        if b in body and any(s not in body and s not in cfg.dead for s in t.extra):
                            for h, bd in cfg.loops.items():
                                if bd is body: self.folded_by[h] = True
        elif t.op == "switch":
            v = self.val(t.ty, t.args[0]); rest = D1; per = {}
            for cv, dst in t.extra[1]:
                c = icmp("eq", v, leaf(INT(fits(cv, t.ty[1]))), t.ty[1])
                c = dand(rest, c); per[dst] = dor(per.get(dst, D0), c); rest = dand(rest, dnot(c))
            per[t.extra[0]] = dor(per.get(t.extra[0], D0), rest)
            outs = list(per.items())
            if v.var is None and v.term.op == "int":
                for body in getattr(self, "body_stack", []):
                    if b in body and any(s not in body and s not in cfg.dead for s in per):
                        for h, bd in cfg.loops.items():
                            if bd is body: self.folded_by[h] = True
        res = []; merged = {}
        for dst, c in outs:
            g = dand(G, c)
            if g is D0: continue
            merged[dst] = dor(merged.get(dst, D0), g)
        many = len(merged) > 1
        for dst, g in merged.items():
            res.append((dst, Edge(g, st.copy() if many else st, self.edge_phis(b, dst), b)))
        return res

    # ------------------------------------------------------------- instructions
    def instr(self, i, G, st):
        an = self.an; op = i.op; env = self.env
        V = lambda k: self.val(i.ty, i.args[k])
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            if i.ty[0] == "vec": raise Unsupported("vector " + i.text)
            a, b = V(0), V(1); w = i.ty[1]
            if op == "add": r = iadd(a, b) if w > 1 else bxor(a, b, 1)
            elif op == "sub": r = isub(a, b)
            elif op == "mul": r = imul(a, b)
            elif op == "and": r = band(a, b, w)
            elif op == "or": r = iadd(a, b) if "disjoint" in i.extra and w > 1 and not packed(a, b) else bor(a, b, w)
            elif op == "xor": r = bxor(a, b, w)
            elif op == "shl": r = shl(a, b, w)
            elif op == "lshr": r = lshr(a, b, w)
            elif op == "ashr": r = ashr(a, b, w)
            else: r = idiv(op, a, b)
        elif op in ("fadd", "fsub", "fmul", "fdiv"):
            r = fbin(op, as_float(V(0), i.ty[1]), as_float(V(1), i.ty[1]), i.ty[1])
        elif op == "fneg": r = f_un("fneg", as_float(V(0), i.ty[1]), i.ty[1])
        elif op == "icmp":
            w = i.ty[1] if i.ty[0] == "i" else 64
            r = self.icmp(i.extra, V(0), V(1), w, i.ty[0] == "ptr")
        elif op == "fcmp":
            r = fcmp(i.extra, as_float(V(0), i.ty[1]), as_float(V(1), i.ty[1]))
        elif op == "select":
            c = to_bool(self.val(i.extra, i.args[0])); r = ite(c, self.val(i.ty, i.args[1]), self.val(i.ty, i.args[2]))
        elif op == "freeze": r = V(0)
        elif op in ll.CASTS: r = self.cast(i)
        elif op == "alloca":
            b = T("alloca", self.path, i.res); st.mem[b] = Obj({}, leaf(UNDEF)); r = leaf(mk_ptr(b, ZERO))
        elif op == "getelementptr":
            r = an.gep(self.val(("ptr",), i.args[0][1]), i.ty, [(ot, self.val(ot, ov)) for ot, ov in i.args[1:]])
        elif op == "load":
            p = self.val(("ptr",), i.args[0]); r = an.load(st, p, ll.size_of(i.ty))
            if i.ty[0] == "f": r = as_float(r, i.ty[1])
            elif i.ty[0] == "i" and i.ty[1] == 1: r = icmp("ne", r, D0, 8)
            if "atomic" in i.extra: an.events.append(Event("atomic", G, "load", [p], i, self.f.name, tuple(an.loopstack)))
        elif op == "store":
            p = self.val(("ptr",), i.args[1]); v = self.val(i.ty, i.args[0])
            an.events.append(Event("store", G, None, [p, v, ll.size_of(i.ty)], i, self.f.name, tuple(an.loopstack)))
            an.store(st, p, ll.size_of(i.ty), v); return None
        elif op == "extractvalue":
            r = self.extractvalue(self.val(i.ty, i.args[0]), i.extra)
        elif op == "insertvalue":
            r = insertvalue(self.val(i.ty, i.args[0]), self.val(i.extra[0], i.args[1]), i.extra[1], i.ty)
        elif op == "call":
            return self.call(i, G, st)
        else:
            raise Unsupported("instruction %s in %s" % (i.text[:120], self.f.name))
        env[i.res] = r
        return None
    def icmp(self, pred, a, b, w, isptr):
        a, b = as_int(a), as_int(b)
        if pred in ("eq", "ne") and not isptr and w > 8:
            pa = [t for t in leaves(a)]; pb = [t for t in leaves(b)]
            if any(t.op in ("cat", "zx") for t in pa + pb) and all(t.op in ("cat", "zx", "sub", "int") for t in pa + pb):
                def f(x, y):
                    return split_eq(x, y, w // 8)
                r = apply("spliteq%d" % w, f, a, b)
                return r if pred == "eq" else dnot(r)
        return icmp(pred, a, b, w, isptr)
    def cast(self, i):
        v = self.val(i.extra, i.args[0]); s, d = i.extra, i.ty; op = i.op
        if op == "zext":
            if s[1] == 1: return ite(to_bool(v), leaf(INT(1)), D0)
            return zext(v, (s[1] + 7) // 8, (d[1] + 7) // 8)
        if op == "sext":
            if s[1] == 1: return ite(to_bool(v), leaf(INT(-1)), D0)
            return apply("sx%d" % s[1], lambda t: leaf(t if t.op == "int" else T("sx", t, s[1] // 8, d[1] // 8)), v)
        if op == "trunc":
            if d[1] == 1: return icmp("ne", band(v, leaf(INT(1)), s[1]) if s[1] > 8 else v, D0, s[1])
            n = d[1] // 8
            return apply("tr%d:%d" % (s[1], d[1]), lambda t: unwrap(t_trunc(t, n, s[1] // 8)), v)
        if op in ("ptrtoint", "inttoptr", "ptrtoaddr", "addrspacecast"): return v
        if op == "bitcast":
            if d[0] == "f": return as_float(v, d[1])
            return as_int(v)
        if op == "sitofp": return i2f(v, d[1])
        if op == "uitofp": return i2f(v, d[1]) if all(nonneg(t) or t.op == "int" for t in leaves(v)) else i2f(v, d[1], False)
        if op == "fptosi": return f2i(as_float(v, s[1]))
        if op == "fptoui": return f2i(as_float(v, s[1]), False)
        if op == "fpext": return f_un("fpext", as_float(v, 32))
        if op == "fptrunc": return f_un("fptrunc", as_float(v, 64))
        raise Unsupported("cast " + i.text)
    def extractvalue(self, v, idx):
        def f(t):
            for k in idx:
                if t.op in ("agg", "aggc"): t = t.args[k]
                elif t is UNDEF: return leaf(UNDEF)
                else: t = T("ev", t, k)
            return unwrap(t)
        return lift1(f, v)

    # ------------------------------------------------------------- calls
    def call(self, i, G, st):
        an = self.an; an.stats["calls"] += 1
        callee = i.extra
        if callee[0] == "g":
            name = callee[1]; dn = an.m.dem.get(name, name[1:])
        else: name = None; dn = "<indirect>"
        raw = name[1:].strip('"') if name else ""
        if raw.startswith("llvm."):
            return self.intrinsic(raw, i, G, st)
        args = []
        for (t, v, a) in i.args:
            if t == ("metadata",): continue
            args.append((t, self.val(t, v), a))
        f = an.m.funcs.get(name) if name else None
        for pat, h in an.models:
            if pat.search(dn):
                r = h(an, self, i, dn, args, G, st)
                if r is not NotImplemented: return r
        if raw in MATH:
            k = MATH[raw]; bits = i.ty[1]
            vs = [as_float(d, bits) for _, d, _ in args]
            if k in ("round", "floor", "ceil", "trunc", "sqrt", "fabs"): r = f_un(k, vs[0], bits)
            else: r = apply(("m", k), lambda *ts: leaf(T(k, *ts)), *vs)
            self.env[i.res] = r; return None
        if f is not None and f.raw is not None and self.depth < an.max_depth:
            if "noreturn" not in fn_attrs(an, i, f):
                ll.body(an.m, name)
                env = {}
                for (t, n, a), (_, d, _) in zip(f.params, args): env[n] = d
                val, s2, G2 = an.exec_fn(f, env, st, G, self.path + (i.res or i.text[:40],), self.depth + 1)
                if G2 is D0: return D0
                st.mem = s2.mem
                if i.res: self.env[i.res] = val
                return G2
        if f is not None and "noreturn" in fn_attrs(an, i, f):
            kind = "capacity" if CAPACITY.search(dn) else "panic"
            an.events.append(Event(kind, G, dn, [d for _, d, _ in args], i, self.f.name, tuple(an.loopstack)))
            return D0
        if ALLOC.search(dn):
            an.nheap += 1
            b = T("heap", an.nheap)
            st.mem[b] = Obj({}, leaf(UNDEF if not dn.endswith("zeroed") else T("bset", ZERO)))
            an.events.append(Event("alloc", G, dn, [d for _, d, _ in args], i, self.f.name, tuple(an.loopstack), term=b))
            self.env[i.res] = leaf(mk_ptr(b, ZERO)); return None
        if "__rust_dealloc" in dn or "__rust_no_alloc_shim" in dn: return None
        if dn.endswith("__rust_realloc"):
            an.nheap += 1; b = T("heap", an.nheap)
            def one(p):
                bb, o = ptr_parts(p); return leaf(content(an.obj(st, bb)))
            st.mem[b] = Obj({}, lift1(one, args[0][1]))
            self.env[i.res] = leaf(mk_ptr(b, ZERO)); return None
        if raw in ("bcmp", "memcmp"):
            n = args[2][1]
            if n.var is None and n.term.op == "int" and raw == "bcmp":
                k = n.term.args[0]
                r = split_eq_d(an.load(st, args[0][1], k), an.load(st, args[1][1], k), k)
                self.env[i.res] = ite(r, D0, leaf(INT(1))); return None
        if raw in ("memcpy", "memmove"): return self.memcpy(i, args, G, st)
        return self.opaque(i, dn, args, G, st, f)
    def opaque(self, i, dn, args, G, st, f, pure=None):
        an = self.an
        snap = []; ptrs = []
        for k, (t, d, a) in enumerate(args):
            attrs = dict(f.params[k][2]) if f is not None and k < len(f.params) else {}
            attrs.update(a)
            if t == ("ptr",):
                size = None
                for key in ("dereferenceable", "dereferenceable_or_null"):
                    if key in attrs and attrs[key] is not True and attrs[key]: size = int(attrs[key][0])
                sret = "sret" in attrs
                if sret: snap.append(T("sret"))
                else: snap.append(self.snapshot(st, d, size, 0))
                ptrs.append((k, d, size, "readonly" in attrs or "readnone" in attrs, sret, "writeonly" in attrs))
            else: snap.append(wrap(d))
        ct = T("call", dn, *snap)
        an.events.append(Event("call", G, dn, [d for _, d, _ in args], i, self.f.name, tuple(an.loopstack), term=ct))
        keep = any(p.search(dn) for p in an.noclobber)
        for k, d, size, ro, sret, wo in ptrs:
            if ro or keep: continue
            for t in leaves(d):
                if t is UNDEF: continue
                b, o = ptr_parts(t)
                if b is NULLB or b.op == "global" and " constant " in an.m.globals.get(b.args[0], ""): continue
                if d.var is not None:
                    old = st.mem.get(b) or an.obj(st, b)
                an.havoc(st, b, o, size, T("out", ct, k))
                if not sret and not wo: self.havoc_reach(st, snap[k], ct, k, b)
        if i.res:
            r = leaf(T("ret", ct))
            if i.ty == ("i", 1): r = to_bool(r)
            self.env[i.res] = r
        return None
    def havoc_reach(self, st, snap, ct, k, b0):
        """Heap objects whose address was passed along can be written by the callee."""
        an = self.an
        for t in list(subterms(snap)):
            if t.op == "ptr" and t.args[0].op in ("heap", "alloca") and t.args[0] in st.mem and t.args[0] is not b0:
                st.mem[t.args[0]] = Obj({}, leaf(T("outr", ct, k, t.args[0])))
    def snapshot(self, st, d, size, depth):
        """Everything the callee can see through a pointer."""
        an = self.an
        def one(t):
            if t is UNDEF: return leaf(t)
            b, o = ptr_parts(t)
            if b is NULLB: return leaf(t)
            if b.op == "global": return leaf(T("&g", b, o))
            ob = an.obj(st, b)
            if size is not None and o.op == "int": c = wrap(read_obj(ob, o.args[0], size))
            elif o is ZERO: c = content(ob)
            else: c = T("at", content(ob), o)
            inner = ()
            if depth < 3:
                ins = []
                for x in subterms(c):
                    if x.op == "ptr" and x.args[0].op in ("heap", "alloca") and x.args[0] in st.mem and x.args[0] is not b:
                        ins.append((x.args[0], content(st.mem[x.args[0]])))
                    elif x.op == "ptr" and x.args[0] in st.mem and x.args[0] is not b and st.mem[x.args[0]].blob is not leaf(T("init", x.args[0])):
                        ins.append((x.args[0], content(st.mem[x.args[0]])))
                inner = tuple(sorted(set(ins), key=lambda p: p[0].id))
            return leaf(T("&", c, *[T("at", x, y) for x, y in inner]))
        return wrap(lift1(one, d))
    def memcpy(self, i, args, G, st):
        an = self.an
        dst, src, n = args[0][1], args[1][1], args[2][1]
        ev = Event("store", G, "memcpy", [dst, src, n], i, self.f.name, tuple(an.loopstack)); an.events.append(ev)
        if n.var is None and n.term.op == "int" and 0 < n.term.args[0] <= 64 and dst.var is None and ptr_parts(dst.term)[0].op not in ("alloca", "heap", "arg"):
            ev.term = an.load(st, src, n.term.args[0])      # what is copied
        if n.var is None and n.term.op == "int":
            k = n.term.args[0]
            if k == 0: return None
            if dst.var is None and src.var is None:
                bs, os_ = ptr_parts(src.term); bd, od = ptr_parts(dst.term)
                if os_.op == "int" and od.op == "int" and bs is not NULLB and bd is not NULLB:
                    so = an.obj(st, bs); base = os_.args[0]
                    parts = []; pos = base
                    ob = an.obj(st, bd)
                    whole = write_obj(ob, od.args[0], k, leaf(UNDEF)); cells = dict(whole.cells); del cells[od.args[0]]
                    cuts = {base, base + k}
                    for o, (s, d) in so.cells.items():
                        for c in (o, o + s):
                            if base < c < base + k: cuts.add(c)
                    cs = sorted(cuts)
                    for lo, hi in zip(cs, cs[1:]): cells[od.args[0] + lo - base] = (hi - lo, read_obj(so, lo, hi - lo))
                    st.mem[bd] = Obj(cells, ob.blob)
                    return None
            v = an.load(st, src, k); an.store(st, dst, k, v); return None
        # symbolic length
        def one(t):
            b, o = ptr_parts(t); return leaf(T("at", content(an.obj(st, b)), o))
        s = wrap(lift1(one, src))
        for cond, t in split_leaves(dst):
            b, o = ptr_parts(t)
            if b is NULLB: continue
            ob = an.obj(st, b)
            new = Obj({}, leaf(T("cpx", content(ob), o, wrap(n), s)))
            if cond is D1: st.mem[b] = new
            else:
                s2 = st.copy(); s2.mem[b] = new
                st.mem = merge_states(an, [(cond, s2), (D1, st)], D1).mem
        if i.res: self.env[i.res] = dst
        return None
    def intrinsic(self, raw, i, G, st):
        an = self.an; env = self.env
        if raw.startswith(IGNORED): return None
        A = [self.val(t, v) for t, v, a in i.args if t != ("metadata",)]
        tys = [t for t, v, a in i.args]
        parts = raw.split("."); base = parts[1]
        if raw.startswith("llvm.assume"):
            g = dand(G, to_bool(A[0])); return g
        if base in ("memcpy", "memmove"): return self.memcpy(i, [(t, d, {}) for t, d in zip(tys, A)], G, st)
        if base == "memset":
            dst, v, n = A[:3]
            an.events.append(Event("store", G, "memset", [dst, v, n], i, self.f.name, tuple(an.loopstack)))
            if n.var is None and n.term.op == "int" and v.var is None and v.term.op == "int":
                k = n.term.args[0]; x = v.term.args[0] & 255
                if k == 0: return None
                if k > 64:
                    for cond, t in split_leaves(dst):
                        b, o = ptr_parts(t); an.havoc(st, b, o, k, T("bset", v.term))
                    return None
                # byte cells of up to 8
                for o in range(0, k, 8):
                    m = min(8, k - o)
                    an.store(st, apply("ptradd", lambda p, q: leaf(ptr_add(p, q)), dst, leaf(INT(o))), m, leaf(INT(fits(int.from_bytes(bytes([x]) * m, "little"), 8 * m))))
                return None
            for cond, t in split_leaves(dst):
                b, o = ptr_parts(t)
                if b is NULLB: continue
                ob = an.obj(st, b)
                fresh = o is ZERO and not ob.cells and ob.blob.var is None and ob.blob.term is UNDEF
                st.mem[b] = Obj({}, leaf(T("stx", content(ob), o, wrap(n), T("bset", wrap(v)))))
            return None
        t = i.ty
        if base in PURE_FLOAT: r = f_un(PURE_FLOAT[base], as_float(A[0], t[1]), t[1])
        elif base in ("maxnum", "maximumnum", "maximum"): r = fmaxmin("max", as_float(A[0], t[1]), as_float(A[1], t[1]))
        elif base in ("minnum", "minimumnum", "minimum"): r = fmaxmin("min", as_float(A[0], t[1]), as_float(A[1], t[1]))
        elif base == "copysign" and t[1] == 32: r = fcopysign(as_float(A[0], 32), as_float(A[1], 32))
        elif base in ("cos", "sin", "exp", "log", "tan", "log2", "log10", "exp2", "pow", "powi", "atan", "copysign"):
            k = {"log": "ln"}.get(base, base); r = apply(("m", k), lambda *ts: leaf(T(k, *ts)), *[as_float(a, t[1]) if tt[0] == "f" else a for a, tt in zip(A, tys)])
        elif base in ("fma", "fmuladd"): r = fbin("fadd", fbin("fmul", as_float(A[0], t[1]), as_float(A[1], t[1]), t[1]), as_float(A[2], t[1]), t[1])
        elif base == "fptosi": r = f2i(as_float(A[0], tys[0][1]))
        elif base == "fptoui": r = f2i(as_float(A[0], tys[0][1]), False)
        elif base == "abs":
            r = sel_sgn(A[0], isub(D0, A[0]), A[0], A[0])
        elif base in ("smax", "smin", "umax", "umin"):
            lt = icmp({"s": "slt", "u": "ult"}[base[0]], A[0], A[1], t[1])
            r = ite(lt, A[1], A[0]) if base.endswith("max") else ite(lt, A[0], A[1])
        elif base in ("usub", "uadd", "ssub", "sadd") and parts[2] == "sat":
            if base == "usub": r = ite(icmp("ult", A[0], A[1], t[1]), D0, isub(A[0], A[1]))
            else: r = (iadd if base.endswith("add") else isub)(A[0], A[1])
        elif parts[2:3] == ["with"]:
            x = {"umul": imul, "smul": imul, "uadd": iadd, "sadd": iadd, "usub": isub, "ssub": isub}[base](A[0], A[1])
            if base == "usub": ov = icmp("ult", A[0], A[1], tys[0][1])
            elif x.var is None and x.term.op == "int": ov = D0
            else: ov = apply(("ovf", base), lambda p, q: case(T("b", T("ovf", base, p, q)), (D0, D1)), A[0], A[1])
            r = leaf(T("agg", wrap(x), wrap(ov)))
        elif base in ("scmp", "ucmp"):
            lt = icmp(base[0] + "lt", A[0], A[1], tys[0][1]); eq = icmp("eq", A[0], A[1], tys[0][1])
            r = ite(lt, leaf(INT(-1)), ite(eq, D0, leaf(INT(1))))
        elif base in ("expect",): r = A[0]
        elif base in ("ctpop", "cttz", "ctlz", "bswap", "fshl", "fshr", "bitreverse"):
            r = apply((base,), lambda *ts: leaf(T(base, *ts)) , *A[:2])
        elif base == "is":   # llvm.is.fpclass
            r = apply(("fpclass",), lambda x, m: case(T("b", T("fpclass", x, m)), (D0, D1)), as_float(A[0], tys[0][1]), A[1])
        elif base == "ptrmask": r = A[0]
        elif base in ("trap", "ubsantrap"):
            an.events.append(Event("panic", G, raw, [], i, self.f.name, tuple(an.loopstack))); return D0
        else: raise Unsupported("intrinsic " + raw)
        env[i.res] = r
        return None

def packed(a, b):
    return any(t.op in ("cat", "zx", "sub", "mdd") for d in (a, b) for t in leaves(d)) and all(t.op in ("cat", "zx", "mdd", "int", "sub") for d in (a, b) for t in leaves(d))
def t_trunc(t, n, s):
    if t.op in ("cat", "zx", "sub", "int", "mdd", "fc"): return t_extract(t, 0, n)
    return T("trunc", t, n)
def insertvalue(v, x, idx, ty):
    def f(t):
        el = list(t.args) if t.op in ("agg", "aggc") else [UNDEF if t is UNDEF else T("ev", t, k) for k in range(len(ty[1]) if ty[0] == "st" else ty[1])]
        k = idx[0]
        if len(idx) == 1: el[k] = wrap(x)
        else: el[k] = wrap(insertvalue(unwrap(el[k]), x, idx[1:], ty[1][k] if ty[0] == "st" else ty[2]))
        return leaf(T("agg", *el))
    return lift1(f, v)
def split_eq(x, y, n):
    def cuts(t):
        s = {0, n}; o = 0
        for _, z in cat_parts(t, n): o += z; s.add(o)
        return s
    cs = sorted(c for c in cuts(x) | cuts(y) if c <= n); r = D1
    for lo, hi in zip(cs, cs[1:]):
        p, q = unwrap(t_extract(x, lo, hi - lo)), unwrap(t_extract(y, lo, hi - lo))
        r = dand(r, icmp("eq", as_int(p), as_int(q), 8 * (hi - lo)))
    return r
def split_eq_d(a, b, n): return apply("spliteqd%d" % n, lambda x, y: split_eq(x, y, n), a, b)
def keyname(k):
    return k[1] if k[0] == "phi" else T("whole", k[1]) if k[0] == "obj" else T("cell", k[1], k[2], k[3])
def stride(t, mu):
    """t == mu + const (integers or pointers): the constant."""
    if t.op == "lin":
        d = dict(t.args[1])
        if d.pop(mu, 0) == 1 and not d: return t.args[0]
        return None
    if t.op == "ptr":
        b, o = t.args
        if b.op == "ld" and b.args[0] is mu and o.op == "int": return o.args[0]
    return None
def mark_exit(n, g): return g
_attr_cache = {}
def fn_attrs(an, i, f):
    key = (id(an.m), f.name)
    r = _attr_cache.get(key)
    if r is None:
        r = set()
        tail = getattr(f, "tail", "") or ""
        if not hasattr(an.m, "attrs"):
            an.m.attrs = {}
            for l in open(an.m.path):
                if l.startswith("attributes #"):
                    k, v = l.split("=", 1); an.m.attrs[k.split()[1]] = v
        for a in re.findall(r"#\d+", tail):
            if "noreturn" in an.m.attrs.get(a, ""): r.add("noreturn")
        if "noreturn" in tail: r.add("noreturn")
        _attr_cache[key] = r
    return r
