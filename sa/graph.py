"""Call graph of the linked module: direct calls, and functions whose address is taken (directly, or
through a constant such as a vtable) as possible calls.  Also where each function is written."""
import re
import ll, extract as EX

NAME = r'@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)'
class Graph:
    def __init__(self, raw):
        self.raw = raw; self.dem = raw.dem
        self.calls = {}; self.refs = {}; self.body = {}; self.head = {}
        gl = {}; self.md = {}
        for k, a, b in raw.pieces:
            if k == "fn":
                n = ll.fn_name(a); self.head[n] = a; self.body[n] = b
            elif a.startswith("@"):
                m = re.match(NAME, a); gl[m.group(0)] = re.findall(NAME, a[m.end():])
            elif a.startswith("!"):
                m = re.match(r"(!\d+) = (.*)", a)
                if m: self.md[m.group(1)] = m.group(2)
        self.gl = gl
        gfun = {}
        def funs(g, seen):
            if g in gfun: return gfun[g]
            if g in seen: return set()
            seen.add(g); r = set()
            for x in gl.get(g, ()):
                if x in gl: r |= funs(x, seen)
                else: r.add(x)
            gfun[g] = r
            return r
        self.globals_of = {}
        for n, b in self.body.items():
            c, o, gs = set(), set(), set()
            for l in b:
                if "@" not in l or l.startswith("!"): continue
                l = l.split(", !dbg", 1)[0]
                m = re.search(r"\b(?:call|invoke)\b[^@]*?(%s)\(" % NAME, l)
                ce = None
                if m and not m.group(1).startswith("@llvm."): ce = m.group(1); c.add(ce)
                for x in re.findall(NAME, l):
                    if x.startswith("@llvm."): continue
                    if x == ce: ce = None; continue
                    if x in gl: o |= funs(x, set()); gs.add(x)
                    else: o.add(x)
            self.calls[n] = c; self.refs[n] = o; self.globals_of[n] = gs
    def reach(self, roots, stop=None):
        """Functions reachable from the given ones -> predecessor on a shortest chain."""
        pred = {}; w = []
        for r in roots:
            r = r if r.startswith("@") else "@" + r
            if r in self.body: pred[r] = None; w.append(r)
        i = 0
        while i < len(w):
            x = w[i]; i += 1
            if stop and stop(x): continue
            for y in sorted(self.calls.get(x, ())) + sorted(self.refs.get(x, ())):
                if y not in pred: pred[y] = x; w.append(y)
        return pred
    def chain(self, pred, x):
        out = []
        while x is not None: out.append(self.dem.get(x, x[1:])); x = pred[x]
        return out[::-1]
    def where(self, n):
        """(file, line) of a defined function."""
        m = re.search(r"!dbg (!\d+)", self.head.get(n, ""))
        if not m: return None
        d = self.md.get(m.group(1), "")
        l = re.search(r"\bline: (\d+)", d); f = re.search(r"\bfile: (!\d+)", d)
        fn = re.search(r'filename: "([^"]*)"', self.md.get(f.group(1), "")) if f else None
        return (fn.group(1) if fn else "?", int(l.group(1)) if l else 0)
    def is_kuba(self, n):
        d = self.dem.get(n, "")
        return re.match(r"<?(kuba|draw_occupancy_grid)::", d) is not None
    def kuba_functions(self, roots):
        """Functions written in /repo's crate reachable from the entry points, with their place."""
        out = []
        for n in self.reach(roots):
            if n in self.body and self.is_kuba(n):
                w = self.where(n)
                out.append((self.dem[n], "%s:%d" % (short(w[0]) if w else "?", w[1] if w else 0)))
        return out

def short(f):
    if f.startswith(EX.REPO + "/"): return f[len(EX.REPO) + 1:]
    i = f.find("src/"); return f[i:] if i >= 0 else f
_g = None
def graph():
    global _g
    if _g is None: _g = Graph(EX.raw())
    return _g
