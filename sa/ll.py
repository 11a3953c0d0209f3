"""Parser for the subset of LLVM IR text that rustc + opt produce for the harness module."""
import re, subprocess

class Instr:
    __slots__ = ("res", "op", "ty", "args", "extra", "dbg", "text")
    def __init__(self, res, op, ty=None, args=(), extra=None, dbg=None, text=""):
        self.res, self.op, self.ty, self.args, self.extra, self.dbg, self.text = res, op, ty, args, extra, dbg, text

class Block:
    __slots__ = ("name", "phis", "instrs", "term")
    def __init__(self, name):
        self.name, self.phis, self.instrs, self.term = name, [], [], None
    def succs(self):
        t = self.term
        if t.op == "br": return list(t.extra)
        if t.op == "switch": return [t.extra[0]] + [b for _, b in t.extra[1]]
        return []

class Func:
    def __init__(self, name):
        self.name = name; self.params = []; self.blocks = {}; self.order = []; self.ret = None; self.dbg = None
        self.demangled = None; self.defined = False; self.raw = None

class Module:
    def __init__(self):
        self.funcs = {}; self.globals = {}; self.types = {}; self.md = {}

NAME = r'(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)'
TOK = re.compile(r'''\s*(?:
 (?P<local>%''' + NAME + r''')|(?P<glob>@''' + NAME + r''')|(?P<md>!(?:[-a-zA-Z$._0-9]+)?)|
 (?P<str>c?"(?:[^"\\]|\\.)*")|
 (?P<fnum>-?\d+\.\d+(?:[eE][-+]?\d+)?|f0x[0-9A-Fa-f]+|0x[KMLHR]?[0-9A-Fa-f]+|[-+]inf\b|[-+]?nan\b(?:\(0x[0-9a-fA-F]+\))?|[-+]?snan\([^)]*\)|[-+]qnan)|(?P<num>-?\d+)|
 (?P<id>[a-zA-Z_$.][-a-zA-Z$._0-9]*)|(?P<attr>\#\d+)|(?P<dots>\.\.\.)|(?P<p>[\[\]{}()<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "": break
            if s[i:].lstrip().startswith(";"): break
            raise SyntaxError("token: " + s[i:i + 80] + " in " + s[:200])
        k = m.lastgroup
        out.append((k, m.group(k))); i = m.end()
    return out

class P:
    """Token cursor."""
    def __init__(self, toks): self.t = toks; self.i = 0
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)
    def next(self):
        r = self.t[self.i]; self.i += 1; return r
    def at(self, v): return self.peek()[1] == v
    def eat(self, v):
        if self.peek()[1] == v: self.i += 1; return True
        return False
    def expect(self, v):
        r = self.next()
        if r[1] != v: raise SyntaxError("expected %s got %s at %s" % (v, r, self.t[max(0, self.i - 8):self.i + 8]))
    def end(self): return self.i >= len(self.t)

# types: ('i',n) ('f',bits) ('ptr',) ('void',) ('arr',n,t) ('vec',n,t) ('st',(t..),packed) ('label',) ('metadata',)
def parse_type(p):
    k, v = p.next()
    if k == "id":
        if re.fullmatch(r"i\d+", v): t = ("i", int(v[1:]))
        elif v == "float": t = ("f", 32)
        elif v == "double": t = ("f", 64)
        elif v == "half": t = ("f", 16)
        elif v == "fp128": t = ("f", 128)
        elif v == "ptr":
            t = ("ptr",)
            if p.at("addrspace"): p.next(); p.expect("("); p.next(); p.expect(")")
        elif v in ("void", "label", "metadata", "token"): t = (v,)
        elif v == "x86_fp80": t = ("f", 80)
        else: raise SyntaxError("type " + v)
    elif v == "[":
        n = int(p.next()[1]); p.expect("x"); e = parse_type(p); p.expect("]"); t = ("arr", n, e)
    elif v == "<":
        if p.at("{"):
            t = parse_type(p); p.expect(">"); t = ("st", t[1], True)
        else:
            n = int(p.next()[1]); p.expect("x"); e = parse_type(p); p.expect(">"); t = ("vec", n, e)
    elif v == "{":
        el = []
        if not p.eat("}"):
            while True:
                el.append(parse_type(p))
                if p.eat("}"): break
                p.expect(",")
        t = ("st", tuple(el), False)
    elif k == "local": t = ("named", v)
    else: raise SyntaxError("type %s %s %s" % (k, v, p.t[max(0, p.i - 6):p.i + 6]))
    return t

def size_of(t):
    k = t[0]
    if k == "i": return max(1, (t[1] + 7) // 8) if t[1] <= 64 else 16
    if k == "f": return t[1] // 8
    if k == "ptr": return 8
    if k in ("arr", "vec"): return t[1] * size_of(t[2])
    if k == "st":
        o = 0
        for e in t[1]:
            if not t[2]: a = align_of(e); o = (o + a - 1) // a * a
            o += size_of(e)
        if not t[2]: a = align_of(t); o = (o + a - 1) // a * a
        return o
    raise ValueError(t)
def align_of(t):
    k = t[0]
    if k == "st": return 1 if t[2] else max([align_of(e) for e in t[1]] + [1])
    if k in ("arr", "vec"): return align_of(t[2])
    return min(size_of(t), 16)
def field_off(t, i):
    if t[0] in ("arr", "vec"): return i * size_of(t[2]), t[2]
    o = 0
    for j, e in enumerate(t[1]):
        if not t[2]: a = align_of(e); o = (o + a - 1) // a * a
        if j == i: return o, e
        o += size_of(e)

PARAM_ATTRS_PAREN = {"align", "dereferenceable", "dereferenceable_or_null", "range", "captures", "sret", "byval",
                     "initializes", "elementtype", "nofpclass", "inalloca", "preallocated", "byref", "memory", "alignstack",
                     "allocsize", "uwtable", "vscale_range", "allockind"}
KEYWORDS = {"noundef", "nonnull", "noalias", "nofree", "readonly", "writeonly", "readnone", "nocapture", "zeroext", "signext",
            "inreg", "returned", "writable", "dead_on_unwind", "dead_on_return", "immarg", "nest", "swiftself", "noext", "allocalign", "allocptr", "nounwind",
            "sret", "byval"} | PARAM_ATTRS_PAREN

def parse_attrs(p):
    a = {}
    while True:
        k, v = p.peek()
        if k == "str":
            p.next()
            if p.eat("="): p.next()
            continue
        if k == "attr": p.next(); continue
        if k != "id" or v not in KEYWORDS: break
        p.next(); a[v] = True
        if p.at("("):
            d = 0; body = []
            while True:
                kk, vv = p.next()
                if vv == "(": d += 1
                if vv == ")":
                    d -= 1
                    if d == 0: break
                body.append(vv)
            a[v] = body[1:]
        elif v == "align": a[v] = p.next()[1]
    return a

def parse_value(p, ty):
    """operand: ('l',name) ('g',name) ('c',pyconst) ('undef',) ('agg',[...]) ('ce',op,...)"""
    k, v = p.next()
    if k == "local": return ("l", v)
    if k == "glob": return ("g", v)
    if k == "num":
        return ("c", int(v)) if ty[0] != "f" else ("c", float(v))
    if k == "fnum": return ("c", parse_float(v, ty))
    if k == "id":
        if v == "true": return ("c", 1)
        if v == "false": return ("c", 0)
        if v == "null": return ("c", 0)
        if v in ("undef", "poison"): return ("undef",)
        if v == "zeroinitializer": return ("zero",)
        if v == "splat":
            p.expect("("); t = parse_type(p); x = parse_value(p, t); p.expect(")"); return ("agg", [(t, x)] * (ty[1] if ty[0] in ("vec", "arr") else 1))
        if v in ("getelementptr",):
            while p.peek()[0] == "id" and p.peek()[1] in ("inbounds", "nuw", "nusw"): p.next()
            if p.at("inrange"): 
                p.next(); skip_paren(p)
            p.expect("("); t = parse_type(p); p.expect(",")
            ops = []
            while True:
                ot = parse_type(p); ops.append((ot, parse_value(p, ot)))
                if p.eat(")"): break
                p.expect(",")
            return ("ce", "gep", t, ops)
        if v in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext", "addrspacecast", "ptrtoaddr"):
            p.expect("("); t = parse_type(p); x = parse_value(p, t); p.expect("to"); t2 = parse_type(p); p.expect(")")
            return ("ce", v, t, x, t2)
        if v in ("add", "sub", "mul", "xor"):
            while p.peek()[1] in ("nuw", "nsw"): p.next()
            p.expect("("); t = parse_type(p); x = parse_value(p, t); p.expect(","); t2 = parse_type(p); y = parse_value(p, t2); p.expect(")")
            return ("ce", v, t, x, y)
        if v == "asm": return ("asm",)
        if v == "blockaddress": skip_paren(p); return ("undef",)
        if v in ("dso_local_equivalent", "no_cfi"): return parse_value(p, ty)
    if k == "str": return ("bytes", v)
    if v in ("[", "<", "{"):
        packed = False
        close = {"[": "]", "<": ">", "{": "}"}[v]
        if v == "<" and p.at("{"): p.next(); close = "}"; packed = True
        el = []
        if not p.eat(close):
            while True:
                t = parse_type(p); parse_attrs(p); el.append((t, parse_value(p, t)))
                if p.eat(close): break
                p.expect(",")
        if packed: p.expect(">")
        return ("agg", el)
    if k == "md": return ("md",)
    raise SyntaxError("value %s %s ... %s" % (k, v, p.t[max(0, p.i - 6):p.i + 6]))

def skip_paren(p):
    d = 0
    while True:
        _, v = p.next()
        if v == "(": d += 1
        if v == ")":
            d -= 1
            if d == 0: return

import struct
def parse_float(v, ty):
    if v.startswith("f0x"):
        h = int(v[3:], 16); n = len(v) - 3
        if ty == ("f", 32): return struct.unpack("<f", struct.pack("<I", h))[0]
        return struct.unpack("<d", struct.pack("<Q", h))[0]
    if v.startswith("0x"):
        return struct.unpack("<d", struct.pack("<Q", int(re.sub("^0x[KMLHR]?", "", v), 16)))[0]
    if "inf" in v: return float("-inf") if v[0] == "-" else float("inf")
    if "nan" in v: return float("nan")
    return float(v)

FLAGS = {"nuw", "nsw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint", "nneg", "samesign", "nusw", "tail", "musttail", "notail", "volatile"}
CCS = {"fastcc", "coldcc", "ccc", "preserve_mostcc", "preserve_allcc", "preserve_nonecc", "tailcc"} | FLAGS
BINOPS = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast", "addrspacecast", "ptrtoaddr"}

def parse_instr(line):
    dbg = None
    m = re.search(r', !dbg !(\d+)', line)
    if m: dbg = int(m.group(1))
    line = re.sub(r"/\*.*?\*/", "", line)
    body = re.sub(r'(, ![a-zA-Z][-a-zA-Z$._0-9]* ![0-9]+|, ![a-zA-Z][-a-zA-Z$._0-9]* !\{\})+\s*$', '', line)
    p = P(tokenize(body))
    res = None
    if p.peek()[0] == "local" and p.peek(1)[1] == "=":
        res = p.next()[1]; p.next()
    op = p.next()[1]
    while op in ("tail", "musttail", "notail"): op = p.next()[1]
    def I(ty=None, args=(), extra=None): return Instr(res, op, ty, args, extra, dbg, line)
    fl = set()
    while p.peek()[0] == "id" and p.peek()[1] in FLAGS: fl.add(p.next()[1])
    if op in BINOPS:
        t = parse_type(p); a = parse_value(p, t); p.expect(","); b = parse_value(p, t)
        return I(t, (a, b), fl)
    if op == "fneg":
        t = parse_type(p); return I(t, (parse_value(p, t),))
    if op in ("icmp", "fcmp"):
        pred = p.next()[1]
        while pred in FLAGS: pred = p.next()[1]
        t = parse_type(p); a = parse_value(p, t); p.expect(","); b = parse_value(p, t)
        return I(t, (a, b), pred)
    if op in CASTS:
        t = parse_type(p); a = parse_value(p, t); p.expect("to"); t2 = parse_type(p)
        return I(t2, (a,), t)
    if op == "freeze":
        t = parse_type(p); return I(t, (parse_value(p, t),))
    if op == "select":
        t0 = parse_type(p); c = parse_value(p, t0); p.expect(","); t = parse_type(p); a = parse_value(p, t); p.expect(","); t2 = parse_type(p); b = parse_value(p, t2)
        return I(t, (c, a, b), t0)
    if op == "load":
        if p.at("atomic"): p.next(); fl.add("atomic")
        if p.at("volatile"): p.next()
        t = parse_type(p); p.expect(","); pt = parse_type(p); a = parse_value(p, pt)
        return I(t, (a,), fl)
    if op == "store":
        if p.at("atomic"): p.next(); fl.add("atomic")
        if p.at("volatile"): p.next()
        t = parse_type(p); v = parse_value(p, t); p.expect(","); pt = parse_type(p); a = parse_value(p, pt)
        return I(t, (v, a), fl)
    if op == "alloca":
        t = parse_type(p); n = 1
        return I(t, ())
    if op == "getelementptr":
        t = parse_type(p); p.expect(","); ops = []
        while True:
            ot = parse_type(p); ops.append((ot, parse_value(p, ot)))
            if not p.eat(","): break
        return I(t, ops)
    if op == "br":
        if p.at("label"):
            p.next(); return I(None, (), (p.next()[1],))
        t = parse_type(p); c = parse_value(p, t); p.expect(","); p.expect("label"); a = p.next()[1]; p.expect(","); p.expect("label"); b = p.next()[1]
        return I(None, (c,), (a, b))
    if op == "switch":
        t = parse_type(p); c = parse_value(p, t); p.expect(","); p.expect("label"); d = p.next()[1]; p.expect("[")
        cs = []
        while not p.eat("]"):
            tt = parse_type(p); v = parse_value(p, tt); p.expect(","); p.expect("label"); cs.append((v[1], p.next()[1]))
        return I(t, (c,), (d, cs))
    if op == "ret":
        t = parse_type(p)
        return I(t, () if t == ("void",) else (parse_value(p, t),))
    if op == "unreachable": return I()
    if op == "phi":
        t = parse_type(p); inc = []
        while True:
            p.expect("["); v = parse_value(p, t); p.expect(","); b = p.next()[1]; p.expect("]"); inc.append((v, b))
            if not p.eat(","): break
        return I(t, (), inc)
    if op in ("call", "invoke"):
        while p.peek()[0] == "id" and p.peek()[1] in CCS: p.next()
        ra = parse_attrs(p)
        t = parse_type(p)
        if p.at("("):  # function type spelled out (varargs)
            skip_paren(p)
        callee = parse_value(p, ("ptr",))
        if callee[0] == "asm":
            return Instr(res, "asm", t, (), None, dbg, line)
        p.expect("(")
        args = []
        if not p.eat(")"):
            while True:
                at = parse_type(p)
                if at == ("metadata",):
                    d = 0
                    while not (d == 0 and p.peek()[1] in (",", ")")):
                        _, v = p.next()
                        if v in "([{": d += 1
                        if v in ")]}": d -= 1
                    args.append((at, ("md",), {}))
                else:
                    aa = parse_attrs(p); v = parse_value(p, at); args.append((at, v, aa))
                if p.eat(")"): break
                p.expect(",")
        return Instr(res, "call", t, args, callee, dbg, line)
    if op == "extractvalue":
        t = parse_type(p); a = parse_value(p, t); idx = []
        while p.eat(","): idx.append(int(p.next()[1]))
        return I(t, (a,), idx)
    if op == "insertvalue":
        t = parse_type(p); a = parse_value(p, t); p.expect(","); t2 = parse_type(p); b = parse_value(p, t2); idx = []
        while p.eat(","): idx.append(int(p.next()[1]))
        return I(t, (a, b), (t2, idx))
    if op in ("extractelement",):
        t = parse_type(p); a = parse_value(p, t); p.expect(","); t2 = parse_type(p); b = parse_value(p, t2)
        return I(t, (a, b))
    if op == "insertelement":
        t = parse_type(p); a = parse_value(p, t); p.expect(","); t2 = parse_type(p); b = parse_value(p, t2); p.expect(","); t3 = parse_type(p); c = parse_value(p, t3)
        return I(t, (a, b, c))
    if op == "shufflevector":
        t = parse_type(p); a = parse_value(p, t); p.expect(","); t2 = parse_type(p); b = parse_value(p, t2); p.expect(","); t3 = parse_type(p); c = parse_value(p, t3)
        return I(t, (a, b, c), t3)
    # anything else (atomics, landingpad, fence ...) is kept opaque
    return Instr(res, "other:" + op, None, (), None, dbg, line)

DEF_RE = re.compile(r'^(define|declare)\b')

def split_functions(text):
    """Yields ('fn', header, bodylines) / ('line', line)."""
    lines = text.split("\n"); i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("define"):
            j = i + 1
            while lines[j] != "}": j += 1
            yield ("fn", l, lines[i + 1:j]); i = j + 1
        else:
            yield ("line", l, None); i += 1

FNAME = re.compile(r'@(' + NAME + r')\(')
def fn_name(header):
    # the first '@name(' in the header is the function's name
    return "@" + FNAME.search(header).group(1)

def parse_header(header):
    f = Func(fn_name(header))
    m = re.search(r'!dbg !(\d+)', header)
    if m: f.dbg = int(m.group(1))
    i = header.index(f.name + "("); j = i + len(f.name); d = 0; k = j; instr = False
    while True:
        c = header[k]
        if c == '"': instr = not instr
        if not instr:
            if c == "(": d += 1
            if c == ")":
                d -= 1
                if d == 0: break
        k += 1
    p = P(tokenize(header[j + 1:k]))
    while not p.end():
        if p.peek()[0] == "dots": p.next(); continue
        t = parse_type(p); a = parse_attrs(p); n = None
        if not p.end() and p.peek()[0] == "local": n = p.next()[1]
        f.params.append((t, n, a))
        if not p.end(): p.expect(",")
    # return type
    pre = header[:i]
    f.tail = header[k + 1:]
    f.header = header
    m = re.search(r'((?:\{[^{}]*\}|\[[^\[\]]*\]|<[^<>]*>|\S+))\s*$', pre)
    f.ret = m.group(1) if m else None
    return f

LABEL = re.compile(r'^(' + NAME + r'):')
def parse_body(f, lines):
    cur = None; pend = None
    n = 0
    for raw in lines:
        l = raw
        if not l.strip(): continue
        s = l.strip()
        if s.startswith(";") or s.startswith("#dbg"): continue
        if not l.startswith(" "):
            m = LABEL.match(l)
            name = "%" + m.group(1)
            cur = Block(name); f.blocks[name] = cur; f.order.append(name); continue
        if cur is None:
            cur = Block("%<entry>"); f.blocks[cur.name] = cur; f.order.append(cur.name)
        if pend is not None:   # multi-line switch
            pend += " " + s
            if s.endswith("]") or re.match(r'^\](, |$)', s):
                ins = parse_instr(pend); cur.term = ins; pend = None
            continue
        if re.match(r'^switch ', s) and "]" not in s.split("[", 1)[-1]:
            pend = s; continue
        ins = parse_instr(s)
        if ins.op in ("br", "switch", "ret", "unreachable"): cur.term = ins
        elif ins.op == "phi": cur.phis.append(ins)
        else: cur.instrs.append(ins)
        if ins.op.startswith("other:") and ins.op[6:] in ("resume", "indirectbr", "cleanupret"): cur.term = Instr(None, "unreachable", dbg=ins.dbg)
    f.defined = True
    return f

def parse_module(text):
    m = Module()
    for kind, a, b in split_functions(text):
        if kind == "fn":
            f = parse_header(a); f.raw = b; m.funcs[f.name] = f
        elif a.startswith("declare"):
            f = parse_header(a); m.funcs[f.name] = f
        elif a.startswith("@"):
            g = re.match(r'(@' + NAME + r') = (.*)$', a)
            m.globals[g.group(1)] = g.group(2)
        elif a.startswith("!"):
            g = re.match(r'!(\d+) = (.*)$', a)
            if g: m.md[int(g.group(1))] = g.group(2)
        elif a.startswith("%"):
            g = re.match(r'(%' + NAME + r') = type (.*)$', a)
            if g: m.types[g.group(1)] = g.group(2)
    return m

def body(m, name):
    f = m.funcs[name]
    if f.raw is not None and not f.defined: parse_body(f, f.raw)
    return f

def demangle(names):
    names = list(names)
    raw = [n[1:].strip('"') for n in names]
    out = subprocess.run(["c++filt"], input="\n".join(raw), capture_output=True, text=True).stdout.split("\n")
    return {n: re.sub(r'\[[0-9a-f]{10,}\]', '', o) for n, o in zip(names, out)}

def split_md_fields(s):
    r = {}
    for k, v in re.findall(r'(\w+): ("(?:[^"\\]|\\.)*"|![0-9]+|[^,()]+)', s): r[k] = v
    return r

def location(m, dbg):
    """Innermost (file, line) inside /repo for a debug location, else the innermost one."""
    best = None; seen = 0
    while dbg is not None and seen < 60:
        seen += 1
        d = m.md.get(dbg)
        if d is None or "DILocation" not in d: break
        f = split_md_fields(d)
        line = int(f.get("line", "0")); sc = int(f["scope"][1:])
        file = None
        for _ in range(40):
            sd = m.md.get(sc)
            if sd is None: break
            sf = split_md_fields(sd)
            if "file" in sf:
                file = file_name(m, int(sf["file"][1:])); break
            if "scope" not in sf: break
            sc = int(sf["scope"][1:])
        if best is None: best = (file, line)
        if file and "/repo/" in file: return (file.replace("/repo/", ""), line)
        dbg = int(f["inlinedAt"][1:]) if "inlinedAt" in f else None
    return best
def file_name(m, i):
    d = m.md.get(i) or ""
    f = split_md_fields(d); fn = f.get("filename", '""').strip('"').split("/@/")[0]; dr = f.get("directory", '""').strip('"')
    return fn if fn.startswith("/") else dr + "/" + fn
