"""From /repo's current working tree to optimised, boundary-cut LLVM IR for a group of entry points.

The harness crate instantiates every public operation at dimensions 2 and 3; rustc lowers it (and
/repo, which is recompiled on every call of build()) to unoptimised LLVM IR; per group the bodies of the
functions on the group's boundary are dropped (they become declarations) and LLVM's scalar clean-up
passes bring the rest into SSA form.  Nothing is executed.
"""
import os, re, subprocess, sys, hashlib, shutil, glob, time, fcntl
import ll

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KUBA_REPO", "/repo")
TARGET = os.path.join(VERIF, ".build") if REPO == "/repo" else os.path.join(REPO, "target", "sa-build")
RUSTFLAGS = ("--emit=llvm-bc,mir,link -C no-prepopulate-passes -Zmir-opt-level=1 -Zinline-mir=no "
             "-C symbol-mangling-version=v0 -Zshare-generics=no --cap-lints allow")

class BuildError(Exception): pass
class Missing(Exception): pass

def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode: raise BuildError("%s\n%s" % (" ".join(cmd)[:300], p.stderr[-6000:]))
    return p.stdout

_tools = None
def tool(n):
    global _tools
    if _tools is None:
        root = run(["rustc", "+nightly", "--print", "sysroot"]).strip()
        _tools = os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu/bin")
    return os.path.join(_tools, n)

def nalgebra():
    """A copy of the nalgebra sources in which a dynamically sized matrix is filled from an iterator by pushing each of its items
    (internal iteration) instead of by collect(): the same items in the same order, in loops a static analysis can follow."""
    src = glob.glob(os.path.expanduser("~/.cargo/registry/src/*/nalgebra-0.22.1")) + glob.glob(os.path.join(os.environ.get("CARGO_HOME", "/nonexistent"), "registry/src/*/nalgebra-0.22.1"))
    if not src: raise BuildError("the sources of nalgebra 0.22.1 are not in cargo's registry")
    d = os.path.join(TARGET, "nalgebra"); f = os.path.join(d, "src/base/default_allocator.rs")
    if not os.path.exists(os.path.join(d, ".complete")):
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(src[0], d)
        t = open(f).read(); a = "let res: Vec<N> = it.collect();"
        if t.count(a) != 2: raise BuildError("unexpected text in nalgebra's default_allocator.rs")
        open(f, "w").write(t.replace(a, "let mut res: Vec<N> = Vec::new(); it.for_each(|x| res.push(x));"))
        open(os.path.join(d, ".complete"), "w").close()
    return d

KIND = "roots"      # what is analysed: the library through the entry points, or the viewer
HARNESS = {"roots": ("harness", "roots"), "viz": ("vizharness", "kuba_viz")}
def harness(kind="roots"):
    """The entry points, or the viewer with a stand-in for its drawing library, copied to where cargo may write next to them."""
    h = os.path.join(VERIF, HARNESS[kind][0]); c = os.path.join(TARGET, HARNESS[kind][0])
    shutil.rmtree(c, ignore_errors=True); shutil.copytree(h, c)
    p = os.path.join(c, "Cargo.toml"); t = re.sub(r'"/repo([/"])', lambda m: '"%s%s' % (REPO, m.group(1)), open(p).read())
    open(p, "w").write(t + '\n[patch.crates-io]\nnalgebra = { path = "%s" }\n' % nalgebra()); return c

def build(kind="roots"):
    """Compiles /repo and the harness; returns the text of the linked, unoptimised module."""
    os.makedirs(TARGET, exist_ok=True)
    lock = open(os.path.join(TARGET, ".lock-sa"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        for c in ("kuba", HARNESS[kind][1]):
            for d in glob.glob(os.path.join(TARGET, "debug/build", c)): shutil.rmtree(d)
        env = dict(os.environ, RUSTFLAGS=RUSTFLAGS, CARGO_TERM_COLOR="never"); env.pop("CARGO_TARGET_DIR", None)
        run(["cargo", "+nightly", "build", "--offline", "--target-dir", TARGET], cwd=harness(kind), env=env)
        bcs = []; own = {"roots": [("roots", "roots")], "viz": [("kuba_viz", "draw_occupancy_grid"), ("kuba_viz", "kuba_viz"), ("kiss3d", "kiss3d")]}[kind] + [("kuba", "kuba")]
        for d, c in own + [(c, c) for c in ("nalgebra", "ndarray", "approx", "byteorder", "simba", "num-traits", "num-complex")]:
            fs = [f for f in glob.glob(os.path.join(TARGET, "debug/build", d, "*", "out", "*.bc"))
                  if re.match(c.replace("-", "_") + r"(-[0-9a-f]+)?\.bc$", os.path.basename(f))]
            if (d, c) in own and d != "kiss3d" and len(fs) != 1: raise BuildError("bitcode of %s: %s" % (c, fs))
            bcs += fs[:1] if fs else []
        out = os.path.join(TARGET, "all.bc"); raw = os.path.join(TARGET, rawfile(kind))
        run([tool("llvm-link"), "-o", out] + bcs)
        run([tool("llvm-dis"), "-o", raw, out])
        return open(raw).read()
    finally:
        lock.close()

class Raw:
    """The linked module as a list of top-level pieces, with demangled function names."""
    def __init__(self, text):
        self.text = text
        self.hash = hashlib.sha256(text.encode()).hexdigest()
        self.pieces = list(ll.split_functions(text))
        names = []
        for k, a, b in self.pieces:
            if k == "fn": names.append(ll.fn_name(a))
            elif a.startswith("declare"): names.append(ll.fn_name(a))
        self.dem = ll.demangle(names)
        self.defined = {ll.fn_name(a) for k, a, b in self.pieces if k == "fn"}

def rawfile(kind): return {"roots": "raw.ll"}.get(kind, kind + ".ll")
_raw = {}
def raw():
    if KIND not in _raw: _raw[KIND] = Raw(build(KIND) if not os.environ.get("SA_CACHED") else open(os.path.join(TARGET, rawfile(KIND))).read())
    return _raw[KIND]

def raw_text(): return raw().text

def strip_header(h):
    """define -> declare"""
    f = ll.parse_header(h)
    i = h.index(f.name + "(")
    j = h.index(f.tail) if f.tail else len(h)
    pre = h[:i].replace("define", "declare", 1)
    for w in ("internal", "private", "linkonce_odr", "linkonce", "weak_odr", "weak", "available_externally"): pre = re.sub(r"\b%s " % w, "", pre)
    sig = h[i:len(h) - len(f.tail)]
    # drop parameter names
    args = sig[len(f.name) + 1:-1]
    parts = []; d = 0; cur = ""; q = False
    for c in args:
        if c == '"': q = not q
        if not q:
            if c in "([{<": d += 1
            if c in ")]}>": d -= 1
        if c == "," and d == 0 and not q: parts.append(cur); cur = ""
        else: cur += c
    if cur.strip(): parts.append(cur)
    parts = [re.sub(r'\s%' + ll.NAME + r'\s*$', '', p) for p in parts]
    return "%s%s(%s)" % (pre, f.name, ",".join(parts))

PASSES = "internalize,globaldce,default<O3>,globaldce,function(loop-simplify,lcssa,instnamer)"
OPTFLAGS = ["-inline-threshold=100000", "-inlinehint-threshold=100000", "-inlinecold-threshold=100000",
            "-vectorize-loops=false", "-vectorize-slp=false", "-unroll-threshold=4000", "-unroll-full-max-count=16", "-unroll-runtime=false",
            "-unroll-allow-partial=false", "-enable-loop-flatten=false", "-enable-scalar-pre=false", "-enable-load-pre=false",
            "-enable-load-in-loop-pre=false", "-enable-nontrivial-unswitch=false", "-jump-threading-threshold=0",
            "-enable-dfa-jump-thread=false", "-enable-loopinterchange=false", "-enable-unroll-and-jam=false"]

_group_cache = {}
def group(roots, cut=(), keep_attrs=True, passes=PASSES, flags=(), rewrite=None):
    """Module holding the given entry points, with every function whose demangled name matches one of the
    regexes in cut turned into a declaration."""
    r = raw()
    key = hashlib.sha256(repr((r.hash, sorted(roots), list(cut), passes, OPTFLAGS, list(flags), rewrite and rewrite.version)).encode()).hexdigest()[:24]
    if key in _group_cache: return _group_cache[key]
    d = os.path.join(TARGET, "groups"); os.makedirs(d, exist_ok=True)
    outp = os.path.join(d, key + ".ll")
    cutset = set()
    pats = [re.compile(c) for c in cut]
    for n, dn in r.dem.items():
        if any(p.search(dn) for p in pats): cutset.add(n)
    miss = [x for x in roots if "@" + x not in r.defined]
    if miss: raise Missing("entry points not found: %s" % miss)
    if not os.path.exists(outp):
        out = []
        decl = {}
        for k, a, b in r.pieces:
            if k == "fn":
                n = ll.fn_name(a)
                if n in cutset and n[1:] not in roots:
                    out.append(strip_header(a))
                else:
                    if rewrite:
                        nb = rewrite(r, n, a, b)
                        if nb is not None: a, b = nb
                    out.append(re.sub(r"^define (internal|private|linkonce_odr|linkonce) ", "define ", a) if n[1:] in roots else a); out.extend(b); out.append("}")
            else: out.append(a)
        if rewrite: out += rewrite.decls
        inp = os.path.join(d, "%s.%d.in.ll" % (key, os.getpid()))
        with open(inp, "w") as f: f.write("\n".join(re.sub(r"\bnoinline |\boptnone ", "", l) if l.startswith("attributes #") else l for l in out))
        tmp = outp + ".%d.tmp" % os.getpid()
        run([tool("opt"), "-S", "-o", tmp, "-passes=" + passes, "--internalize-public-api-list=" + ",".join(roots)] + OPTFLAGS + list(flags) + [inp])
        os.unlink(inp); os.replace(tmp, outp)
    m = ll.parse_module(open(outp).read())
    m.dem = ll.demangle(m.funcs)
    m.path = outp; m.cutset = cutset
    _group_cache[key] = m
    return m
