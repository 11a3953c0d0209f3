"""What the crate's operations may touch besides their arguments, and what they may not change."""
from framework import *
import graph, mir, layout as LY
import extract as EX

STD = re.compile(r"^<*(?:&|mut |\*const |\*mut |\[|\(|dyn )*(?:std|core|alloc|hashbrown|__rustc|generic_array::from_iter_length_fail)\b")
def is_std(d): return STD.match(d) is not None or re.match(r"^<[^<>]*(?:<.*>)? as (?:std|core|alloc)::", d) is not None and not re.match(r"^<+&?(?:mut )?(kuba|nalgebra|ndarray|roots)", d)
# operations of the standard library outside core and alloc that neither read nor change anything but their arguments
PURE = re.compile(r"std::collections::|std::hash::|std::panicking::(?:begin_panic|panic)|<?(?:f32|f64)>?::|std::num::|std::f32|std::f64|std::ffi::|std::ascii|std::error::|std::io::(?:error::|Error|cursor|Cursor|read_to_string|default_read|Read\b|BufRead\b|Bytes|Take|Chain|Lines|Split)|std::rt::|std::alloc::|std::bstr")
PATH = re.compile(r"std::path::"); PATH_FS = re.compile(r"::(?:exists|try_exists|metadata|symlink_metadata|canonicalize|read_link|is_file|is_dir|is_symlink|read_dir|absolute)\b")
READ = re.compile(r"std::fs::(?:OpenOptions>?::(?:new|read|open)\b|File>?::(?:open|metadata|len)\b|File as (?:std|alloc|core)::io::\S*Read|File as .*::Seek|read_dir\b|ReadDir|DirEntry|FileType|Metadata|metadata\b|read\b|read_to_string\b)|std::io::(?:buffered|BufReader|copy\b)|BufReader|std::path::Path>?::(?:exists|is_file|is_dir|metadata|read_dir|try_exists)|std::sys::fs::.*InnerReadDir")
PRINT = re.compile(r"std::io::(?:stdio::)?(?:_print|_eprint|stdout|stderr|Stdout|Stderr)")
RUNTIME = re.compile(r"^(?:__rustc::.*|mem(?:cpy|cmp|move|set)|bcmp|strlen|rust_eh_personality|_Unwind_Resume|(?:sin|cos|tan|asin|acos|atan|atan2|sinh|cosh|tanh|exp|exp2|expm1|log|log2|log10|log1p|pow|fmod|fma|hypot|cbrt|round|roundeven|rint|trunc|floor|ceil|fmin|fmax|fdim|tgamma|lgamma_r)f?)$")
HARNESS = re.compile(r"^(?:[xy]_\w+|sink\d)$")
def effect(d):
    """What a function outside the analysed crates does: None (nothing but its arguments), 'reads files', 'prints' or 'unknown'."""
    if PRINT.search(d): return "prints"
    if READ.search(d): return "reads files"
    if PATH.search(d): return "reads files" if PATH_FS.search(d) else None
    if re.search(r"core_arch::.*(?:rdtsc|rdrand|rdseed|cpuid)", d): return "reads the processor's clock or random numbers"
    head = re.match(r"^<*(?:&|mut )*([\w:]+)", d); head = head.group(1) if head else d
    if head.startswith("std::") or re.search(r" as std::", d): return None if PURE.search(d) else "uses " + d
    if RUNTIME.match(d) or HARNESS.match(d): return None
    if "::" in d: return None       # core, alloc and the linear-algebra crates: judged by what they call in turn
    return "calls the foreign function " + d

def entry_points(g): return sorted(n[1:] for n in g.body if re.match(r"@[a-z][a-z_0-9]*$", n))
def mutable_globals(g):
    """Names of the global variables that are not constants: name -> thread-local?"""
    out = {}
    for k, a, b in g.raw.pieces:
        if k != "fn" and a.startswith("@"):
            m = re.match(graph.NAME + r" = (.*)", a); kind = re.search(r"\b(global|constant)\b", re.sub(r'"[^"]*"', "", m.group(1))[:400])
            if kind and kind.group(1) == "global": out[re.match(graph.NAME, a).group(0)] = "thread_local" in m.group(1)[:200]
    return out

@prop("W01", "Call-graph effect analysis over the compiled crate and everything it instantiates: all functions reachable from every public operation (direct calls, taken addresses, vtables); each call that leaves the linked module or enters the standard library's operating-system layer is classified; global variables are classified as constant or not. Rule: no reachable function uses a clock, the environment, randomness, processes, threads, the network or a foreign function; no function outside the standard library refers to a variable global or thread-local; only the dataset readers reach file operations, all of them read-only; only the directory readers reach printing, and only where their flag is true.")
def w01(P):
    g = graph.graph(); roots = entry_points(g); P.roots.update(roots); lib = [r for r in roots if not r.startswith("k_")]
    quiet = [r for r in roots if r.startswith("k_") and not r.endswith("_dir")]; dirs = [r for r in roots if r.startswith("k_") and r.endswith("_dir")]
    muts = mutable_globals(g); calls = 0
    for name, rs, allowed in (("map-operations", lib, ()), ("file-readers", quiet, ("reads files",)), ("directory-readers", dirs, ("reads files", "prints"))):
        pred = g.reach(rs); P.count("functions_reached_" + name.replace("-", "_"), len(pred)); bad = {}
        for n in sorted(pred):
            if n not in g.body: continue
            d = g.dem.get(n, n[1:])
            if is_std(d): continue
            for y in sorted(g.calls.get(n, ())) + sorted(g.refs.get(n, ())):
                calls += 1; e = effect(g.dem.get(y, y[1:]))
                if e and e not in allowed: bad.setdefault((d, e), (n, g.dem.get(y, y[1:])))
            for x in sorted(g.globals_of.get(n, ())):
                if x in muts: bad.setdefault((d, "keeps state in the %s variable %s" % ("thread-local" if muts[x] else "global", g.dem.get(x, x))), (n, x))
        P.require(name + "-effects", roots[0], not bad, "")
        if bad:
            P.obs.pop()
            for (d, e), (n, y) in sorted(bad.items())[:10]:
                w = g.where(n); f = w[0] if w else "?"; i = f.find("src/")
                P.bad("%s-effects-%s" % (name, re.sub(r"\W+", "-", d + "-" + y)[-80:]), "%s at %s:%d" % (d, f[i:] if i >= 0 else f, w[1] if w else 0), "it %s (%s); reached by: %s" % (e, y[:120], " -> ".join(x[:80] for x in g.chain(pred, n)[:6])))
    P.count("calls_classified", calls); P.count("variable_globals", len(muts))
    for r in dirs: P.guarded("asked-" + r, r, lambda: asked(P, r))
def asked(P, root):
    """A directory reader prints only when asked to."""
    from props_read import MM, SEQ, OPEN, READS, NAME, UNROTATED, steady, lists
    from invar import implies
    a = P.use(MM.modular(root, MM.OBJLIB, MM.DROPLIB, opaque=[SEQ, OPEN, READS["oxt"], READS["pcr"], r"::_e?print$", NAME], rewrite=lists.collect, flags=UNROTATED)); ctx = Ctx(); by = {L.n: L for L in a.loops}
    flag = a.inputs["print_status"][1]; n = 0
    for e in a.events:
        if e.kind in ("store", "panic") or effect(e.name or "") != "prints": continue
        n += 1; g = e.guard
        for k in e.loops: g = dand(dand(by[k].entry_guard, D1), steady(by[k], ctx, by[k].entry_guard)(g))
        P.holds("asked-%s-%d" % (root, n), root, flag, ctx, g, what="printing only when asked to")
    P.count("prints_" + root, n)

def reachable_types(L, ref, path, seen, out):
    """Every type reachable from a type through fields, pointers, array elements, variants and type parameters."""
    st = [(ref, path)]
    while st:
        r, p = st.pop()
        if r in seen or r not in L.md: continue
        seen.add(r); k, b = L.md[r]
        nm = L.attr(b, "name") if k != "list" else ""
        if k == "DICompositeType": out.append((nm or "", p, r))
        q = p + [nm] if k == "DICompositeType" and nm else p
        for a in ("baseType", "elements", "templateParams", "type"):
            x = L.attr(b, a) if k != "list" else None
            if x and x.startswith("!"): st.append((x, q))
        if k == "list":
            for x in re.findall(r"!\d+", b): st.append((x, q))

@prop("W02", "Type-reachability and escape analysis: (a) over the compiler's type information, every type reachable from the crate's public types through fields, pointers, variants and type parameters; rule: none has interior mutability (UnsafeCell and everything built on it), and none of the crate's own types holds a raw writable pointer. (b) over the MIR of every function of the crate, generic ones included; rule: no cast, transmute, raw-pointer write or inline assembly by which something reached through a shared reference could be written to. Without these, Rust's type rules forbid changing what a shared reference refers to.")
def w02(P):
    g = graph.graph(); L = LY.Layout(EX.raw_text()); P.roots.update(entry_points(g)); n = 0
    own = ["Bounds", "CellBounds", "PointCloud", "GridMapN", "OccupancyGridMapN", "LidarNoiseModel"]
    for o in own:
        refs = sorted((nm, r) for nm, r in L.byname.items() if re.match(re.escape(o) + r"(<|$)", nm)); bad = []; seen = set(); out = []
        P.require("type-%s-found" % o, P_site(P), bool(refs), "no type %s in the compiled crate" % o)
        for nm, r in refs: reachable_types(L, r, [], seen, out)
        n += len(out)
        for t, p, r in out:
            if re.match(r"UnsafeCell<", t): bad.append(" -> ".join((p + [t])[-6:]))
        P.require("type-%s-frozen" % o, P_site(P), not bad, "type %s has interior mutability: %s" % (o, "; ".join(bad[:3])))
        for nm, r in refs:
            for fn_, off, size, ty in L.members(r):
                tn = L.type_name(ty); P.require("type-%s-%s-owned" % (nm, fn_), P_site(P), not re.match(r"\*mut |&mut ", tn), "field %s of %s is %s" % (fn_, nm, tn))
    P.count("types_walked", n); fns = mir.load(); P.count("mir_functions", len(fns)); P.count("mir_statements", sum(len(f.stmts) for f in fns))
    for f in fns:
        if "::tests::" in f.head: continue
        s = mir.suspicious(f)
        P.obs.append(("escape-" + f.name[:120], not s, f.head[:200], "; ".join("%s (%s)" % (r, x[:160]) for x, r in s[:3])))
def P_site(P): return sorted(P.roots)[0]
