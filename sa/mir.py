"""The crate's MIR (all functions, generic ones included), as rustc prints it: casts and raw-pointer writes."""
import re, glob, os
import extract as EX

class Fn:
    def __init__(self, head): self.head = head; self.types = {}; self.stmts = []; self.name = re.sub(r"^(?:const )?(?:unsafe )?(?:extern \"\w+\" )?fn |\(_1.*|\(\) ->.*| -> .*", "", head)
def load():
    fs = [f for f in glob.glob(os.path.join(EX.TARGET, "debug", "build", "kuba", "*", "out", "kuba-*.mir"))]
    if len(fs) != 1: raise EX.BuildError("MIR of kuba: %s" % fs)
    fns = []; cur = None
    for l in open(fs[0]):
        l = l.rstrip("\n")
        if not l.startswith(" ") and l.endswith("{"):
            cur = Fn(l[:-1].strip()); fns.append(cur)
            for m in re.finditer(r"\b(_\d+): ((?:[^,()\[\]<>]|\((?:[^()]|\([^()]*\))*\)|\[[^\]]*\]|<(?:[^<>]|<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>)*>)*)", cur.head): cur.types[m.group(1)] = m.group(2).strip()
            continue
        if cur is None: continue
        if l == "}": cur = None; continue
        s = l.strip(); s = re.sub(r"\s*//.*$", "", s)
        m = re.match(r"let (?:mut )?(_\d+): (.*);$", s)
        if m: cur.types[m.group(1)] = m.group(2); continue
        if s and not s.startswith(("scope", "debug", "bb", "}", "StorageLive", "StorageDead", "return", "goto", "drop")): cur.stmts.append(s)
    return fns

OWN = re.compile(r"as_mut_ptr|as_mut_slice|into_raw|alloc::alloc|dangling")
WRITE = re.compile(r"\b(ptr::(mut_ptr::)?(write|write_bytes|write_unaligned|write_volatile|copy|copy_nonoverlapping|replace|swap|drop_in_place)|intrinsics::(copy|write)\w*|from_raw_parts_mut|<impl \*mut [^>]*>::(write\w*|replace|swap|copy_\w+|as_mut|drop_in_place)|UnsafeCell|NonNull<[^>]*>::(as_mut|as_ptr))\b")
def mutable(t): return t.startswith(("*mut ", "&mut ")) or re.match(r"&'\w+ mut ", t) is not None
def raw_mut(t): return t.startswith("*mut ")
def suspicious(f):
    """Places of a function where something reached through a shared reference could become writable: (statement, reason)."""
    out = []; defs = {}
    for s in f.stmts:
        m = re.match(r"(_\d+) = (.*?);?$", s)
        if m: defs.setdefault(m.group(1), []).append(m.group(2))
    def origin(v, seen):
        """Why pointer v may come from a shared reference, or None."""
        if v in seen: return None
        seen.add(v); t = f.types.get(v, "")
        if t.startswith("&mut ") or re.match(r"&'\w+ mut ", t): return None
        if t.startswith(("*const ", "&")): return "it comes from %s: %s" % (v, t)
        if not t.startswith("*mut "): return "it comes from %s: %s" % (v, t)
        if v not in defs: return "parameter %s: %s" % (v, t) if v != "_0" else None
        for d in defs[v]:
            if d.startswith(("&raw mut ", "&mut ")):
                b = re.search(r"\(\*+(_\d+)\)", d)
                if b:
                    r = origin(b.group(1), seen)
                    if r: return r
                continue
            if OWN.search(d) or d.startswith("const {alloc"): continue      # a static variable is no argument
            m = re.match(r"(?:move |copy )?(_\d+)(?: as .*)?$", d) or re.match(r".*\((?:move|copy) (_\d+)[,)]", d)
            if not m: return "it is made by " + d
            r = origin(m.group(1), seen)
            if r: return r
        return None
    for s in f.stmts:
        m = re.search(r"= (?:move |copy )?(.*?) as (.*) \((\w+)(?:\(.*\))?\)", s)
        if m and mutable(m.group(2)):
            v = re.search(r"_\d+", m.group(1)); src = f.types.get(v.group(0), "") if v and re.fullmatch(r"_\d+", m.group(1)) else "?"
            if not mutable(src) and not (src.startswith("std::boxed::Box") or src.startswith("Box<")): out.append((s, "%s becomes the writable pointer %s" % (src or "a value", m.group(2))))
        if re.search(r"\btransmute(_copy|_unchecked)?::<", s) and re.search(r"(\*mut|&mut|&'\w+ mut) ", s.split("transmute", 1)[1]): out.append((s, "a transmute makes a writable pointer"))
        if "cast_mut" in s: out.append((s, "a read-only pointer becomes writable"))
        if "asm!" in s: out.append((s, "inline assembly"))
        m = re.match(r"\(\*(_\d+)\)\S* = |.*&(?:raw )?mut \(\*(_\d+)\)", s) or re.match(r"\(\(\*(_\d+)\)[^=]* = |.*&(?:raw )?mut \(+\*(_\d+)\)", s)
        if m:
            v = m.group(1) or m.group(2)
            if raw_mut(f.types.get(v, "")):
                r = origin(v, set())
                if r: out.append((s, "a write through a raw pointer: " + r))
        m = WRITE.search(s)
        if m:
            for v in re.findall(r"_\d+", s.split("(", 1)[1] if "(" in s else ""):
                if raw_mut(f.types.get(v, "")):
                    r = origin(v, set())
                    if r: out.append((s, "a write through a raw pointer: " + r))
            if "UnsafeCell" in m.group(0): out.append((s, "interior mutability"))
    return out
