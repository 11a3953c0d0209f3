"""Collecting an iterator into a list, in a form the analysis follows: std's Vec::from_iter and Vec::extend call next() on the iterator
until it has no more items and write each item behind the last one.  Their bodies are reduced to exactly this loop (the first item is not
treated apart, and capacities are left out); the iterator itself, with everything of kuba's in it, is analysed as compiled."""
import re
import ll
SHAPE = re.compile(r"^<alloc::vec::Vec<.*> as alloc::vec::spec_from_iter_nested::SpecFromIterNested<.*>>::from_iter$")
LOOP = re.compile(r"^<alloc::vec::Vec<.*>>::extend_desugared::<")
PUSH = re.compile(r"^<alloc::vec::Vec<(?!u8>).*>>::push$"); NEW = re.compile(r"^<alloc::vec::Vec<(?!u8>).*>>::(new|with_capacity)$")
# iterators of known length: the same loop inside for_each, whose body writes an item and counts
TRUSTED = re.compile(r"^<alloc::vec::Vec<(?!u8>).*>>::extend_trusted::<.*>::\{closure#0\}$"); NOTHING = re.compile(r"^<alloc::vec::Vec<(?!u8>).*>>::reserve(_exact)?$|^<alloc::vec::set_len_on_drop::SetLenOnDrop as core::ops::drop::Drop>::drop$")
DECLS = ["declare void @sa_list_new(ptr)", "declare void @sa_list_push(ptr, ptr, i64)"]
# results of operations that are not looked into whose first word is a capacity (never negative), or a capacity or the mark of an error (-1)
RANGES = [(re.compile(r"^<std::fs::DirEntry>::path$|^core::ptr::read::<std::path::PathBuf>$|^<std::path::Path>::(to_path_buf|join)"), 0), (re.compile(r"^kuba::kitti::point_cloud_reader::(read|read_from_file)$|^kuba::kitti::fs::seq_files_in_dir$"), -1)]
def collect(r, n, head, body):
    dn = r.dem.get(n, n)
    if SHAPE.search(dn): return from_iter(head, body)
    if LOOP.search(dn): head, body = extend(head, body) or (head, body)
    if PUSH.search(dn): head, body = push(head, body) or (head, body)
    if TRUSTED.search(dn): head, body = push(head, body, trusted=True) or (head, body)
    if NOTHING.search(dn): return head, ["start:", "  ret void"]
    if NEW.search(dn):
        out = re.search(r"ptr [^%]*sret[^%]*(%[\w.]+)", head); return (head, ["start:", "  call void @sa_list_new(ptr %s)" % out.group(1), "  ret void"]) if out else None
    res = []; k = 0
    for l in body:
        res.append(l); m = re.match(r"  (?:tail )?call void (@[\w.$]+)\(ptr [^%]*sret[^%]*(%[\w.]+)", l)
        if m:
            for p, lo in RANGES:
                if p.search(r.dem.get(m.group(1), m.group(1))):
                    k += 1; res += ["  %%sa.cap%d = load i64, ptr %s" % (k, m.group(2)), "  %%sa.ok%d = icmp sge i64 %%sa.cap%d, %d" % (k, k, lo), "  call void @llvm.assume(i1 %%sa.ok%d)" % k]
    return head, res
SCALAR = {"ptr": 8, "i64": 8, "double": 8, "i32": 4, "float": 4, "i16": 2, "i8": 1}
def push(head, body, trusted=False):
    """push(self, value): the value's bytes are put into a slot and the slot is pushed."""
    ps = re.findall(r"(?:\(|, )(ptr|i\d+|float|double)((?: [^,()%]*(?:\([^()]*\))?)*?)(%[\w.]+)", head[head.index("("):])
    if len(ps) < 2: return None
    slf = ps[0][2]; pre = []
    if trusted: pre = ["  %%sa.len = load ptr, ptr %s" % slf, "  %sa.vec = getelementptr inbounds i8, ptr %sa.len, i64 -16"]; slf = "%sa.vec"
    if len(ps) == 2 and "dead_on_return" in ps[1][1]:
        n = re.search(r"dereferenceable\((\d+)\)", ps[1][1]); return (head, ["start:"] + pre + ["  call void @sa_list_push(ptr %s, ptr %s, i64 %s)" % (slf, ps[1][2], n.group(1)), "  ret void"]) if n else None
    o = 0; b = []
    for k, (t, _, v) in enumerate(ps[1:]):
        if t not in SCALAR: return None
        n = SCALAR[t]; o = (o + n - 1) // n * n; b += ["  %%sa.at%d = getelementptr inbounds i8, ptr %%sa.slot, i64 %d" % (k, o), "  store %s %s, ptr %%sa.at%d" % (t, v, k)]; o += n
    return head, ["start:", "  %%sa.slot = alloca [%d x i8], align 16" % o] + pre + b + ["  call void @sa_list_push(ptr %s, ptr %%sa.slot, i64 %d)" % (slf, o), "  ret void"]
def from_iter(head, body):
    call = [k for k, l in enumerate(body) if re.search(r"call void @", l) and "SpecExtend" in l and "spec_extend" in l]
    if len(call) != 1: return None
    k = call[0]; m = re.search(r"\(ptr ([^%]*)(%[\w.]+), ptr ([^%]*)(%[\w.]+)\)", body[k])
    if not m: return None
    out = re.search(r"ptr [^%]*sret[^%]*(%[\w.]+)", head)
    if not out: return None
    it = m.group(4); copy = []; j = k - 1
    while j > 0 and not re.match(r"^\S+:", body[j]):
        if it in body[j] and "memcpy" in body[j]: copy.insert(0, body[j])
        j -= 1
    allocas = [l for l in body if re.match(r"\s+%[\w.]+ = alloca ", l)]
    return head, ["start:"] + allocas + ["  call void @sa_list_new(ptr %s)" % out.group(1)] + [re.sub(r", !dbg !\d+", "", l) for l in copy] + ["  call void %s(ptr %s, ptr %s)" % (re.search(r"call void (@[\w.$]+)", body[k]).group(1), out.group(1), it), "  ret void"]
def extend(head, body):
    body = [re.sub(r", !dbg !\d+", "", l) for l in body if "#dbg_" not in l]
    t = "\n".join(body); size = re.search(r"store i64 (\d+), ptr %elem_size\.dbg", t); dst = re.search(r"(%dst) = getelementptr inbounds (nuw )?[^\n]*, i64 %len\b", t); ln = re.search(r"\n  %new_len = add[^\n]*%len, 1", t)
    full = re.search(r"(%[\w.]+) = icmp eq i64 %len, %[\w.]+\n  br i1 \1, label (%bb\d+), label (%bb\d+)", t); slf = re.search(r"\(ptr [^%]*(%[\w.]+), ptr", head[head.index("("):])
    if not (size and dst and ln and full and slf): return None
    n = int(size.group(1))
    t = t.replace(full.group(0), "  br label " + full.group(3)); t = t.replace(dst.group(0), "%dst = getelementptr inbounds i8, ptr %sa.slot, i64 0")
    t = t.replace(ln.group(0), "\n  call void @sa_list_push(ptr %s, ptr %%sa.slot, i64 %d)" % (slf.group(1), n) + ln.group(0)); t = t.replace("start:\n", "start:\n  %%sa.slot = alloca [%d x i8], align 16\n" % max(n, 1), 1)
    # the length is kept by push
    t = re.sub(r"\n  store i64 %new_len, ptr %\d+[^\n]*", "", t)
    return head, t.split("\n")
collect.decls = DECLS
import hashlib
collect.version = hashlib.sha256(open(__file__, "rb").read()).hexdigest()
