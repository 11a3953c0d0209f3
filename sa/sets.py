"""Internal iteration over a set of cells (for_each, fold without a value), in a form the analysis follows: by std's contract the closure is
called with every item next() would give, in that order.  The bodies, which walk hashbrown's groups, are reduced to this loop."""
import re, hashlib
SHAPE = re.compile(r"^<std::collections::hash::set::(Iter|IntoIter)<nalgebra::geometry::point::Point<isize, nalgebra::base::dimension::(U\d)>> as core::iter::traits::iterator::Iterator>::fold::<\(\), (.*)>$")
DECLS = ["declare ptr @sa_set_next(ptr)"] + ["declare void @sa_set_next_owned_U%d(ptr, ptr)" % n for n in (2, 3)]
WIDTH = {"ptr": 8, "i64": 8, "double": 8, "i32": 4, "float": 4, "i16": 2, "i8": 1}
def params(head):
    return re.findall(r"(?:\(|, )(ptr|i\d+|float|double)((?: [^,()%]*(?:\([^()]*\))?)*?)(%[\w.]+)", head[head.index("("):])
def heads(r):
    if not hasattr(r, "sa_heads"):
        import ll
        r.sa_heads = {}; r.sa_plain = {}
        for k, a, b in r.pieces:
            if k == "fn": n = ll.fn_name(a); r.sa_heads[n] = a; r.sa_plain.setdefault(r.dem.get(n, n).replace("::<", "<"), []).append(n)
    return r.sa_heads, r.sa_plain
def each(r, n, head, body):
    m = SHAPE.match(r.dem.get(n, n))
    if not m: return None
    hs, plain = heads(r); fs = plain.get(m.group(3).replace("::<", "<"), [])
    if len(fs) != 1: return None
    ps = params(head); qs = params(hs[fs[0]]); dim = int(m.group(2)[1:])
    if not ps or not qs: return None
    slf = ps[0][2]; pre = []; env = None
    if len(ps) == 2 and ps[1][0] == "ptr" and "dead_on_return" in ps[1][1]: env = ps[1][2]; pre = ["start:"]
    else:
        o = 0
        for k, (t, _, v) in enumerate(ps[1:]):
            if t not in WIDTH: return None
            w = WIDTH[t]; o = (o + w - 1) // w * w; pre += ["  %%sa.at%d = getelementptr inbounds i8, ptr %%sa.env, i64 %d" % (k, o), "  store %s %s, ptr %%sa.at%d" % (t, v, k)]; o += w
        pre = ["start:", "  %%sa.env = alloca [%d x i8], align 8" % max(o, 8)] + pre; env = "%sa.env"
    # a closure without captures has no environment parameter
    owned = m.group(1) == "IntoIter"; rest = len(qs) - (dim if owned and len(qs) >= dim and qs[-1][0] == "i64" else 1)
    if rest not in (0, 1): return None
    if not owned:
        loop = ["  %%sa.r = call ptr @sa_set_next(ptr %s)" % slf, "  %sa.c = icmp eq ptr %sa.r, null", "  br i1 %sa.c, label %sa.done, label %sa.body", "sa.body:"]; args = ["ptr %sa.r"]
    else:
        pre.insert(1, "  %sa.item = alloca [32 x i8], align 8")
        loop = ["  call void @sa_set_next_owned_U%d(ptr %%sa.item, ptr %s)" % (dim, slf), "  %sa.t = load i64, ptr %sa.item", "  %sa.c = icmp eq i64 %sa.t, 0", "  br i1 %sa.c, label %sa.done, label %sa.body", "sa.body:", "  %sa.p = getelementptr inbounds i8, ptr %sa.item, i64 8"]; args = ["ptr %sa.p"]
        if qs[-1][0] == "i64":
            args = []
            for k in range(dim): loop += ["  %%sa.q%d = getelementptr inbounds i8, ptr %%sa.item, i64 %d" % (k, 8 + 8 * k), "  %%sa.v%d = load i64, ptr %%sa.q%d" % (k, k)]; args.append("i64 %%sa.v%d" % k)
    return head, pre + ["  br label %sa.loop", "sa.loop:"] + loop + ["  call void %s(%s)" % (fs[0], ", ".join((["ptr " + env] if rest else []) + args)), "  br label %sa.loop", "sa.done:", "  ret void"]
each.decls = DECLS
each.version = hashlib.sha256(open(__file__, "rb").read()).hexdigest()
