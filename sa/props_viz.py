"""The viewer: a drawing thread and the thread that integrates the next scan."""
from framework import *
from models import *
from sweep import *
import models as MM, lists
from props_cloud import plain
from props_read import UNROTATED

# ------------------------------------------------------------------ contracts
MAPG = r"kuba::map::occupancy_grid_map::OccupancyGridMapN<.*>"; HMAP = r"std::collections::hash::map::HashMap<.*>"
def num(an): an.nset = getattr(an, "nset", 0) + 1; return an.nset
def its(an): return tuple(T("it", n) for n in an.loopstack)
def words(an, st, p, n): return [geti(an, st, p, 8 * k) for k in range(n)]
def floats(an, st, p, n): return [getf(an, st, p, 4 * k) for k in range(n)]
def truth(d): return d if all(t in (ZERO, ONE) for t in leaves(d)) else to_bool(d)
def m_lock(an, fr, i, dn, args, G, st):
    out, m = args[0][1], args[1][1]; put(an, st, out, 0, 8, D0); put(an, st, out, 8, 8, m); put(an, st, out, 16, 1, D0); set_event(an, fr, i, G, "lock", [m])
def m_unlock(an, fr, i, dn, args, G, st): set_event(an, fr, i, G, "unlock", [get(an, st, args[0][1], 0, 8)])
def f_new(an, fr, i, dn, args, G, st): set_event(an, fr, i, G, "flag-new", [truth(args[0][1])]); fr.env[i.res] = lift1(lambda t: leaf(t), truth(args[0][1]))
def f_load(an, fr, i, dn, args, G, st):
    t = T("flag", num(an), its(an)); set_event(an, fr, i, G, "flag-load", [args[0][1], flag(t)]); fr.env[i.res] = flag(t)
def f_store(an, fr, i, dn, args, G, st): set_event(an, fr, i, G, "flag-store", [args[0][1], truth(args[1][1])])
def f_swap(an, fr, i, dn, args, G, st): f_load(an, fr, i, dn, args, G, st); f_store(an, fr, i, dn, args, G, st)
def arc_clone(an, fr, i, dn, args, G, st): fr.env[i.res] = get(an, st, args[0][1], 0, 8)
def t_spawn(an, fr, i, dn, args, G, st):
    from engine import Event
    b, o = ptr_parts(one(args[1][1], "what the thread runs")); an.events.append(Event("lib", G, "spawn", [args[1][1]], i, fr.f.name, tuple(an.loopstack), (dn, an.obj(st, b), o)))
def g_occupied(an, fr, i, dn, args, G, st):
    c = words(an, st, args[1][1], 3); t = T("occupied", num(an), its(an), wrap(args[0][1]), *map(wrap, c)); set_event(an, fr, i, G, "occupied", [args[0][1]] + c + [flag(t)]); fr.env[i.res] = flag(t)
def g_centre(an, fr, i, dn, args, G, st):
    c = words(an, st, args[2][1], 3); set_event(an, fr, i, G, "centre", [args[1][1]] + c)
    for k in range(3): put(an, st, args[0][1], 4 * k, 4, leaf(T("centre", INT(k), wrap(args[1][1]), *map(wrap, c))))
def g_bounds(an, fr, i, dn, args, G, st):
    for k in range(6): put(an, st, args[0][1], 4 * k, 4, leaf(T("bound", INT(k), wrap(args[1][1]))))
def g_resolution(an, fr, i, dn, args, G, st): fr.env[i.res] = leaf(T("resolution", wrap(args[0][1])))
def g_first(an, fr, i, dn, args, G, st):
    b = floats(an, st, args[1][1], 6); r = as_float(args[2][1], 32)
    for k in range(6): t = T("cell-of-corner", INT(k), wrap(r), *map(wrap, b)); INT_ATOMS.add(t); put(an, st, args[0][1], 8 * k, 8, leaf(t))
def g_track(an, fr, i, dn, args, G, st): set_event(an, fr, i, G, "track", [args[0][1], truth(args[1][1])])
def g_integrate(an, fr, i, dn, args, G, st): set_event(an, fr, i, G, "integrate", [args[0][1]] + floats(an, st, args[1][1], 3) + words(an, st, args[2][1], 4))
def g_log(an, fr, i, dn, args, G, st):
    t = T("log", num(an)); set_event(an, fr, i, G, "log", [args[1][1], leaf(t)])
    for k in range(3): x = T("part", t, INT(k)); INT_ATOMS.add(x); put(an, st, args[0][1], 8 * k, 8, leaf(x))
def g_clear(an, fr, i, dn, args, G, st): set_event(an, fr, i, G, "log-clear", [args[0][1]])
def g_default(an, fr, i, dn, args, G, st): set_event(an, fr, i, G, "map-new", []); b, o = ptr_parts(one(args[0][1])); put(an, st, args[0][1], 0, 144, leaf(T("map-new", num(an))))
def l_extend(an, fr, i, dn, args, G, st):      # onto a list that is empty
    s, v = args[0][1], args[1][1]; n = geti(an, st, s, 16)
    for k in range(2): put(an, st, s, 8 * k, 8, geti(an, st, v, 8 * k))
    put(an, st, s, 16, 8, iadd(n, geti(an, st, v, 16)))
def c_clone(an, fr, i, dn, args, G, st):
    p = args[1][1]; set_event(an, fr, i, G, "cloud-copy", [p])
    for k in range(4): put(an, st, args[0][1], 8 * k, 8, leaf(T("copy", INT(k), wrap(p))))
def c_moved(an, fr, i, dn, args, G, st):
    set_event(an, fr, i, G, "cloud-moved", [args[1][1]] + words(an, st, args[1][1], 4) + floats(an, st, args[2][1], 16)); n = num(an)
    for k in range(4): put(an, st, args[0][1], 8 * k, 8, leaf(T("moved", INT(k), n, its(an))))
def h_contains(an, fr, i, dn, args, G, st):
    c = words(an, st, args[1][1], 3); t = T("tracked", num(an), its(an), wrap(args[0][1]), *map(wrap, c)); set_event(an, fr, i, G, "tracked", [args[0][1]] + c + [flag(t)]); fr.env[i.res] = flag(t)
def h_insert(an, fr, i, dn, args, G, st):
    set_event(an, fr, i, G, "put", [args[1][1]] + words(an, st, args[2][1], 3) + floats(an, st, args[3][1], 3)); put(an, st, args[0][1], 0, 16, leaf(T("old", num(an))))
def h_remove(an, fr, i, dn, args, G, st):
    set_event(an, fr, i, G, "take", [args[1][1]] + words(an, st, args[2][1], 3)); put(an, st, args[0][1], 0, 16, leaf(T("old", num(an))))
def h_new(an, fr, i, dn, args, G, st): put(an, st, args[0][1], 0, 48, leaf(T("no-cells", num(an))))
def h_iter(an, fr, i, dn, args, G, st):
    e = T("elements", num(an), wrap(args[1][1])); INT_ATOMS.add(T("size", e)); put(an, st, args[0][1], 0, 8, leaf(e)); put(an, st, args[0][1], 8, 8, D0); set_event(an, fr, i, G, "elements", [args[1][1], leaf(e)])
def h_next(an, fr, i, dn, args, G, st):
    p = args[0][1]; e = one(as_int(get(an, st, p, 0, 8)), "what is iterated over"); k = geti(an, st, p, 8); put(an, st, p, 8, 8, iadd(k, leaf(ONE))); more = ilt(k, leaf(T("size", e)))
    at = lambda w: apply((w, e.id), lambda x: leaf(mk_ptr(T(w, e), lin_scale(x, 64))), k)
    if "Values" in dn or "Keys" in dn: fr.env[i.res] = ite(more, at("value" if "Values" in dn else "key"), D0)
    else: fr.env[i.res] = ite(more, lift1(lambda x: lift1(lambda y: leaf(T("agg", x, y)), at("value")), at("key")), leaf(T("agg", ZERO, ZERO)))
def d_line(an, fr, i, dn, args, G, st): set_event(an, fr, i, G, "line", [args[0][1]] + [x for p in args[1:4] for x in floats(an, st, p[1], 3)])
def d_point(an, fr, i, dn, args, G, st): set_event(an, fr, i, G, "point", [args[0][1]] + [x for p in args[1:3] for x in floats(an, st, p[1], 3)])
MUTEX = r"std::sync::(?:\w+::)*Mutex"
VIZLIB = [(r"^<%s<.*>>::lock$" % MUTEX, m_lock), (r"^core::ptr::(drop_glue|drop_in_place)::<%sGuard<.*>>$" % MUTEX, m_unlock),
          (r"^<core::sync::atomic::Atomic(<bool>|Bool)>::new$", f_new), (r"^<core::sync::atomic::Atomic(<bool>|Bool)>::load$", f_load), (r"^<core::sync::atomic::Atomic(<bool>|Bool)>::store$", f_store), (r"^<core::sync::atomic::Atomic(<bool>|Bool)>::swap$", f_swap),
          (r"^<alloc::(rcs|sync)(::arc)?::Arc<.*> as core::clone::Clone>::clone$", arc_clone), (r"^std::thread::(functions::)?spawn::<", t_spawn),
          (r"^<%s>::occupied$" % MAPG, g_occupied), (r"^<%s as kuba::.*>::point_from_cell$" % MAPG, g_centre), (r"^<%s as kuba::.*>::bounds$" % MAPG, g_bounds), (r"^<%s as kuba::.*>::resolution$" % MAPG, g_resolution),
          (r"^<kuba::geom::cell_bounds::CellBounds<.*>>::from_bounds$", g_first), (r"^<%s as kuba::.*>::set_track_changes$" % MAPG, g_track), (r"^<%s>::integrate_point_cloud$" % MAPG, g_integrate),
          (r"^<%s as kuba::.*>::changed_cells$" % MAPG, g_log), (r"^<%s as kuba::.*>::clear_changed_cells$" % MAPG, g_clear), (r"^<%s>::default$" % MAPG, g_default),
          (r"^<alloc::vec::Vec<.*Point.*> as core::iter::traits::collect::Extend<.*>>::extend::<alloc::vec::Vec<.*>>$", l_extend), (r"^<alloc::vec::Vec<.*Point.*>>::append$", l_extend),
          (r"^<kuba::geom::point_cloud::PointCloud<.*> as core::clone::Clone>::clone$", c_clone), (r"^<kuba::geom::point_cloud::PointCloud<.*>>::transform$", c_moved),
          (r"^<%s>::contains_key::<" % HMAP, h_contains), (r"^<%s>::insert$" % HMAP, h_insert), (r"^<%s>::remove::<" % HMAP, h_remove), (r"^<%s>::new$" % HMAP, h_new), (r"^<&%s as .*IntoIterator>::into_iter$" % HMAP, h_iter), (r"^<%s>::(iter|values|keys)$" % HMAP, h_iter),
          (r"^<std::collections::hash::map::(Iter|Values|Keys)<.*> as core::iter::traits::iterator::Iterator>::next$", h_next), (r"^k3_line$", d_line), (r"^k3_point$", d_point),
          (r"^core::ptr::(drop_glue|drop_in_place)::<((?!MutexGuard).)*$", nothing)]

# ------------------------------------------------------------------ the two threads
def symbol(pat, what):
    r = EX.raw(); fs = [n for n, d in r.dem.items() if n in r.defined and re.search(pat, d)]
    if len(fs) != 1: raise Unproved("%s is defined %d times" % (what, len(fs)))
    return fs[0][1:]
def named(a, *names): return [e for e in a.events if e.kind == "lib" and e.name in names]
def place(d, what="a place"): b, o = ptr_parts(one(D_(d), what)); return b, o
class Threads:
    """What one step of the viewer does, and what the thread it starts does."""
    def __init__(self, P):
        self.P = P; self.ctx = Ctx(); self.root = symbol(r" as kiss3d::window::State>::step$", "the viewer's step"); self.a = P.use(MM.modular(self.root, VIZLIB, flags=UNROTATED)); a = self.a
        sp = named(a, "spawn"); P.require("one-thread", self.root, len(sp) == 1 and not sp[0].loops, "a step starts threads in %d places" % len(sp))
        if len(sp) != 1: raise Unproved("a step starts threads in %d places" % len(sp))
        self.spawn = sp[0]; dn, self.env, self.envoff = self.spawn.term; f = re.match(r"^std::thread::(?:functions::)?spawn::<(.*), \(\)>$", dn)
        if not f: raise Unproved("what the thread runs is unknown", (), dn[:200])
        self.wroot = symbol("^%s$" % re.escape(f.group(1)), "what the thread runs"); w = self.w = P.use(MM.modular(self.wroot, VIZLIB, flags=UNROTATED)); self.wenv = T("arg", list(w.inputs)[0])
        self.self_ = T("arg", list(a.inputs)[0])
        # what the two share: the same object, reached through a field of the viewer and through what the thread was given
        self.flags = {x: {place(e.args[0])[0] for e in named(y, "flag-load", "flag-store", "lock")} for x, y in (("step", a), ("thread", w))}
        P.require("shared", self.root, all(len(x) == 1 for x in self.flags.values()), "locks and flags of more than one object are used: %s" % {k: [show(y, 4) for y in v] for k, v in self.flags.items()})
        self.vb, self.wb = [list(x)[0] for x in self.flags.values()]
        P.require("shared-same", self.root, self.wb.op == "ld" and self.given(self.wb.args[0]) is leaf(self.vb.args[0]), "the thread does not use the viewer's locks and flag")
        self.panic = dnot(a.guard)
    def given(self, t):
        """What the thread was given, for a part of its own input."""
        if t.op == "sub" and t.args[0] is T("init", self.wenv): return as_int(read_obj(self.env, t.args[1] + self.envoff.args[0], t.args[2]))
        raise Unproved("not a part of what the thread was given", (), show(t, 4))
    def off(self, d): b, o = place(d); return o.args[0] if b in (self.vb, self.wb) and o.op == "int" else None
    def mutexes(self, P):
        """Every lock that is taken is free for the one who takes it, and released."""
        for which, root, a in (("step", self.root, self.a), ("thread", self.wroot, self.w)):
            held = {}
            for k, e in enumerate(named(a, "lock", "unlock")):
                o = self.off(e.args[0]); key = "%s-lock-%s" % (which, k)
                P.require(key + "-place", root, o is not None and not e.loops, "a lock is taken in a loop, or an unknown one")
                if e.name == "lock": P.require(key + "-free", root, o not in held, "a lock is taken that is held already"); held[o] = e
                else:
                    l = held.pop(o, None); P.require(key + "-pair", root, l is not None, "a lock is released that is not held")
                    if l: P.holds(key + "-released", root, dor(dnot(l.guard), e.guard), self.ctx, a.guard, what="a lock that is taken is released")
            P.require(which + "-locks-released", root, not held, "a lock is not released")
V_HOW = "Value-flow (gated SSA) of the compiler's IR of the viewer's step and of the closure its thread runs; kiss3d is replaced by a stand-in of the same interface, and locks, atomic flags, starting a thread, hash maps and kuba's operations are used through their contracts. "
@prop("V01", V_HOW + "Rule: locks are taken only when free and always released; the viewer takes locks or starts a thread only in a step that has found the flag set, clears it before it starts one, and starts exactly one; the thread sets the flag on every path, after the last lock it takes, and never clears it; the flag is set at first.", "viz")
def v01(P):
    def run():
        S = Threads(P); a, w, ctx = S.a, S.w, S.ctx; S.mutexes(P); ev = a.events.index
        loads = named(a, "flag-load"); P.require("flag-read", S.root, bool(loads) and not loads[0].loops and loads[0].guard is D1, "the step does not begin by reading the flag")
        if not loads: return
        on = loads[0].args[1]; fo = S.off(loads[0].args[0]); first = ev(loads[0])
        stores = named(a, "flag-store"); wst = named(w, "flag-store")
        P.require("flag-same", S.root, fo is not None and all(S.off(e.args[0]) == fo for e in loads + stores + wst + named(w, "flag-load")), "different flags are used")
        for k, e in enumerate(named(a, "lock", "spawn")): P.holds("phase-%d" % k, S.root, dor(dnot(e.guard), on), ctx, what="%s only when no thread is running" % ("a lock is taken" if e.name == "lock" else "a thread is started")); P.require("phase-after-%d" % k, S.root, ev(e) > first, "a lock is taken, or a thread started, before the flag is read")
        P.require("flag-cleared", S.root, len(stores) == 1 and stores[0].args[1] is D0 and not stores[0].loops and ev(stores[0]) < ev(S.spawn), "the flag is not cleared once before the thread is started")
        for e in stores[:1]: P.same_cond("flag-cleared-when", S.root, dand(e.guard, a.guard), dand(S.spawn.guard, a.guard), ctx, what="the flag is cleared exactly when a thread is started")
        P.holds("started", S.root, S.spawn.guard, ctx, dand(a.guard, on), what="a thread is started when none is running")
        P.require("flag-set", S.wroot, len(wst) == 1 and wst[0].args[1] is D1 and not wst[0].loops, "the thread does not set the flag once")
        for e in wst[:1]:
            P.holds("flag-set-always", S.wroot, e.guard, ctx, w.guard, what="the thread sets the flag"); wi = w.events.index
            P.require("flag-set-last", S.wroot, all(wi(l) < wi(e) for l in named(w, "lock")), "the thread takes a lock after it has set the flag")
        P.require("no-more-threads", S.wroot, not named(w, "spawn"), "the thread starts threads")
        m = symbol(r"^draw_occupancy_grid::main$", "main"); b = P.use(MM.modular(m, VIZLIB, MM.OBJLIB, opaque=MAIN, rewrite=lists.collect)); fl = named(b, "flag-new")
        P.require("flag-first", m, len(fl) == 1 and fl[0].args[0] is D1, "the flag is not set at first")
    P.guarded("threads", "step", run)
MAIN = [r"^<?kuba::kitti::", r"render_loop::<", r"^std::path::Path::|^<std::path::Path>::", r"^std::env::", r"^<std::env::", r"^k3_"]
@prop("V02", V_HOW + "Rule: the thread turns tracking on before it integrates, then puts the map's log into the shared list and clears the log; the step passes once over the whole list and for each cell keeps its centre under its place in the world if it is occupied, and drops that place otherwise; then the list is empty.", "viz")
def v02(P):
    def run():
        S = Threads(P); a, w, ctx = S.a, S.w, S.ctx; wi = w.events.index
        def single(name, what):
            es = named(w, name); P.require(name + "-once", S.wroot, len(es) == 1 and not es[0].loops, "%s in %d places" % (what, len(es)))
            if len(es) != 1: raise Unproved("%s in %d places" % (what, len(es)))
            P.holds(name + "-always", S.wroot, es[0].guard, ctx, w.guard, what=what); return es[0]
        it, lg, cl = single("integrate", "the scan is integrated"), single("log", "the log is read"), single("log-clear", "the log is cleared"); grid = wrap(it.args[0])
        P.require("order", S.wroot, wi(it) < wi(lg) < wi(cl), "the scan is not integrated, its log read and then cleared, in this order")
        tr = [e for e in named(w, "track") if wi(e) < wi(it)]; P.require("tracking", S.wroot, bool(tr) and tr[-1].args[1] is D1 and tr[-1].guard in (D1, it.guard), "changes are not recorded while the scan is integrated")
        P.require("one-map", S.wroot, all(wrap(e.args[0]) is grid for e in [lg, cl] + tr), "different maps are used")
        # the log is in the shared list at the end
        o = wo = w.state.mem.get(S.wb); L = [k for k, (s, d) in sorted(o.cells.items()) if s == 8 and as_int(d) is leaf(T("part", lg.args[1].term, INT(1)))] if o else []
        P.require("handed", S.wroot, len(L) == 1, "the log is not put into the shared list")
        if len(L) != 1: return
        L = L[0] - 8
        empty = {T("sub", T("init", S.wb), L + 16, 8): ZERO}      # as the step leaves it
        for k in (0, 2): P.equal("handed-%d" % k, S.wroot, subst(as_int(read_obj(o, L + 8 * k, 8)), empty, ("empty", L)), leaf(T("part", lg.args[1].term, INT(k))), ctx, w.guard, what="part %d of the shared list" % k)
        # the step
        vec = lambda k: T("sub", T("init", S.vb), L + 8 * k, 8); N = vec(2); on = named(a, "flag-load"); on = on[0].args[1] if on else D1; run_ = dand(on, a.guard); INT_ATOMS.add(N); ctx.assume(N, ">=", ZERO); ctx.assume(N, "<=", INT((2 ** 63 - 1) // 24))
        oc = named(a, "occupied"); P.require("asked", S.root, len(oc) == 1 and len(oc[0].loops) == 1, "whether a cell is occupied is asked in %d places" % len(oc))
        if len(oc) != 1 or len(oc[0].loops) != 1: return
        oc = oc[0]; sw = Sweep(P, "cells", S.root, a, ctx); li = sw.by[oc.loops[0]]; k = T("it", li.n); INT_ATOMS.add(k)
        vis, rch = sw.range(li.n, N, on); g = wrap(oc.args[0]); P.require("same-map", S.root, S.off(oc.args[0]) is not None and S.off(oc.args[0]) == S.off(it.args[0]), "whether a cell is occupied is asked of another map")
        P.holds("asked-each", S.root, oc.guard, ctx, vis, what="whether a cell is occupied is asked for each cell of the list")
        elem = [T("ldx", T("init", T("ld", vec(1))), lin_add(lin_scale(k, 24), INT(8 * c)), 8) for c in range(3)]
        for c in range(3): P.equal("asked-%d" % c, S.root, oc.args[1 + c], leaf(elem[c]), ctx, vis, what="coordinate %d of the cell asked for" % c)
        b = [leaf(T("bound", INT(c), g)) for c in range(6)]; key = []
        for c in range(3): t = T("cell-of-corner", INT(c), T("resolution", g), *map(wrap, b)); INT_ATOMS.add(t); key.append(iadd(leaf(elem[c]), leaf(t)))
        occ = oc.args[4]; known = None; maps = set()
        for e in named(a, "tracked", "put", "take"):
            maps.add(wrap(e.args[0])); P.require("keyed-%s-pass" % e.name, S.root, e.loops == oc.loops, "cells are kept outside of the pass")
            for c in range(3): P.equal("keyed-%s-%d" % (e.name, c), S.root, e.args[1 + c], key[c], ctx, dand(vis, e.guard), what="coordinate %d of the place of a cell" % c)
        P.require("one-set", S.root, len(maps) == 1, "cells are kept in %d places" % len(maps))
        for name, cond, there in (("put", occ, D1), ("take", dnot(occ), D0)):
            es = named(a, name); tot = D0; what = "an occupied cell is kept" if name == "put" else "a cell that is not occupied is dropped"
            for e in es: tot = dor(tot, e.guard)
            m = {x: leaf(ZERO if name == "put" else ONE) for e in named(a, "tracked") for x in subterms(e.args[4]) if x.op == "tracked"}      # keeping what is kept already changes nothing, neither does dropping what is not
            need = subst(tot, m, ("kept", name, len(m))) if m else tot
            P.holds(name + "-every", S.root, need, ctx, dand(vis, cond), what=what); P.holds(name + "-only", S.root, dor(dnot(tot), dand(vis, cond)), ctx, rch, what=what + ", and no other")
            if name == "put":
                for e in es:
                    for c in range(3): P.equal("centre-%d" % c, S.root, e.args[4 + c], leaf(T("centre", INT(c), g, *elem)), ctx, dand(vis, e.guard), what="coordinate %d of the point kept" % c)
        if as_int(read_obj(wo, L + 16, 8)) is not leaf(T("part", lg.args[1].term, INT(2))):      # what the thread hands over is put behind what is in the list
            o = a.state.mem.get(S.vb); P.equal("emptied", S.root, as_int(read_obj(o, L + 16, 8)) if o else leaf(N), D0, ctx, run_, what="the number of cells in the shared list after a step")
        ix = a.events.index; lk = [e for e in named(a, "lock") if ix(e) < ix(oc)]; ul = [e for e in named(a, "unlock") if ix(e) > ix(oc)]
        P.require("before", S.root, all(ix(e) < ix(S.spawn) for e in [oc] + named(a, "put", "take")), "the next scan is begun before the cells of the last one have been drawn")
    P.guarded("hand-over", "step", run)
class Turn:
    """The scan whose turn it is: its index in the lists of poses and of clouds, as the thread that integrates it is given them."""
    def __init__(self, P, S):
        self.S = S; a, ctx = S.a, S.ctx; es = named(S.w, "integrate"); P.require("integrated", S.wroot, len(es) == 1 and not es[0].loops, "a scan is integrated in %d places" % len(es))
        if len(es) != 1: raise Unproved("a scan is integrated in %d places" % len(es))
        self.e = es[0]; g = lambda d: one(D_(S.given(one(D_(d), "an argument of the integration"))), "what the thread is given")
        self.origin = [g(x) for x in self.e.args[1:4]]; self.cloud = [g(x) for x in self.e.args[4:8]]
        def elem(base, off, size):
            """(the word that holds the list's place, the index) of an element of a list of the viewer."""
            if base.op != "ld" or base.args[0].op != "sub" or base.args[0].args[0] is not T("init", S.self_): raise Unproved("not an element of a list of the viewer", (), show(base, 5))
            return base.args[0]
        t = self.cloud[0]
        if t.op != "copy": raise Unproved("the cloud given to the thread is not a copy of one", (), show(t, 5))
        b, o = ptr_parts(t.args[1]); self.clouds = elem(b, o, 32); x = [y for y in subterms(o) if y.op == "sub" and y.args[0] is T("init", S.self_)]
        if len(x) != 1: raise Unproved("the index of the cloud is not a single number", (), show(o, 5))
        self.X = x = x[0]; INT_ATOMS.add(x); P.require("cloud", S.root, o is lin_scale(x, 32) and all(y is T("copy", INT(k), t.args[1]) for k, y in enumerate(self.cloud)), "the cloud given to the thread is %s" % show(t, 6)[:300])
        p = [y.args[0] for y in subterms(self.origin[0]) if y.op == "ld" and y.args[0].op == "sub" and y.args[0].args[0] is T("init", S.self_)]
        if len(p) != 1: raise Unproved("the origin given to the thread is not part of a pose", (), show(self.origin[0], 6))
        self.poses = p[0]; ln = lambda q: T("sub", T("init", S.self_), q.args[1] + 8, 8)
        self.N = ln(self.clouds); INT_ATOMS.add(self.N); N, M = leaf(self.N), ln(self.poses); INT_ATOMS.add(M)
        ctx.assume(x, ">=", ZERO); ctx.assume(self.N, ">=", ZERO); ctx.assume(self.N, "<=", INT((2 ** 63 - 1) // 32)); ctx.assume(M, ">=", ZERO)
        nx = lin_add(x, ONE); self.next = ite(ilt(leaf(nx), N), leaf(nx), D0); self.ok = ilt(leaf(x), N)
        # as many clouds as poses, and the index below their number
        self.m0 = {M: self.N}; self.m1 = {T("urem", nx, self.N): self.next, T("urem", nx, M): self.next}
        on = named(a, "flag-load"); self.on = on[0].args[1] if on else D1
        self.now = ite(self.on, self.next, leaf(x))
    def v(self, d):
        d = subst(D_(d), self.m1, ("turn1", self.X.id, self.N.id)); return subst(d, self.m0, ("turn0", self.X.id, self.N.id))
def where_from(b, call):
    """The directory below the given one that a call works on."""
    def text(t):
        for x in t.args:
            if isinstance(x, T) and x.op == "&g": g = re.search(r'c"([^"]*)"', b.m.globals.get(x.args[0].args[0], "")); return g.group(1) if g else "?"
        return "?"
    js = sorted({x for x in subterms(call) if x.op == "call" and "::join" in x.args[0]}, key=lambda x: len([y for y in subterms(x) if y.op == "call" and "::join" in y.args[0]]))
    return "/".join(text(x) for x in js)
@prop("V03", V_HOW + "Rule: the thread is given the translation of the pose and a copy of the cloud with the same index, which is the viewer's; a step that starts a thread raises it by one, back to zero after the last, and another leaves it; nothing panics while it is below the number of scans. main makes the clouds by passing once over clouds and poses side by side and moving each cloud by the homogeneous matrix of its pose, reads both from their directories, and begins with the first.", "viz")
def v03(P):
    def step():
        S = Threads(P); Tn = Turn(P, S); a, ctx = S.a, S.ctx; run_ = Tn.ok
        for c in range(3): P.equal("origin-%d" % c, S.root, leaf(Tn.origin[c]), leaf(T("ldx", T("init", T("ld", Tn.poses)), lin_add(lin_scale(Tn.X, 28), INT(16 + 4 * c)), 4)), ctx, run_, what="coordinate %d of the place the scan was taken from" % c)
        o = a.state.mem.get(S.self_); k = Tn.X.args[1]; P.equal("next", S.root, Tn.v(as_int(read_obj(o, k, 8))) if o else leaf(Tn.X), Tn.now, ctx, dand(run_, Tn.v(a.guard)), what="the index of the next scan")
        P.holds("goes-on", S.root, Tn.v(a.guard), ctx, run_, what="a step does not panic while the index is below the number of scans")
        own = {Tn.clouds.args[1] + d for d in (-8, 0, 8)} | {Tn.poses.args[1] + d for d in (-8, 0, 8)}
        P.require("kept", S.root, not o or (o.blob is leaf(T("init", S.self_)) and not [q for q, (s, d) in o.cells.items() if q in own and d is not leaf(T("sub", T("init", S.self_), q, s))]), "the lists of scans are changed by a step")
        P.holds("integrated-always", S.wroot, Tn.e.guard, ctx, S.w.guard, what="the scan is integrated")
    def main():
        S = Threads(P); Tn = Turn(P, S); m = symbol(r"^draw_occupancy_grid::main$", "main"); b = P.use(MM.modular(m, VIZLIB, MM.OBJLIB, opaque=MAIN, rewrite=lists.collect)); ctx = Ctx()
        R = [e for e in b.events if e.kind == "call" and "::render_loop::<" in e.name]; mv = named(b, "cloud-moved"); P.require("shown-once", m, len(R) == 1 and not R[0].loops, "the window is run in %d places" % len(R)); P.require("moved", m, len(mv) == 1 and len(mv[0].loops) == 1, "clouds are moved in %d places" % len(mv))
        if len(R) != 1 or len(mv) != 1 or len(mv[0].loops) != 1: return
        R, mv = R[0], mv[0]; st = [x for x in R.term.args if isinstance(x, T) and x.op == "&"][-1]; word = lambda off: seen(st, off, 8)
        def made(pat):
            es = [e for e in b.events if e.kind == "call" and re.search(pat, e.name)]; P.require("read " + pat, m, len(es) == 1 and not es[0].loops, "%s is used in %d places" % (pat, len(es)))
            if len(es) != 1: raise Unproved("%s is used in %d places" % (pat, len(es)))
            return T("out", es[0].term, 0)
        O, Q = made("oxt_reader::read_from_dir$"), made("point_cloud_reader::read_from_dir$")
        for t, want in ((O, "oxts/data"), (Q, "velodyne_points/data")): P.require("directory " + want, m, where_from(b, t.args[0]) == want, "what lies in %r is read where %r is meant" % (where_from(b, t.args[0]), want))
        pb, cb = Tn.poses.args[1], Tn.clouds.args[1]; sub = lambda t, k: T("sub", t, 8 * k, 8); N, M = sub(O, 2), sub(Q, 2)
        P.require("poses", m, word(pb) is sub(O, 1) and word(pb + 8) is N, "the viewer's poses are not the ones read"); P.require("first", m, word(Tn.X.args[1]) is ZERO, "the viewer begins with scan %s" % show(word(Tn.X.args[1]), 5))
        for t in (N, M): INT_ATOMS.add(t); ctx.assume(t, ">=", ZERO); ctx.assume(t, "<=", INT((2 ** 63 - 1) // 32))
        k = T("it", mv.loops[0]); INT_ATOMS.add(k); sw = Sweep(P, "moved", m, b, ctx); ok = R.guard
        for x in [x for d in [sw.by[k.args[0]].back, mv.guard] + mv.args for x in subterms(d)]:
            if x.op == "ldx" and x.args[1] is lin_scale(k, 32) and x.args[2] == 8: INT_ATOMS.add(x); ctx.assume(x, ">=", ZERO)      # capacities
        L = sw.by[k.args[0]]; vis, rch = sw.range(k.args[0], N, dand(L.entry_guard, ieq(leaf(N), leaf(M)))); P.holds("as-many", m, ieq(leaf(N), leaf(M)), ctx, ok, what="there are as many clouds as poses"); P.holds("moved-each", m, mv.guard, ctx, vis, what="a cloud is moved by each pose")
        src = [sub(Q, 1)]
        for c in range(4):
            d = mv.args[1 + c]; ld_ = [t for t in leaves(restrict(ctx.canon(d), ctx.canon(vis))) if t is not UNDEF]
            P.require("moved-cloud-%d" % c, m, bool(ld_) and all(t.op == "ldx" and t.args[1] is lin_add(lin_scale(k, 32), INT(8 * c)) and T("ld", src[0]) in set(subterms(t.args[0])) for t in ld_), "the cloud that is moved is %s" % show(d, 7)[-300:])
        q = T("init", T("ld", sub(O, 1))); el = lambda o: leaf(T("ldx", q, lin_add(lin_scale(k, 28), INT(o)), 4)); i_, j_, k_, w_ = [el(4 * c) for c in range(4)]; two = leaf(C(2.0)); s2 = lambda p, r: fmul(two, fmul(p, r))
        def diag(s): return fadd(fadd(fmul(w_, w_), fmul(i_, i_) if s == 0 else fun("fneg", fmul(i_, i_))), fadd(fmul(j_, j_) if s == 1 else fun("fneg", fmul(j_, j_)), fmul(k_, k_) if s == 2 else fun("fneg", fmul(k_, k_))))
        F0, F1 = leaf(FZERO), leaf(C(1.0)); rot = [[diag(0), fsub(s2(i_, j_), s2(w_, k_)), fadd(s2(w_, j_), s2(i_, k_))], [fadd(s2(w_, k_), s2(i_, j_)), diag(1), fsub(s2(j_, k_), s2(w_, i_))], [fsub(s2(i_, k_), s2(w_, j_)), fadd(s2(w_, i_), s2(j_, k_)), diag(2)]]
        for r in range(4):
            for c in range(4):
                want = (F1 if c == 3 else F0) if r == 3 else el(16 + 4 * r) if c == 3 else rot[r][c]
                P.equal("matrix-%d%d" % (r, c), m, mv.args[5 + 4 * c + r], want, ctx, vis, what="entry %d,%d of the matrix a cloud is moved by" % (r, c))
        # the moved clouds are the viewer's, in the same order
        w = word(cb); ln = word(cb + 8); mov = [T("moved", INT(c), n, (k,)) for n in {x.args[1] for e in b.events for d in ([e.term] if isinstance(e.term, D) else []) + [y for y in e.args if isinstance(y, D)] for x in subterms(d) if x.op == "moved"} for c in range(4)]
        def whole(d): return len(mov) == 4 and all(t is UNDEF or all(t_extract(t, 8 * c, 8) is mov[c] for c in range(4)) for t in leaves(restrict(ctx.canon(D_(d)), ctx.canon(vis))))
        if w is sub(Q, 1): es = [e for e in b.events if e.kind == "store" and e.loops == mv.loops and e.term is not None and one(e.args[0]) is mk_ptr(T("ld", w), lin_scale(k, 32)) and e.args[2] is leaf(INT(32))]; good = [e for e in es if whole(e.term)]
        else: es = [e for e in named(b, "list-push") if e.args[0] is leaf(w) and e.loops == mv.loops]; good = [e for e in es if whole(e.args[1])]
        P.require("kept-clouds", m, len(es) == 1 and len(good) == 1, "the moved clouds do not become the viewer's, in their order")
        for e in good: P.holds("kept-each", m, e.guard, ctx, vis, what="a moved cloud is put into the viewer's list")
        P.equal("kept-number", m, subst(leaf(ln), {k: N if vis is not rch else lin_add(N, INT(-1))}, ("end", vis is not rch, k.id, N.id)), leaf(N), ctx, dand(ok, ilt(D0, leaf(N))), what="the number of the viewer's clouds")
    P.guarded("main", "main", main)
    P.guarded("turns", "step", step)
@prop("V04", V_HOW + "Rule: a step passes once over everything kept and draws a point at each; it draws exactly three lines, from the translation of the pose of the next scan to this plus the rotated axis, in the colour of the axis.", "viz")
def v04(P):
    def run():
        S = Threads(P); Tn = Turn(P, S); a, ctx = S.a, S.ctx; sw = Sweep(P, "points", S.root, a, ctx); sw.m = {}; ok = Tn.ok
        pts = named(a, "point"); el = named(a, "elements"); P.require("points", S.root, len(pts) == 1 and len(pts[0].loops) == 1, "points are drawn in %d places" % len(pts))
        if len(pts) != 1 or len(pts[0].loops) != 1: return
        e = pts[0]; li = sw.by[e.loops[0]]; E_ = [x.args[1].term for x in el if T("size", x.args[1].term) in set(subterms(li.back)) or T("size", x.args[1].term) in set(subterms(e.guard))]
        P.require("points-of", S.root, len(E_) == 1, "what the points are drawn for is unknown")
        if len(E_) != 1: return
        E_ = E_[0]; kept = {wrap(x.args[0]) for x in named(a, "put", "take")}; P.require("points-kept", S.root, kept == {E_.args[1]}, "points are drawn for something else than what is kept")
        N = T("size", E_); ctx.assume(N, ">=", ZERO); ctx.assume(N, "<=", INT((2 ** 63 - 1) // 64)); k = T("it", li.n); INT_ATOMS.add(k)
        sw.v = Tn.v
        vis, rch = sw.range(li.n, N, ok); P.holds("points-each", S.root, sw.v(e.guard), ctx, vis, what="a point is drawn for everything kept")
        at = lin_scale(k, 64)
        for c in range(3): P.equal("point-%d" % c, S.root, sw.v(e.args[1 + c]), leaf(T("ldx", T("init", T("value", E_)), lin_add(at, INT(4 * c)), 4)), ctx, vis, what="coordinate %d of the point drawn" % c)
        ix = a.events.index; P.require("points-last", S.root, all(ix(x) < ix(e) for x in named(a, "put", "take")), "points are drawn before the cells have been handed over")
        # the axes of the pose of the next scan
        ls = named(a, "line"); P.require("lines", S.root, len(ls) == 3 and not any(x.loops for x in ls), "%d lines are drawn" % len(ls))
        if len(ls) != 3 or any(x.loops for x in ls): return
        x = Tn.X; q = T("init", T("ld", Tn.poses)); i = lambda z, off: leaf(T("sub", q, off, 4) if z is ZERO else T("ldx", q, lin_add(lin_scale(z, 28), INT(off)), 4))
        o = a.state.mem.get(S.self_); now = Tn.v(as_int(read_obj(o, x.args[1], 8))) if o else leaf(x); pose = lambda off: lift1(lambda z: i(z, off), now); ct = [pose(16 + 4 * c) for c in range(3)]; rot = [pose(4 * c) for c in range(4)]; v_, w_ = rot[:3], rot[3]; two = leaf(C(2.0))
        def cross(p, r): return [fsub(fmul(p[(c + 1) % 3], r[(c + 2) % 3]), fmul(p[(c + 2) % 3], r[(c + 1) % 3])) for c in range(3)]
        found = set()
        for j, l in enumerate(ls):
            col = [D_(y) for y in l.args[7:10]]; ax = [c for c in range(3) if all(col[d] is leaf(C(1.0 if c == d else 0.0)) for d in range(3))]
            P.require("line-colour-%d" % j, S.root, len(ax) == 1 and ax[0] not in found, "a line is drawn in the colour %s" % [show(y, 4) for y in col])
            if len(ax) != 1: continue
            found.add(ax[0]); u = [leaf(C(1.0 if c == ax[0] else 0.0)) for c in range(3)]; t = [fmul(two, y) for y in cross(v_, u)]; t2 = cross(v_, t); g = dand(ok, Tn.v(l.guard))
            P.holds("line-drawn-%d" % j, S.root, Tn.v(l.guard), ctx, ok, what="an axis is drawn")
            for c in range(3):
                P.equal("line-from-%d-%d" % (ax[0], c), S.root, Tn.v(l.args[1 + c]), ct[c], ctx, g, what="coordinate %d of the start of the %s axis" % (c, AX[ax[0]]))
                P.equal("line-to-%d-%d" % (ax[0], c), S.root, Tn.v(l.args[4 + c]), fadd(ct[c], fadd(u[c], fadd(fmul(w_, t[c]), t2[c]))), ctx, g, what="coordinate %d of the end of the %s axis" % (c, AX[ax[0]]))
    P.guarded("drawing", "step", run)
