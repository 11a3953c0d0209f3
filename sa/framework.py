"""Obligations, reports and evidence of one property."""
import json, os, re, sys, time, traceback
from kuba import *
VERIF = EX.VERIF

PROPS = {}
def prop(pid, rule, needs_ir="roots"):
    def d(f): PROPS[pid] = (f, rule, needs_ir); return f
    return d

class Prop:
    def __init__(self, pid, tier):
        self.id, self.tier = pid, tier
        self.obs = []; self.notes = []; self.roots = set(); self.stats = {}
        self.paths = 0; self.queries = 0; self.analyses = set(); self.sites = []
    def count(self, k, n=1): self.stats[k] = self.stats.get(k, 0) + n
    def use(self, a):
        self.roots.add(a.rootname); self.analyses.add(id(a))
        if id(a) not in self.stats.setdefault("_seen", set()):
            self.stats["_seen"].add(id(a))
            self.count("ir_blocks", a.stats["blocks"]); self.count("ir_instructions", a.stats["instrs"]); self.count("call_sites", a.stats["calls"])
            self.count("loops_summarised", len(a.loops))
        return a
    # ------------------------------------------------------------- outcomes
    def ok(self, key, detail=""): self.obs.append((key, True, "", detail))
    def bad(self, key, site, detail): self.obs.append((key, False, site, detail))
    def site(self, root):
        """The function of /repo an entry point stands for."""
        try:
            g = graph.graph(); out = []
            def show1(c):
                w = g.where(c); f = w[0] if w else "?"
                return "%s at %s:%d" % (g.dem.get(c, c), graph.short(f), w[1] if w else 0)
            if root.startswith("_R"): return show1("@" + root)
            out = [show1(c) for c in sorted(g.calls.get("@" + root, ())) if g.is_kuba(c)]
            return "; ".join(out) or root
        except Exception: return root
    def guarded(self, key, root, f):
        """Runs f; anything that keeps it from reaching a verdict is reported as not established."""
        try: f(); return True
        except Unproved as e: self.bad(key, self.site(root), "not established: %s %s %s" % (e.what, show_path(e.path), e.detail))
        except EX.BuildError: raise
        except (Unsupported, TooComplex, EX.Missing, KeyError, SyntaxError, RecursionError, AttributeError, IndexError, TypeError, ValueError, AssertionError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.bad(key, self.site(root), "not established: %s: %s (%s:%d)" % (type(e).__name__, str(e)[:400], os.path.basename(tb.filename), tb.lineno))
        return False
    # ------------------------------------------------------------- independent parts
    def parallel(self, items, fn, workers=7):
        """fn(item) for every item, each in a process of its own; what they find is put together in order."""
        import pickle
        items = list(items); res = {}; running = {}; n0 = len(self.obs); pend = list(range(len(items)))
        if os.environ.get("SA_SERIAL"):
            for x in items: fn(x)
            return
        import select
        while pend or running:
            while pend and len(running) < workers:
                k = pend.pop(0); r, w = os.pipe(); pid = os.fork()
                if pid == 0:
                    os.close(r); p0, q0 = self.paths, self.queries
                    try: self.guarded("part-%d" % k, "?", lambda: fn(items[k])); out = (self.obs[n0:], self.paths - p0, self.queries - q0)
                    except BaseException as e: out = ([("part-%d" % k, False, "?", "not established: %r" % (e,))], 0, 0)
                    with os.fdopen(w, "wb") as f: f.write(pickle.dumps(out))
                    os._exit(0)
                os.close(w); running[r] = (pid, k, [])
            for r in select.select(list(running), [], [])[0]:
                b = os.read(r, 1 << 16)
                if b: running[r][2].append(b); continue
                pid, k, bs = running.pop(r); os.close(r); os.waitpid(pid, 0)
                try: res[k] = pickle.loads(b"".join(bs))
                except Exception: res[k] = ([("part-%d" % k, False, "?", "not established: this part of the analysis did not finish")], 0, 0)
        for k in sorted(res):
            o, p, q = res[k]; self.obs += o; self.paths += p; self.queries += q
    # ------------------------------------------------------------- obligations
    def equal(self, key, root, code, spec, ctx, guard=D1, what=None):
        """code == spec in every consistent case in which guard holds (of several guards: the last one; the others are stronger claims to try first)."""
        guards = guard if isinstance(guard, tuple) else (guard,)
        def run():
            for g in guards[:-1]:
                if attempt(g) is None: self.ok(key); return
            r = attempt(guards[-1])
            if r is None: self.ok(key); return
            path, c, s = r
            if os.environ.get("SA_PATHS"): print("PATH", key, show(c, 4)[:200], "|", show(s, 4)[:200], "|", show_path(path)[:int(os.environ["SA_PATHS"])])
            self.bad(key, self.site(root), "%s is %s where %s is required%s" % (what or key, show(c, 7), show(s, 7), " when " + show_path(path) if path else ""))
        def attempt(guard):
            cg, cc, cs = ctx.canon(guard), ctx.canon(code), ctx.canon(spec)
            if cc is cs or cg is D0 or restrict(cc, cg) is restrict(cs, cg): self.paths += nodes(cc); return None
            fails = []
            p0, q0 = ctx.paths, ctx.queries
            def f(facts, path, ts):
                if ts[0] is ZERO or fails: return
                c, s = ts[1], ts[2]
                if c is s or (c is not UNDEF and ctx.same(facts, c, s)): return
                fails.append((path, c, s))
            ctx.each([guard, code, spec], f, stop=lambda ds: ds[0] is D0 or ds[1] is ds[2] or fails)
            self.paths += ctx.paths - p0; self.queries += ctx.queries - q0
            return fails[0] if fails else None
        self.guarded(key, root, run)
    def holds(self, key, root, cond, ctx, guard=D1, what=None):
        """cond is true in every consistent case in which guard holds (of several guards: the last one; the others are stronger claims to try first)."""
        guards = guard if isinstance(guard, tuple) else (guard,)
        def run():
            for g in guards:
                p0, q0 = ctx.paths, ctx.queries
                bad = ctx.holds(dor(dnot(g), cond), [])
                self.paths += ctx.paths - p0; self.queries += ctx.queries - q0
                if bad is None: break
            if bad is None: self.ok(key)
            else: self.bad(key, self.site(root), "%s fails%s" % (what or key, " when " + show_path(bad) if bad else " always"))
        self.guarded(key, root, run)
    def same_cond(self, key, root, code, spec, ctx, what=None):
        """Two conditions agree in every consistent case."""
        self.holds(key, root, dor(dand(code, spec), dand(dnot(code), dnot(spec))), ctx, what=what)
    def returns(self, key, root, a, ctx, pre=D1):
        self.holds(key, root, a.guard, ctx, pre, what="%s returns normally" % self.fn(root))
    def fn(self, root):
        s = self.site(root); return s.split(" at ")[0]
    def require(self, key, root, cond, detail):
        if cond: self.ok(key)
        else: self.bad(key, self.site(root), detail)
    def untouched(self, key, root, a, args):
        for x in args:
            ch = changed_bytes(a, x)
            self.require("%s-%s-unchanged" % (key, x), root, not ch, "argument %s is written to at %s" % (x, ch))

def nodes(d):
    """Distinct cases of a diagram."""
    seen = set(); st = [d]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.var is not None: st += x.kids
    return len(seen)
def known(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3).strip()))
    return out

def run(pid, tier, seed):
    t0 = time.time()
    f, rule, EX.KIND = PROPS[pid]
    P = Prop(pid, tier)
    try: f(P)
    except EX.BuildError: raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        P.bad("analysis", "?", "not established: %s: %s (%s:%d)" % (type(e).__name__, str(e)[:400], os.path.basename(tb.filename), tb.lineno))
        if os.environ.get("SA_DEBUG"): traceback.print_exc()
    if not P.obs: P.bad("obligations", "?", "nothing was analysed")
    fails = [o for o in P.obs if not o[1]]
    kf = {k: t for k, t in known(pid)}
    listed = [o for o in fails if o[0] in kf]; new = [o for o in fails if o[0] not in kf]
    g = graph.graph() if P.roots else None
    fns = sorted(set(g.kuba_functions(sorted(P.roots)))) if g else []
    st = {k: v for k, v in P.stats.items() if not k.startswith("_")}
    cov = {"explanation": rule, "obligations": len(P.obs), "discharged": len(P.obs) - len(fails),
           "entry_points": sorted(P.roots), "functions_analysed": ["%s (%s)" % x for x in fns][:200], "functions_analysed_count": len(fns),
           "cases_examined": P.paths, "feasibility_questions": P.queries, "sites": P.sites[:200], "notes": P.notes,
           "obligation_keys": [o[0] for o in P.obs][:400]}
    cov.update(st)
    if new: cov["violations"] = ["%s: %s: %s" % (o[0], o[2], o[3]) for o in new]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(VERIF, "evidence", "reports"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fo: json.dump(ev, fo, indent=1)
    for o in listed: print("KNOWN-FINDING: property=%s %s (%s)" % (pid, kf[o[0]], o[0]))
    rp = os.path.join(VERIF, "evidence", "reports", pid + ".txt")
    if new:
        with open(rp, "w") as fo:
            fo.write("property %s\n" % pid)
            for o in new: fo.write("\nobligation: %s\nconstruct:  %s\nproblem:    %s\n" % (o[0], o[2], o[3]))
        for o in new[:6]: print("  %s: %s: %s" % (o[0], o[2][:300], o[3][:900]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if os.path.exists(rp): os.unlink(rp)
    print("%s: %d obligations hold (%d functions, %d cases, %.1fs)" % (pid, len(P.obs), len(fns), P.paths, time.time() - t0))
    return 0
