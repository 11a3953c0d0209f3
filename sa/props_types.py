"""Compile-time witnesses: a crate whose items type-check exactly when the crate's public names denote the types they announce."""
import glob, json, os, re, shutil, subprocess
from framework import prop
import extract as EX

ALIAS = re.compile(r"^\s*pub\s+type\s+([A-Za-z_][A-Za-z0-9_]*)\s*(<[^=>]*>)?\s*=", re.M)
ELEM = {"f": "f32", "i": "i32", "b": "bool"}
PRELUDE = """#![allow(dead_code, unused_imports)]
extern crate nalgebra as na;
extern crate ndarray as nd;
"""
def known():
    """alias -> (type it is used with, the type it announces, what it announces)"""
    k = {}
    for d in "23":
        U, Ix = "na::U" + d, "nd::Ix" + d; g = "kuba::map::grid_map::GridMapN<%s, " + U + ", " + Ix + ">"
        k["GridMap" + d] = ("<u8>", g % "u8", "a %s-dimensional map of its parameter" % d)
        for c, e in ELEM.items(): k["GridMap" + d + c] = ("", g % e, "a %s-dimensional map of %s" % (d, e))
        k["LidarOccupancyGridMap" + d] = ("", "kuba::map::OccupancyGridMapN<kuba::map::LidarNoiseModel, %s, %s>" % (U, Ix), "a %s-dimensional occupancy map with the lidar noise model" % d)
        k["Pose" + d] = ("", "na::Isometry%s<f32>" % d, "a single-precision isometry of %s dimensions" % d)
        k["Vector" + d] = ("", "na::VectorN<f32, %s>" % U, "a vector of %s single-precision floats" % d)
        k["Point" + d] = ("", "na::Point<f32, %s>" % U, "a point of %s single-precision floats" % d)
        k["Cell" + d] = ("", "na::Point<isize, %s>" % U, "a point of %s signed integers" % d)
        for b in ("Bounds", "CellBounds", "PointCloud"): k[b + d] = ("", "kuba::%s<%s>" % (b, U), "%s-dimensional" % d)
    return k

def aliases():
    """The public type aliases written in the crate: name -> (has parameters, place)."""
    out = {}
    for f in sorted(glob.glob(os.path.join(EX.REPO, "src", "**", "*.rs"), recursive=True)):
        s = re.sub(r"//[^\n]*|/\*.*?\*/", lambda m: " " * len(m.group(0)) if "\n" not in m.group(0) else re.sub(r"[^\n]", " ", m.group(0)), open(f).read(), flags=re.S)
        for m in ALIAS.finditer(s): out[m.group(1)] = (m.group(2), "%s:%d" % (os.path.relpath(f, EX.REPO), s[:m.start(1)].count("\n") + 1))
    return out

def witnesses():
    """(key, alias, item, what it shows)"""
    w = []; conv = "let f: fn(kuba::%s) -> %s = |x| x; drop(f);"
    for a, (par, ty, what) in sorted(known().items()): w.append((a, a, conv % (a + par, ty), what))
    for d in "23":
        U = "<na::U%s>" % d
        for a, t in (("Cell", "isize"), ("Point", "f32")): w.append(("%s-U%s" % (a, d), a, conv % (a + U, "na::Point<%s, na::U%s>" % (t, d)), "made of %s %s" % (d, t)))
        w.append(("Vector-U" + d, "Vector", conv % ("Vector" + U, "na::VectorN<f32, na::U%s>" % d), "made of %s f32" % d))
        for b, c in (("Bounds", "na::Point<f32, na::U%s>"), ("CellBounds", "na::Point<isize, na::U%s>")):
            c = c % d; w.append(("%s-U%s-corners" % (b, d), b, "let f: fn(kuba::%s%s) -> (%s, %s) = |b| (b.min, b.max); drop(f);" % (b, U, c, c), "made of two corners %s" % c))
        w.append(("PointCloud-U%s-coordinates" % d, "PointCloud", "let f: fn(kuba::PointCloud%s) -> na::MatrixMN<f32, na::U%s, na::Dynamic> = |c| c.data; drop(f);" % (U, d), "made of columns of %s f32" % d))
    return w

def build_witnesses(w):
    """Type-checks one function per witness; returns {witness key: [(error code, message)]}."""
    d = os.path.join(EX.TARGET, "witness"); os.makedirs(os.path.join(d, "src"), exist_ok=True)
    h = os.path.join(EX.VERIF, "harness")
    t = open(os.path.join(h, "Cargo.toml")).read().replace('name = "roots"', 'name = "witness"').replace('"/repo"', '"%s"' % EX.REPO)
    open(os.path.join(d, "Cargo.toml"), "w").write(t)
    open(os.path.join(d, "Cargo.lock"), "w").write(open(os.path.join(h, "Cargo.lock")).read().replace('name = "roots"', 'name = "witness"'))
    src = PRELUDE.split("\n"); line = {}
    for i, (key, a, item, what) in enumerate(w): src.append("pub fn w%d() { %s }" % (i, item)); line[len(src)] = key
    open(os.path.join(d, "src", "lib.rs"), "w").write("\n".join(src) + "\n")
    env = dict(os.environ, CARGO_TERM_COLOR="never", RUSTFLAGS="--cap-lints allow"); env.pop("CARGO_TARGET_DIR", None)
    for c in ("kuba", "witness"):       # always compiled anew
        for x in glob.glob(os.path.join(d, "target", "debug", "*", "%s-*" % c)) + glob.glob(os.path.join(d, "target", "debug", ".fingerprint", "%s-*" % c)): shutil.rmtree(x) if os.path.isdir(x) else os.unlink(x)
    p = subprocess.run(["cargo", "+stable", "check", "--offline", "--message-format=json", "--target-dir", os.path.join(d, "target")], cwd=d, env=env, capture_output=True, text=True)
    errs = {}; other = []; seen_lib = p.returncode == 0
    for l in p.stdout.split("\n"):
        if not l.startswith("{"): continue
        m = json.loads(l)
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error": continue
        msg = m["message"]
        if m["target"]["name"] != "witness": other.append(msg["rendered"]); continue
        sp = [s for s in msg["spans"] if s["is_primary"]] or msg["spans"]; code = (msg.get("code") or {}).get("code", "")
        if sp and sp[0]["line_start"] in line: errs.setdefault(line[sp[0]["line_start"]], []).append((code, msg["message"])); seen_lib = True
        elif sp: other.append(msg["rendered"])
    if other or not (seen_lib or p.returncode == 0): raise EX.BuildError("the witness crate could not be checked: %s" % ("\n".join(other) or p.stderr)[-3000:])
    return errs

@prop("M08", "Compile-fail witnesses: a generated crate with one item per public type name, which type-checks only if the name denotes the type it announces (dimension of the space and of the storage, element type); checked by rustc's type checker against the current sources. Rule: every witness type-checks.", False)
def m08(P):
    al = aliases(); w = witnesses(); errs = build_witnesses(w); P.count("aliases_found", len(al)); P.count("witnesses", len(w)); done = {a for _, a, _, _ in w}
    for key, a, item, what in w:
        site = "type kuba::%s%s" % (a, " at " + al[a][1] if a in al else ""); e = errs.get(key, []); P.sites.append("%s: %s" % (site, item))
        if not e: P.ok(key)
        else: P.bad(key, site, "%s is not %s: %s" % (a, what, e[0][1]))
    for a in sorted(set(al) - done): P.notes.append("type alias %s at %s announces nothing the rule covers" % (a, al[a][1]))
