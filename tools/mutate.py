"""mutate.py [FILE...]: small changes to /repo's source, one at a time in scratch copies: which survive the tests, and which of these no check reports."""
import os, re, subprocess, sys, shutil, queue, threading
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(HERE, ".."); W = "/tmp/mut"
FILES = sys.argv[1:] or sorted(subprocess.check_output("git ls-files src viz/src", shell=True, cwd="/repo", text=True).split())
NEAR = {"ray_caster": "R01 R02 R03 R04 R05", "converter": "G01 G02 G08", "lidar_noise": "N01 N02 N03 N04 N05 N06", "/grid_map": "M01 M02 M03 M04 M05 M06 M07", "occupancy_grid_map.rs": "M02 M09 N06 M08", "kitti": "K01 K02 K03 K04 K05 K06 K07",
        "math": "S01 S02", "vector": "S02", "point_cloud.rs": "G09 G10 G11", "/bounds": "G03 G04 G05 G06 G08 G12 G13", "cell_bounds": "G03 G07 G08 G13", "viz": "V01 V02 V03 V04", "cell.rs": "M01 G13"}
def near(f):
    """The properties to check first; all of them with FULL=1."""
    for k, v in NEAR.items():
        if k in f and not (k == "point_cloud.rs" and "kitti" in f) and not (k == "occupancy_grid_map.rs" and "viz" in f): return v if not os.environ.get("FULL") else "ALL"
    return "ALL"
RULES = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" < ", " > "), (r" > ", " < "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r" -= ", " += "),
         (r" && ", " || "), (r" \|\| ", " && "), (r"\.min\b", ".max"), (r"\.max\b", ".min"), (r"\bfloor\b", "ceil"), (r"\bceil\b", "floor"), (r"\bround\b", "floor"), (r"\bround\b", "trunc"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.abs\(\)", ""),
         (r"(?<![\w.])0\.5\b", "0.25"), (r"(?<![\w.])1\.0\b", "1.5"), (r"(?<![\w.])0\.0\b", "1.0"), (r"(?<![\w.\[])0(?![\w.])", "1"), (r"(?<![\w.\[])1(?![\w.])", "2"), (r"(?<![\w.\[])1(?![\w.])", "0"), (r"\[i\]", "[0]"), (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"\[2\]", "[1]"), (r"\[dim\]", "[0]"),
         (r"\bif !", "if "), (r"\bif (?!let|!)", "if !"), (r"\.sort\(\);", ";"), (r"\.rev\(\)", ""), (r"as isize\b", "as i32 as isize"), (r"\.clone\(\)", ".clone()"), (r"hit", "miss"), (r"miss", "hit"), (r"\borigin\b", "end"), (r"\bsize\b", "tile_size"), (r"\.iter\(\)", ".iter().skip(1)"), (r"\.iter\(\)", ".iter().take(1000)"), (r"(\w+)\.dot\(", r"\1.dot("), (r"\breturn;", "")]
def mutants():
    for f in FILES:
        s = open("/repo/" + f).read(); k = s.find("#[cfg(test)]"); body = s[:k] if k >= 0 else s; pos = 0
        for line in body.split("\n"):
            t = line.strip()
            if t and not t.startswith(("//", "use ", "pub use", "#", "pub mod", "mod ", "extern ")):
                for a, b in RULES:
                    for m in re.finditer(a, line):
                        n = line[:m.start()] + m.expand(b) + line[m.end():]
                        if n != line: yield f, pos, line, n
                if t.endswith(";") and not t.startswith(("let ", "type ", "const ", "return ", "pub ", "fn ", "struct ")) and "=>" not in t: yield f, pos, line, re.match(r"\s*", line).group(0) + "// removed"
            pos += len(line) + 1
def sh(c, cwd, t): 
    try: return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired: return None
Q = queue.Queue(); S = queue.Queue(); lock = threading.Lock(); LOG = open(os.path.join(W, "log"), "a")
done = set(l.split("\t")[1] for l in open(os.path.join(W, "log")) if l.count("\t") > 1)
def say(kind, f, pos, old, new, extra=""):
    with lock:
        n = open("/repo/" + f).read()[:pos].count("\n") + 1; LOG.write("%s\t%s:%d:%s\t%s\t%s\n" % (kind, f, n, new.strip(), old.strip(), extra)); LOG.flush()
def first(k):
    w = os.path.join(W, "a%d" % k)
    if not os.path.isdir(w): subprocess.check_call(["cp", "-a", "/repo", w])
    while True:
        m = Q.get()
        if m is None: return
        f, pos, old, new = m; s = open("/repo/" + f).read(); open(os.path.join(w, f), "w").write(s[:pos] + new + s[pos + len(old):])
        if f.startswith("viz"): S.put(m)
        else:
            r = sh("ulimit -v 6000000; (cargo build --tests --workspace --offline && timeout -k 1 20 cargo test --workspace --offline -- --test-threads 4) 2>&1 | tail -60", w, 300)
            if r and "test result: ok. 62 passed" in r.stdout: S.put(m)
        open(os.path.join(w, f), "w").write(s)
def second(k):
    w = os.path.join(W, "b%d" % k)
    if not os.path.isdir(w): subprocess.check_call(["cp", "-a", "/repo", w])
    while True:
        m = S.get()
        if m is None: return
        f, pos, old, new = m; s = open("/repo/" + f).read(); open(os.path.join(w, f), "w").write(s[:pos] + new + s[pos + len(old):])
        r = sh("KUBA_REPO=%s python3 check.py %s" % (w, near(f)), V, 900); o = r.stdout if r else ""
        v = sorted(set(re.findall(r"VIOLATION property=(\w+)", o)))
        say("caught" if v else "build" if "error" in o.lower() and "obligations" not in o else "SURVIVED", *m, " ".join(v) or o[-200:].replace("\n", " | ") if not v else " ".join(v))
        open(os.path.join(w, f), "w").write(s)
ms = []
for m in mutants():
    n = open("/repo/" + m[0]).read()[:m[1]].count("\n") + 1
    if "%s:%d:%s" % (m[0], n, m[3].strip()) not in done and m not in ms: ms.append(m)
print(len(ms), "mutants", flush=True)
A, B = int(os.environ.get("MA", "3")), int(os.environ.get("MB", "2"))
ta = [threading.Thread(target=first, args=(k,)) for k in range(A)]; tb = [threading.Thread(target=second, args=(k,)) for k in range(B)]
for t in ta + tb: t.start()
for m in ms: Q.put(m)
for t in ta: Q.put(None)
for t in ta: t.join()
for t in tb: S.put(None)
for t in tb: t.join()
