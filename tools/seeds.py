"""seeds.py [ID...]: builds planted bugs (seeded/<id>) from the table in seedlist.py and confirms each one in a scratch copy of /repo:
it applies, builds, passes the stable tests, and its demonstration passes without it and fails with it."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); SEEDED = os.path.join(HERE, "..", "seeded")
sys.path.insert(0, HERE)
import seedlist
def sh(c, cwd, **kw): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def main():
    want = sys.argv[1:]
    W = "/tmp/seedwork"; 
    if os.path.isdir(W): shutil.rmtree(W)
    subprocess.check_call(["cp", "-a", "/repo", W])
    for sid, prop, needs, breaks, edits, demo in seedlist.SEEDS:
        if want and sid not in want: continue
        if not want and os.path.isdir(os.path.join(SEEDED, sid)): continue
        sh("git checkout -- .", W); bad = None
        tmp = tempfile.mkdtemp(prefix="seed.")
        if demo.startswith("VIEWER"):
            shutil.rmtree(tmp); shutil.copytree(os.path.join(HERE, "vizdemo"), tmp); open(os.path.join(tmp, "run.py"), "w").write("import math, sys\nimport viewer\n" + demo[6:].strip() + "\n")
        else:
            open(os.path.join(tmp, "main.rs"), "w").write("#![allow(unused_imports, unused_mut)]\nuse kuba::prelude::*;\nuse nalgebra as na;\n" + demo.strip() + "\n")
            shutil.copy(os.path.join(HERE, "demo.sh"), tmp)
        r = sh("bash %s/demo.sh" % tmp, W)
        if r.returncode: bad = "demo fails on the unchanged tree: " + r.stdout[-1500:]
        for f, a, b in edits:
            if bad: break
            p = os.path.join(W, f); s = open(p).read()
            if s.count(a) < 1: bad = "text not found: " + a; break
            k = s.index(a); open(p, "w").write(s[:k] + b + s[k + len(a):])
        if not bad:
            diff = sh("git diff", W).stdout; open(os.path.join(tmp, "patch.diff"), "w").write(diff)
            r = sh("cargo test --workspace --offline -- --test-threads 8 2>&1 | tail -60", W)
            if "test result: ok. 62 passed" not in r.stdout: bad = "tests: " + r.stdout[-1500:]
        if not bad:
            r = sh("bash %s/demo.sh" % tmp, W)
            if r.returncode in (0, 8, 9): bad = "demo ends with %d with the change: %s" % (r.returncode, r.stdout[-1500:])
        if bad: print(sid, "REJECTED", bad)
        else:
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(tmp, "meta.json"), "w"), indent=1)
            d = os.path.join(SEEDED, sid)
            if os.path.isdir(d): shutil.rmtree(d)
            shutil.copytree(tmp, d); print(sid, "kept")
        shutil.rmtree(tmp)
    shutil.rmtree(W)
main()
