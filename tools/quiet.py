"""quiet.py [NAME...] [-p ID,ID]: applies each behaviour-preserving edit of quietlist.py to a copy of /repo, confirms that the stable tests
pass and runs the checks on it; prints the checks that raise an alarm."""
import os, re, subprocess, sys, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import quietlist
def sh(c, cwd): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
args = sys.argv[1:]; props = None
if "-p" in args: i = args.index("-p"); props = args[i + 1].split(","); del args[i:i + 2]
W = "/tmp/quietwork"
if os.path.isdir(W): shutil.rmtree(W)
subprocess.check_call(["cp", "-a", "/repo", W])
def apply(root, edits):
    for f, a, b in edits:
        p = os.path.join(root, f); s = open(p).read()
        if a not in s: return "text not found in %s: %s" % (f, a[:60])
        open(p, "w").write(s.replace(a, b))
for name, near, edits in quietlist.Q:
    if args and name not in args: continue
    sh("git checkout -- .", W); bad = apply(W, edits)
    if not bad:
        r = sh("cargo test --workspace --offline -- --test-threads 8 2>&1 | grep -E -A4 '^error|test result: F|test result: ok. 62' | head -12", W)
        if "test result: ok. 62 passed" not in r.stdout: bad = "tests: " + r.stdout[-900:]
    if bad: print(name, "INVALID", bad); continue
    r = sh("KUBA_REPO=%s %s check.py %s" % (W, sys.executable, " ".join(props or near or ["ALL"])), os.path.join(HERE, ".."))
    v = [l.split("property=")[1].split()[0] for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    print("%-24s %s" % (name, "quiet" if not v and r.returncode == 0 else "ALARM %s rc=%d" % (",".join(v), r.returncode)), flush=True)
    if r.returncode:
        for l in [l for l in r.stdout.split("\n") if l.startswith("  ")][:3] or [r.stdout[-300:]]: print("     ", re.sub(r"(: )?<?kuba::[^:]*(::[^ ]*)* at ", " at ", l.strip())[:int(os.environ.get("W", "200"))])
