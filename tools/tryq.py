"""tryq.py NAME [ID...]: applies one edit of quietlist.py to a scratch copy and runs checks on it (again: KUBA_REPO=/tmp/trywork SA_CACHED=1 python3 check.py ID)."""
import subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); import quietlist
W = "/tmp/trywork"
if not os.path.isdir(W): subprocess.check_call(["cp", "-a", "/repo", W])
subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
for n, _, ed in quietlist.Q:
    if n == sys.argv[1]:
        for f, a, b in ed: p = W + "/" + f; s = open(p).read(); assert a in s; open(p, "w").write(s.replace(a, b))
subprocess.call([sys.executable, "check.py"] + (sys.argv[2:] or ["S02"]), env=dict(os.environ, KUBA_REPO=W))
