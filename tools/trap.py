"""trap.py [seed...]: applies each planted bug to a copy of /repo and runs its property's check on it; prints caught / MISSED."""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); S = os.path.join(HERE, "..", "seeded")
args = [a for a in sys.argv[1:] if a != "--all"]
W = "/tmp/trapwork"
if os.path.isdir(W): shutil.rmtree(W)
subprocess.check_call(["cp", "-a", "/repo", W])
ids = args or sorted(os.listdir(S))
for i in ids:
    d = os.path.join(S, i); m = json.load(open(os.path.join(d, "meta.json"))); p = m["property"]
    subprocess.check_call(["git", "-C", W, "checkout", "--", "."]); subprocess.check_call(["git", "-C", W, "apply", os.path.join(d, "patch.diff")])
    r = subprocess.run([sys.executable, "check.py", "ALL" if "--all" in sys.argv else p], cwd=os.path.join(HERE, ".."), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, KUBA_REPO=W))
    v = [l.split("property=")[1].split()[0] for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    w = [l for l in r.stdout.split("\n") if l.startswith("  ")]
    print("%-22s %s %s | %s" % (i, "caught" if p in v else "MISSED", ",".join(v), w[0].strip()[:230] if w else r.stdout[-200:]), flush=True)
shutil.rmtree(W)
