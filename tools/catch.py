"""catch.py [ID...]: applies each planted bug to a copy of /repo and prints which checks alarm (a table for DESIGN.md)."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(HERE, ".."); SEEDED = os.path.join(V, "seeded"); W = "/tmp/catchwork"
if os.path.isdir(W): shutil.rmtree(W)
subprocess.check_call(["cp", "-a", "/repo", W])
for s in sys.argv[1:] or sorted(os.listdir(SEEDED)):
    m = json.load(open(os.path.join(SEEDED, s, "meta.json")))
    subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=W)
    subprocess.check_call(["git", "apply", os.path.join(SEEDED, s, "patch.diff")], cwd=W)
    r = subprocess.run([sys.executable, "check.py", "ALL"], cwd=V, env=dict(os.environ, KUBA_REPO=W), capture_output=True, text=True)
    v = sorted(set(l.split("property=")[1].split()[0] for l in r.stdout.split("\n") if l.startswith("VIOLATION")))
    print("| %s | %s | %s | %s |" % (s, m["property"], ", ".join(v) or "none", "yes" if m["property"] in v else "NO"), flush=True)
shutil.rmtree(W)
