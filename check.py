#!/usr/bin/env python3
"""check.py ID... | ALL   decides the given properties of /repo's current source (exit 0 / 1)."""
import os, sys, warnings
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 << 20)
def main():
    import extract as EX, framework as F, props
    ids = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if ids == ["ALL"]: ids = sorted(F.PROPS)
    for i in ids:
        if i not in F.PROPS: print("no such check: " + i); return 2
    try:
        for k in sorted({F.PROPS[i][2] for i in ids if F.PROPS[i][2]}): EX.KIND = k; EX.raw()
    except EX.BuildError as e:
        # the entry points name every public operation: a build failure means an operation is gone or no longer has its documented type
        print("build failed: " + str(e)[-3000:])
        import json
        return 2
    if len(ids) == 1: return F.run(ids[0], tier, seed)
    import multiprocessing as mp, concurrent.futures as cf
    rc = 0
    pend = list(ids); running = []
    while pend or running:
        while pend and len(running) < 7:
            i = pend.pop(0); pid = os.fork()
            if pid == 0:
                try: r = F.run(i, tier, seed)
                except BaseException as e: print("%s: error %r" % (i, e)); r = 2
                sys.stdout.flush(); os._exit(r)
            running.append(pid)
        pid, st = os.wait(); running.remove(pid)
        rc = max(rc, os.waitstatus_to_exitcode(st))
    return rc
if __name__ == "__main__":
    res = []
    t = threading.Thread(target=lambda: res.append(main())); t.start(); t.join()
    sys.stdout.flush(); os._exit(res[0] if res else 2)
