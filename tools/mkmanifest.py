#!/usr/bin/env python3
"""Generates MANIFEST.json: every property with a registered check is claimed, the rest are listed with a reason."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(HERE, "..")
sys.path.insert(0, os.path.join(V, "sa")); sys.setrecursionlimit(100000)
import framework as F, props
REASON = {}
def load(): 
    p = os.path.join(HERE, "not_applicable.json")
    return json.load(open(p)) if os.path.exists(p) else {}
REASON = load()
TECH = {"value": "value-flow (gated SSA) dataflow analysis of the compiler's IR",
        "effects": "whole-program call-graph and memory-effect analysis of the compiler's IR",
        "types": "type-level witnesses checked by the Rust compiler",
        "borrow": "type-reachability and escape analysis of the type-checked program (MIR)",
        "protocol": "lock and typestate analysis on value flow (gated SSA) of the compiler's IR"}
BASE = ("Decided from the unoptimised IR rustc emits for /repo's current source: every path of the analysed operation is folded into symbolic value-flow terms and "
        "compared with the required ones by rewriting and an order/linear-arithmetic domain; nothing is executed. An obligation that cannot be established is reported as a violation. "
        "Trusted: rustc's and LLVM's scalar clean-up passes, the models of the std/ndarray calls listed in DESIGN.md, and, unless the property says otherwise, "
        "exact real arithmetic in place of rounded floats.")
NOTE = {"W01": "Decided on the linked program's call graph: every function that a public operation can reach, by direct calls or by address, and what it touches. Trusted: rustc, and std's and the dependencies' names of operations with effects as listed in sa/props_world.py. That the directory readers print only when asked to is decided by the guard of each print in their value flow.",
        "W02": "Decided on types and MIR: no type reachable from a shared reference has interior mutability, and no shared reference is turned into something that can be written through. Trusted: rustc's borrow checker.",
        "M08": "Decided by rustc's type checker on a generated crate that only type-checks if the property holds. Trusted: rustc."}
VIZ = " The viewer's source is compiled against a stand-in for kiss3d (its own dependencies do not compile with this toolchain); locks, flags and threads are used through their documented contracts, and that the thread does not panic while it holds a lock is trusted."
def main():
    P = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for i in P:
        if i in F.PROPS:
            kind = {"M08": "types", "W01": "effects", "W02": "borrow", "V01": "protocol"}.get(i, "value")
            note = NOTE.get(i, BASE) + (VIZ if i[0] == "V" else "")
            checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                           "evidence_file": "evidence/%s.json" % i, "technique": TECH[kind], "level": "other", "level_note": note})
        else: na.append({"property": i, "reason": REASON.get(i, "no check built yet")})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. Every check recompiles /repo's working tree to compiler IR under /verif/.build (git-ignored) and analyses that."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed,", len(na), "not")
main()
