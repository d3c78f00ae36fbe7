#!/usr/bin/env python3
"""Developer aid: print the effect log of a scenario defined in rules.common (or of one function)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(50000)
import argparse
from rules import common as C
ap = argparse.ArgumentParser()
ap.add_argument("what"); ap.add_argument("--opaque", default=""); ap.add_argument("--types", default="")
ap.add_argument("--no-init", action="store_true"); ap.add_argument("-d", type=int, default=4); ap.add_argument("-w", type=int, default=230)
ap.add_argument("--kinds", default="call,mutate,raise,catch,maybe_unbound,setattr"); ap.add_argument("-g", default="")
ap.add_argument("--skip", default="logging,str,len,range,print"); ap.add_argument("--root", default=os.environ.get("QM_REPO", "/repo"))
a = ap.parse_args()
def go():
    c = C.Ctx("T", a.root)
    if hasattr(C, a.what):
        s = getattr(C, a.what)(c)
    else:
        s = c.scenario("t", a.what, opaque=[x for x in a.opaque.split(",") if x], types=dict(x.split("=") for x in a.types.split(",") if x), construct=not a.no_init)
    skip = a.skip.split(",")
    for e in s.log:
        if e.kind in a.kinds.split(",") and not any((e.fn or "") == x or (e.fn or "").startswith(x + ".") for x in skip):
            ar = ", ".join([C.show(x, a.d) for x in e.args] + ["%s=%s" % (k, C.show(x, a.d)) for k, x in e.kw.items()])
            l = "%s %s %s| %s" % (e.kind, e.fn.replace("quakemigrate.", ""), (C.show(e.recv, 3) + " ") if e.recv is not None else "", ar)
            if a.g and a.g not in l: continue
            print(l[:a.w]); print(("   @%s %sIF %s%s" % (e.line, "[H] " if C.in_handler(e) else "", C.show(C.noexc(e.pc), a.d), (" LOOP " + ",".join(C.show(x, 3) for x in e.loops)) if e.loops else ""))[:a.w])
    print("RET", C.show(s.snap(s.ret), a.d + 3)[:600])
import threading
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=go); t.start(); t.join()
