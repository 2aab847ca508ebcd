#!/usr/bin/env python3
"""Decide one property of bytedata on /repo's current working tree.

usage: run.py PROPERTY quick|thorough

Four layers, all rebuilt from /repo on every run:
  kani    contract harnesses over the real functions (proofs; a bound, where there is one, is in the label)
  verus   functions extracted mechanically from /repo and proved against unbounded contracts
  native  the same contracts executed on enumerated and seeded inputs (always labelled bounded); also
          the source of failing inputs for a failed proof
  miri    histories in several threads on the real code under many schedules (bounded), for P03, P15, P17, P23
Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.  Exit 3: nothing could be decided.
"""
import json, os, re, subprocess, sys, time, threading, shutil

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import layers  # noqa: E402

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = layers.Context(ROOT, prop, tier, seed)
    out = {}
    threads = []
    for name, fn in (("native", layers.native), ("kani", layers.kani), ("verus", layers.verus), ("miri", layers.miri)):
        def go(name=name, fn=fn):
            try:
                out[name] = fn(ctx)
            except Exception as e:  # a broken layer never decides anything
                out[name] = layers.undecided(name, "%s: %s" % (type(e).__name__, e))
        t = threading.Thread(target=go)
        t.start()
        threads.append(t)
    for t in threads:
        t.join()
    return layers.conclude(ctx, out, time.time() - t0)

if __name__ == "__main__":
    sys.exit(main())
