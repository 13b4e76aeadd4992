#!/usr/bin/env python3
"""C01: the lock types.  spec/Locks.tla is the design (model checked); spec/LockTrace.tla judges
executions of the real lock types recorded under the cooperative scheduler."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib
from concurrent.futures import ThreadPoolExecutor


def body(c):
    q = vlib.TIER == "quick"
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(c.model_check, "MCLocks", cfg="Locks_%s%s.cfg" % (v, k), workers=2, heap="3g") for v in ("spin", "cas", "add") for k in ("", "_live")]
        exe = c.build([("locks", [os.path.join(vlib.VERIF, "harness", "conc", "locks.cpp")], ["TSAN_RT"])])["locks"]
        jobs = []
        if q:
            jobs = [("locks_%d" % w, exe, [vlib.SEED, 400, w]) for w in range(5)]
        else:
            jobs = [("locks_%d_%d" % (w, s), exe, [vlib.SEED * 100 + s, 4000, w]) for w in range(5) for s in range(4)]
        traces = c.run_drivers(jobs)
        for f in fs:
            f.result()
    c.validate("LockTrace", traces)


if __name__ == "__main__":
    vlib.main("C01", body)
