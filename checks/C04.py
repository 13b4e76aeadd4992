#!/usr/bin/env python3
"""C04: every operation of concurrent_map / concurrent_set returns, whatever runs beside it, and leaves usable containers."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, conc


def body(c):
    exes = conc.build(c)
    tr = conc.run(c, exes, "all", vlib.seq_sessions(20000, 60000), conc.seeds(1, 8))
    tr += conc.run(c, exes, "key", vlib.seq_sessions(5000, 20000), conc.seeds(1, 3))
    tr += conc.run(c, exes, "bulk", vlib.seq_sessions(5000, 20000), conc.seeds(1, 3))
    c.validate("TraceConc", conc.only_global(tr), chunk_bytes=1000000)


if __name__ == "__main__":
    vlib.main("C04", body)
