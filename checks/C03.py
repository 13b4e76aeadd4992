#!/usr/bin/env python3
"""C03: whole-container operations of concurrent_map / concurrent_set (TraceConc on recorded executions)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, conc


def body(c):
    exes = conc.build(c)
    tr = conc.run(c, exes, "bulk", vlib.seq_sessions(5000, 15000), conc.seeds(1, 5))
    c.validate("TraceConc", tr, chunk_bytes=2000000)


if __name__ == "__main__":
    vlib.main("C03", body)
