#!/usr/bin/env python3
"""C02: single-key operations of concurrent_map / concurrent_set are linearizable (TraceConc on recorded executions)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
import vlib, conc


def body(c):
    exes = conc.build(c)
    tr = conc.run(c, exes, "key", vlib.seq_sessions(7000, 20000), conc.seeds(1, 6))
    c.validate("TraceConc", tr, chunk_bytes=2000000)


if __name__ == "__main__":
    vlib.main("C02", body)
