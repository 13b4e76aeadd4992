import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import containers


def body(c):
    os.environ["FACET"] = "value"
    containers.run_modes(c, "value", lambda d: [("plain", seq_sessions(30, 800)), ("xfer", seq_sessions(8, 250))], ["rhash", "conc"])
    containers.run_modes(c, "value", lambda d: [("big", seq_sessions(1, 25))], ["rhash", "conc"], only=lambda d, i: seq_sessions(0, 1) or i % 2 == (0 if d == "conc" else 1))


main("C10", body)
