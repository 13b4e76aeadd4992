import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import containers


def body(c):
    containers.run_modes(c, "life", lambda d: [("plain", seq_sessions(25, 500))] + ([] if d == "any" else [("xfer", seq_sessions(25, 500))]))


main("C11", body)
