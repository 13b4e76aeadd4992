import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import containers


def body(c):
    os.environ["FACET"] = "value"
    containers.run_modes(c, "value", lambda d: [("plain", seq_sessions(40, 1000)), ("big", seq_sessions(2, 30)), ("xfer", seq_sessions(10, 300))], ["ordered"])
    containers.run_modes(c, "value", lambda d: [("deep", seq_sessions(4, 100))], ["ordered"], only=lambda d, i: i in (2, 3, 7, 8))


main("C09", body)
