import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import containers


def body(c):
    containers.run_modes(c, "value", lambda d: [("plain", seq_sessions(150, 4000)), ("xfer", seq_sessions(60, 1500))], ["tstr"])


main("C13", body)
