import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import containers


def body(c):
    containers.run_modes(c, "life", lambda d: [("xfer", seq_sessions(60, 1200))], [d for d in containers.ORDER if d != "any"])


main("C18", body)
