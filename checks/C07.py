import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import containers


def body(c):
    containers.run_modes(c, "value", lambda d: [("plain", seq_sessions(50, 1200)), ("big", seq_sessions(2, 30))], ["flat"])


main("C07", body)
