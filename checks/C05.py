import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import containers


def body(c):
    containers.run_modes(c, "value", lambda d: [("plain", seq_sessions(60, 1200)), ("big", seq_sessions(3, 40))], ["seqc"])


main("C05", body)
