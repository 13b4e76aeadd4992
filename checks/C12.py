import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import containers


def body(c):
    containers.run_modes(c, "life", lambda d: [("inject", seq_sessions(80, 1500))])
    containers.run_modes(c, "life", lambda d: [("inject", seq_sessions(40, 800))], ["alg"], only=lambda d, i: i in (2, 4))


main("C12", body)
