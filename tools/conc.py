"""Checks of concurrent_map / concurrent_set: executions under the cooperative scheduler, judged by TraceConc."""
import os, json
import vlib

INSTS = range(8)


def build(c, insts=INSTS):
    src = os.path.join(vlib.VERIF, "harness", "conc", "cmap.cpp")
    return c.build([("cmap%d" % i, [src], ["TSAN_RT", "-DINST=%d" % i]) for i in insts])


def run(c, exes, family, n, seeds):
    jobs = [("%s_%s_%d" % (name, family, s), exe, [s, n, family]) for name, exe in exes.items() for s in seeds]
    return c.run_drivers(jobs, timeout=700)


def only_global(traces):
    """keep the lines that describe a whole execution"""
    out = []
    for t in traces:
        p = t + ".g"
        with open(t, errors="replace") as f, open(p, "w") as g:
            for line in f:
                if '"g":1,' in line:
                    g.write(line)
        out.append(p)
    return out


def seeds(quick, thorough):
    k = quick if vlib.TIER == "quick" else thorough
    return [vlib.SEED * 1000 + i for i in range(k)]
