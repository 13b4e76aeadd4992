"""The container drivers and which sessions each property takes from them."""
import os
from vlib import *

# driver name -> (source, instantiations, trace spec)
DRV = {
    "seqc": ("harness/seq/seqc.cpp", list(range(11)), "TraceSeq"),
    "sequ": ("harness/seq/sequ.cpp", list(range(6)), "TraceSequence"),
    "flat": ("harness/assoc/flat.cpp", list(range(9)), "TraceAssoc"),
    "radix": ("harness/assoc/radix.cpp", list(range(14)), "TraceAssoc"),
    "ordered": ("harness/assoc/ordered.cpp", list(range(9)), "TraceAssoc"),
    "rhash": ("harness/assoc/radix_hash.cpp", list(range(11)), "TraceAssoc"),
    "conc": ("harness/assoc/cseq.cpp", list(range(10)), "TraceAssoc"),
    "tstr": ("harness/str/tstr.cpp", list(range(9)), "TraceStr"),
    "any": ("harness/any/any.cpp", list(range(8)), "TraceAny"),
    "num": ("harness/txt/num.cpp", list(range(4)), "TraceNum"),
    "strm": ("harness/txt/strm.cpp", list(range(3)), "TraceReader"),
    "fmt": ("harness/txt/fmt.cpp", list(range(3)), "TraceFormat"),
    "alg": ("harness/alg/alg.cpp", list(range(7)), "TraceAlg"),
}
FLAGS = {"any": FAST, "fmt": FAST}  # many template instances: compile quickly
ORDER = ["seqc", "sequ", "flat", "radix", "ordered", "rhash", "conc", "tstr", "any"]  # the container drivers


def compile_all(c, names=None, flags=ASAN, only=None):
    jobs = []
    for d in names or ORDER:
        src, insts, spec = DRV[d]
        for i in insts:
            if only and not only(d, i):
                continue
            jobs.append(("%s_%d" % (d, i), [os.path.join(VERIF, src)], list(FLAGS.get(d, flags)) + ["-DINST=%d" % i]))
    return c.build(jobs)


def run_modes(c, facet, modes, names=None, only=None, par=None):
    """modes: {driver: [(mode, sessions)]}.  Compiles, runs, validates."""
    os.environ["FACET"] = facet
    exes = compile_all(c, names, only=only)
    for d in names or ORDER:
        src, insts, spec = DRV[d]
        jobs = []
        for i in insts:
            exe = exes.get("%s_%d" % (d, i))
            if not exe:
                continue
            for mode, n in modes(d):
                jobs.append(("%s_%s_%d" % (d, mode, i), exe, [SEED * 1000 + i, n, mode]))
        if jobs:
            tr = c.run_drivers(jobs, timeout=800)
            c.validate(spec, tr, d)
