#!/usr/bin/env python3
"""dev.py SRC SPEC FACET INSTS MODE N [seed]: build, run, validate, summarise (development aid)"""
import os, sys, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ["VERIF_MAXCONF"] = os.environ.get("VERIF_MAXCONF", "24")
from vlib import *
src, spec, facet, insts, modes, n = sys.argv[1:7]
seed = int(sys.argv[7]) if len(sys.argv) > 7 else 1
os.environ["FACET"] = facet
c = Check("DEV")
def rng(s):
    r = []
    for p in s.split(","):
        a = p.split("-"); r += range(int(a[0]), int(a[-1]) + 1)
    return r
I = rng(insts)
base = os.path.basename(src)[:-4]
exes = c.build([("%s%d" % (base, i), [os.path.join(VERIF, src)], (FAST if base in ("any", "fmt") else ASAN) + ["-DINST=%d" % i]) for i in I])
jobs = [("%s%d" % (m, i), exes["%s%d" % (base, i)], [seed * 100 + i, n, m]) for i in I for m in modes.split(",")]
tr = c.run_drivers(jobs)
c.validate(spec, tr)
cnt = collections.Counter()
shown = {}
for rej in c.rejected:
    d = c.describe(rej)
    s = d.get("session") or {}
    e = d.get("rejected_event") or {}
    key = (s.get("cfg", {}).get("type"), e.get("o"), e.get("x"), e.get("er"), e.get("crash"))
    cnt[key] += 1
    if key not in shown or len(str(shown[key]["before"])) > len(str(d.get("before"))):
        shown[key] = d
for k, v in cnt.most_common():
    d = shown[k]
    print("==", v, k)
    for b in d.get("before", [])[-int(os.environ.get("BACK","2")):]:
        print("    B", json.dumps(b)[:600])
    print("    E", json.dumps(d.get("rejected_event"))[:900])
    if d["tlc"]:
        print("    TLC", d["tlc"][-1200:])
    if d.get("stderr"):
        ls = [l for l in d["stderr"].split("\n") if re.match(r"\s+#[0-9]+ ", l) or "ERROR" in l or "Assert" in l]
        for l in ls[:9]:
            print("      ", re.sub(r"<.*>", "<>", l)[:200])
print("sessions", c.sessions, "accepted", c.accepted, "events", c.events, "time %.1f" % (time.time() - c.t0))
c.cleanup()
