#!/usr/bin/env python3
"""Development aid: turns the entries of tools/seeds/*.py into /verif/seeded/<id>/ and tries them in a scratch copy.
   mkseed.py write [ids]      write patch.diff, demo.sh, demo.cpp, meta.json
   mkseed.py try [ids]        scratch copy: applies, builds, stable tests pass, demo fails with / passes without
   mkseed.py catch [ids]      apply to /repo, run the property's quick check, undo"""
import os, sys, json, subprocess, glob, importlib.util, shutil, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
def load():
    out = {}
    for f in sorted(glob.glob(os.path.join(V, "tools/seeds/*.py"))):
        sp = importlib.util.spec_from_file_location("m", f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        for s in m.SEEDS:
            assert s["id"] not in out, s["id"]
            out[s["id"]] = s
    return out
DEMO_SH = """#!/bin/bash
# exit 0: the property held; non-zero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
g++ -std=c++17 %s -march=native -DSEQ_USE_INTERNAL_STD_TO_CHARS -w -I"$PWD" -I"$PWD/seq" "$D/demo.cpp" -o "$T/demo" -ltbb -lpthread || exit 3
timeout -s KILL %d "$T/demo"
"""
def write(s):
    d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    diff = ""
    files = {}
    for f, old, new in s["edits"]:
        t = files.get(f) or open(os.path.join(R, f)).read()
        files[f] = t
        n = t.count(old)
        assert n == s.get("count", 1), (s["id"], n, old)
        files[f] = t.replace(old, new)
    for f, t in files.items():
        a = open(os.path.join(R, f)).read().splitlines(True); b = t.splitlines(True)
        diff += "".join(difflib.unified_diff(a, b, "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.cpp"), "w").write(s["demo"])
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % (s.get("flags", "-O1"), s.get("timeout", 60)))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
W = "/tmp/seedwt"
def tryone(s):
    d = os.path.join(V, "seeded", s["id"])
    r0 = sh("bash %s/demo.sh" % d, cwd=R)
    if r0.returncode: return "demo fails on the unchanged tree: " + r0.stdout[-500:]
    if not os.path.exists(W):
        sh("cp -a /repo %s && rm -r %s/_build" % (W, W))
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=W)
    r = sh("git apply %s/patch.diff" % d, cwd=W)
    if r.returncode: return "does not apply " + r.stdout
    r1 = sh("bash %s/demo.sh" % d, cwd=W)
    if r1.returncode in (0, 3): return "demo passes with the change / does not compile: " + r1.stdout[-800:]
    os.makedirs("/tmp/seedvp", exist_ok=True)
    for f in ("configure.sh", "test.sh", "modules.py", "results.py", "build.sh"):
        t = open("/opt/vp/" + f).read().replace("/repo", W).replace("/opt/vp", "/tmp/seedvp"); open("/tmp/seedvp/" + f, "w").write(t)
    r = sh("bash /tmp/seedvp/test.sh /tmp/seedvp/out.json")
    o = json.load(open("/tmp/seedvp/out.json")); st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    miss = st - set(o["passed"])
    sh("git checkout -q -- .", cwd=W)
    if miss: return "tests fail: %s %s" % (sorted(miss)[:5], r.stdout[-300:] if len(miss) > 90 else "")
    return "OK (demo rc %d)" % r1.returncode
def catch(s):
    d = os.path.join(V, "seeded", s["id"])
    w = "/tmp/seedcatch/" + s["id"]
    sh("mkdir -p %s && git -C %s archive HEAD | tar -x -C %s" % (w, R, w))
    try:
        r = sh("git apply %s/patch.diff" % d, cwd=w) if False else sh("patch -p1 < %s/patch.diff" % d, cwd=w)
        if r.returncode: return "does not apply"
        r = sh("VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick python3 checks/%s.py" % (w, s["property"]), cwd=V)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    l = [x for x in r.stdout.split("\n") if x.strip()]
    return ("CAUGHT " if r.returncode == 1 and "VIOLATION property=" + s["property"] in r.stdout else "MISSED rc %d " % r.returncode) + (" | ".join(x[:160] for x in l[:2]) + " ... " + l[-1] if l else "")
if __name__ == "__main__":
    S = load(); ids = sys.argv[2:] or list(S)
    ids = [i for i in S if any(i == p or i.startswith(p) for p in ids)]
    for i in ids:
        if sys.argv[1] == "write": write(S[i])
        elif sys.argv[1] == "try": write(S[i]); print(i, tryone(S[i]), flush=True)
        elif sys.argv[1] == "catch": print(i, catch(S[i]), flush=True)
