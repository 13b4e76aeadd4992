"""Common machinery of the checks: build drivers from /repo, run them, validate the recorded
sessions with TLC, report, write evidence."""
import os, sys, json, subprocess, shutil, tempfile, time, re, hashlib, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 8
MAXCONF = int(os.environ.get("VERIF_MAXCONF", "8"))
CXXFLAGS = ["-std=c++17", "-march=native", "-DSEQ_USE_INTERNAL_STD_TO_CHARS", "-I" + REPO, "-I" + os.path.join(REPO, "seq"), "-w"]
FAST = ["CLANG", "-O0", "-fsanitize=address", "-fno-omit-frame-pointer"]
ASAN = ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"]


class CheckError(Exception):
    pass


def errs(out):
    ls = [l for l in out.split("\n") if " error: " in l or "undefined reference" in l or "required from" in l and VERIF in l]
    return "\n".join(l[:300] for l in ls[:30]) or out[-3000:]


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vt_%s_" % pid, dir=os.environ.get("VERIF_TMP", "/tmp"))
        self.states = 0
        self.distinct = 0
        self.accepted = 0
        self.sessions = 0
        self.events = 0
        self.rejected = []
        self.unconfirmed = 0
        self.samples = []
        self.runs = []
        self.extra = {}
        self.mc = []

    # ---------------------------------------------------------------- building
    def build(self, jobs):
        """jobs: list of (name, [source files], [flags]); returns {name: path}.  Parallel."""
        out = {}

        def one(j):
            name, srcs, flags = j
            exe = os.path.join(self.dir, name)
            if "TSAN_RT" in flags:
                # code under the cooperative scheduler: instrumented driver + uninstrumented runtime
                flags = [f for f in flags if f != "TSAN_RT"]
                rt = os.path.join(VERIF, "harness", "conc", "rt.cpp")
                for cmd in (["g++"] + CXXFLAGS + ["-O1", "-g", "-c", rt, "-o", exe + ".rt.o"],
                            ["g++"] + CXXFLAGS + ["-O1", "-g1", "-fsanitize=thread", "-c"] + list(flags) + list(srcs) + ["-o", exe + ".o"],
                            ["g++", exe + ".o", exe + ".rt.o", "-o", exe, "-ldl", "-lpthread", "-ltbb"]):
                    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if p.returncode != 0:
                        raise CheckError("compile of %s failed:\n%s" % (name, errs(p.stdout)))
                return name, exe
            cc = "g++"
            if "CLANG" in flags:
                cc = "clang++"
                flags = [f for f in flags if f != "CLANG"]
            cmd = [cc] + CXXFLAGS + list(flags) + list(srcs) + ["-o", exe]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise CheckError("compile of %s failed:\n%s" % (name, errs(p.stdout)))
            return name, exe
        with ThreadPoolExecutor(NCPU) as ex:
            for name, exe in ex.map(one, jobs):
                out[name] = exe
        return out

    def run_drivers(self, jobs, timeout=300):
        """jobs: list of (trace file name, exe, [args]).  The exe gets OUT as first argument.
        Returns the list of trace paths.  A crash is recorded by the driver in the trace."""
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:color=never:hard_rss_limit_mb=3500"

        def one(j):
            name, exe, args = j
            path = os.path.join(self.dir, name)
            try:
                p = subprocess.run([exe, path] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env=env)
            except subprocess.TimeoutExpired:
                raise CheckError("driver %s timed out" % name)
            if p.returncode not in (0, 77):
                raise CheckError("driver %s ended with %s:\n%s" % (name, p.returncode, p.stderr[-3000:]))
            if p.returncode == 77:
                with open(path + ".err", "w") as f:
                    f.write(p.stderr[:20000])
            return path
        with ThreadPoolExecutor(NCPU) as ex:
            return list(ex.map(one, jobs))

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, trace=None, cfg=None, env=None, workers=2, heap="3g", extra=(), timeout=400):
        md = tempfile.mkdtemp(prefix="tlc_", dir=self.dir)
        e = dict(os.environ)
        if trace:
            e["TRACE"] = trace
        if env:
            e.update(env)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss512m", "-Xmx" + heap, "-Dtlc2.tool.impl.Tool.cdot=true", "-cp", JARS, "tlc2.TLC", "-nowarning", "-workers", str(workers),
               "-metadir", md, "-noGenerateSpecTE", "-config", cfg or (module + ".cfg")] + list(extra) + [module + ".tla"]
        p = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout)
        shutil.rmtree(md, ignore_errors=True)
        out = p.stdout
        r = {"rc": p.returncode, "out": out, "acc": set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out)),
             "finished": "Finished in" in out and ("Model checking completed. No error" in out)}
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        r["states"], r["distinct"] = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        r["depth"] = int(m.group(1)) if m else 0
        return r

    def validate(self, module, traces, group=None, chunk_bytes=6_000_000, workers=2, par=None, heap="3g", cfg=None, confirm=True):
        """Every line of every trace file is one session; all must be accepted by the spec."""
        chunks = []
        cur, size = [], 0
        for t in traces:
            with open(t, errors="replace") as f:
                for line in f:
                    line = line.strip()
                    if not line:
                        continue
                    if size and size + len(line) > chunk_bytes:
                        chunks.append(cur)
                        cur, size = [], 0
                    cur.append((t, line))
                    size += len(line)
        if cur:
            chunks.append(cur)

        def one(ic):
            i, ch = ic
            path = os.path.join(self.dir, "%s_%s_%d.ndjson" % (module, group or "g", i))
            with open(path, "w") as f:
                for _, line in ch:
                    f.write(line + "\n")
            r = self.tlc(module, path, workers=workers, heap=heap, cfg=cfg)
            os.unlink(path)
            return r
        with ThreadPoolExecutor(par or max(1, NCPU // workers)) as ex:
            results = list(ex.map(one, enumerate(chunks)))
        rej = []
        for ch, r in zip(chunks, results):
            if not r["finished"]:
                # an evaluation error may be caused by a malformed observation: find the session
                bad = [k for k in range(1, len(ch) + 1) if k not in r["acc"]]
                m = re.search(r"sn = (\d+)", r["out"])
                order = ([int(m.group(1))] if m else []) + bad
                hit = None
                for k in order[:40]:
                    rr = self._single(module, ch[k - 1][1], heap, cfg)
                    if not rr["finished"] or 1 not in rr["acc"]:
                        hit = (k, rr)
                        break
                if hit is None:
                    raise CheckError("TLC failed on %s:\n%s" % (module, r["out"][-3000:]))
                rej.append((ch[hit[0] - 1], hit[1]))
                self.accepted += len(r["acc"])
                self.sessions += len(ch)
                continue
            self.states += r["states"]
            self.distinct += r["distinct"]
            self.accepted += len(r["acc"])
            self.sessions += len(ch)
            for k in range(1, len(ch) + 1):
                if k not in r["acc"]:
                    rej.append((ch[k - 1], None))
        for ch in chunks:
            for _, line in ch:
                self.events += line.count('{"o":') or line.count("[") - 1
            if len(self.samples) < 3 and ch:
                self.samples.append({"spec": module, "session": ch[len(ch) // 2][1][:700]})
        # a rejection is reported only when it shows again on its own
        def conf(x):
            (t, line), rr = x
            if rr is None:
                rr = self._single(module, line, heap, cfg)
            if rr["finished"] and 1 in rr["acc"]:
                return None
            return (module, t, line, rr)
        self.unconfirmed += max(0, len(rej) - MAXCONF)
        if len(rej) > MAXCONF:
            # spread over the different session kinds
            step = len(rej) / MAXCONF
            rej = [rej[int(i * step)] for i in range(MAXCONF)]
        with ThreadPoolExecutor(NCPU) as ex:
            for c in ex.map(conf, rej):
                if c:
                    self.rejected.append(c)
        self.runs.append({"spec": module, "group": group, "sessions": sum(len(c) for c in chunks)})
        return results

    def _single(self, module, line, heap, cfg=None):
        path = tempfile.mktemp(prefix="single_", dir=self.dir)
        with open(path, "w") as f:
            f.write(line + "\n")
        r = self.tlc(module, path, workers=1, heap=heap, cfg=cfg)
        os.unlink(path)
        return r

    def model_check(self, module, cfg=None, env=None, workers=4, heap="6g", timeout=800, expect_ok=True, extra=()):
        r = self.tlc(module, cfg=cfg, env=env, workers=workers, heap=heap, timeout=timeout, extra=extra)
        self.states += r["states"]
        self.distinct += r["distinct"]
        self.mc.append({"module": module, "cfg": cfg or module + ".cfg", "states": r["states"], "distinct": r["distinct"], "ok": r["finished"]})
        if expect_ok and not r["finished"]:
            raise CheckError("model checking of %s failed:\n%s" % (module, r["out"][-4000:]))
        return r

    # ---------------------------------------------------------------- ending
    def describe(self, rej):
        module, t, line, rr = rej
        d = {"spec": module, "trace": os.path.basename(t), "session": None, "event_index": rr.get("depth", 0), "tlc": rr["out"][-1500:] if not rr["finished"] else ""}
        try:
            s = json.loads(line)
            d["session"] = s
            i = max(1, rr.get("depth", 1))
            if "ev" in s and 1 <= i <= len(s["ev"]):
                d["rejected_event"] = s["ev"][i - 1]
                d["before"] = s["ev"][max(0, i - 4):i - 1]
        except Exception as ex:  # torn line after a crash
            d["raw"] = line[-3000:]
        if os.path.exists(t + ".err"):
            d["stderr"] = open(t + ".err").read()[:4000]
        return d

    def known(self):
        f = os.path.join(VERIF, "known_findings.txt")
        out = []
        if os.path.exists(f):
            for line in open(f):
                m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line)
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        return out

    def finish(self, level="model_checking", coverage=None):
        wall = time.time() - self.t0
        rc = 0
        shown = 0
        rep = os.path.join(VERIF, "replays")
        for rej in self.rejected:
            os.makedirs(rep, exist_ok=True)
            d = self.describe(rej)
            h = hashlib.sha1(rej[2].encode()).hexdigest()[:10]
            path = os.path.join(rep, "%s_%s.json" % (self.pid, h))
            with open(path, "w") as f:
                json.dump(d, f, indent=1)
            if shown < 10:
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                cfg = (d.get("session") or {}).get("cfg", {})
                print("  ", json.dumps(cfg)[:200], "event", d["event_index"], json.dumps(d.get("rejected_event"))[:700])
            shown += 1
            rc = 1
        if shown > 10 or self.unconfirmed:
            print("   ... %d rejected sessions in all" % (shown + self.unconfirmed))
        cov = {"states": self.distinct, "transitions": self.states, "traces_validated_against_impl": self.accepted, "sessions": self.sessions, "events": self.events,
               "rejected": len(self.rejected), "runs": self.runs, "models": self.mc, "samples": self.samples[:4] or [{"none": 1}]}
        cov.update(self.extra)
        if coverage:
            cov.update(coverage)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "wall_s": round(wall, 2)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if rc == 0 and self.sessions and self.accepted != self.sessions:
            raise CheckError("sessions %d accepted %d but none rejected" % (self.sessions, self.accepted))
        print("%s: %s: %d sessions, %d events, %d accepted, %d states, %.1f s" % (self.pid, "ok" if rc == 0 else "VIOLATED", self.sessions, self.events, self.accepted, self.distinct, wall))
        return rc

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def seq_sessions(quick, thorough):
    return quick if TIER == "quick" else thorough


def main(pid, body):
    c = Check(pid)
    rc = 2
    try:
        body(c)
        rc = c.finish()
    except CheckError as e:
        print("CHECK ERROR:", e, file=sys.stderr)
        rc = 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", c.dir)
        else:
            c.cleanup()
    sys.exit(rc)
