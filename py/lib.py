"""Driver library: builds harness and specification, runs scenarios, asks TLC, reports."""
import json, os, re, random, shutil, struct, subprocess, sys, time
VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
TLA = "/opt/veriftools/tla"
CP = [TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]
NPROC = 8

class ToolError(Exception): pass
class Stop(Exception):
    """a violation was recorded that makes it impossible to go on"""

def sh(cmd, timeout=800, env=None, cwd=None, ok=(0,)):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("timeout: %s" % (cmd,))
    if ok is not None and p.returncode not in ok:
        raise ToolError("failed (%d): %s\n%s" % (p.returncode, cmd, p.stdout[-4000:]))
    return p

def cargo_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             RUST_MIN_STACK="33554432")
    e.pop("RUSTFLAGS", None)
    return e

def build_harness():
    e = cargo_env(); e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
    lock = os.path.join(VERIF, "harness", "Cargo.lock")
    sh(["cargo", "build", "--offline", "--release", "--quiet"], env=e, cwd=os.path.join(VERIF, "harness"))
    return os.path.join(BUILD, "target", "release", "pvh")

def build_binary():
    """The real posidonius program, from /repo's working tree (never inside /repo)."""
    e = cargo_env(); e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target_bin")
    e["CARGO_PROFILE_RELEASE_OPT_LEVEL"] = "1"; e["CARGO_PROFILE_RELEASE_DEBUG"] = "false"
    sh(["cargo", "build", "--offline", "--release", "--quiet", "--locked", "--bin", "posidonius", "--manifest-path", REPO + "/Cargo.toml"], env=e, cwd=VERIF)
    return os.path.join(BUILD, "target_bin", "release", "posidonius")

def build_java():
    out = os.path.join(BUILD, "classes"); src = os.path.join(VERIF, "java", "Reals64.java")
    cls = os.path.join(out, "Reals64.class")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        os.makedirs(out, exist_ok=True)
        sh(["javac", "-cp", CP[0], "-d", out, src])
    return out

class Check:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.rng = random.Random("%s/%d" % (pid, seed))
        self.work = os.path.join(BUILD, "work", "%s_%s_%d" % (pid, tier, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(os.path.join(self.work, "input")); open(os.path.join(self.work, "input", "empty.dat"), "w").close()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.violations, self.notes = [], [], []
        self.known_hit = {}
        self.extra = {}
        self.assumptions = []
        self.classes = build_java()
    thorough = property(lambda s: s.tier == "thorough")

    # ---- harness ----
    def run_harness(self, scenarios, name="t", timeout=None):
        if timeout is None: timeout = 900 if self.thorough else 300
        exe = getattr(self, "_exe", None)
        if exe is None: exe = self._exe = build_harness()
        for i, s in enumerate(scenarios): s["id"] = i
        k = max(1, min(NPROC, (len(scenarios) + 3) // 4)); procs = []
        for w in range(k):
            inp = os.path.join(self.work, "%s_%d.in" % (name, w)); out = os.path.join(self.work, "%s_%d.out" % (name, w))
            with open(inp, "w") as fh:
                for s in scenarios[w::k]: fh.write(json.dumps(s) + "\n")
            d = os.path.join(self.work, "%s_%d.d" % (name, w)); os.makedirs(d, exist_ok=True)
            link = os.path.join(d, "input")
            if not os.path.exists(link): os.symlink(os.path.join(self.work, "input"), link)
            procs.append((subprocess.Popen([exe, inp, out, d], stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w")), inp, out))
        outs = []; end = time.time() + timeout
        for p, inp, out in procs:
            try: p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                for q, _, _ in procs: q.kill()
                done = len(open(out).read().split("\n")) - 1 if os.path.exists(out) else 0
                s = (open(inp).read().split("\n") + [""])[done]
                self.fail("code under test does not end", {"tag": "hang", "scenario": s[:20000]}); raise Stop()
            with open(out + ".err", errors="replace") as fh:
                fh.seek(0, 2); fh.seek(max(0, fh.tell() - 4000)); err = fh.read()
            os.remove(out + ".err")
            if p.returncode < 0:
                # the code under test took the process down (stack overflow, abort)
                for q, _, _ in procs: q.kill()
                self.fail("code under test crashes the process", {"tag": "crash", "signal": -p.returncode, "stderr": err[-2000:]}); raise Stop()
            if p.returncode != 0: raise ToolError("harness failed (%s) on %s: %s" % (p.returncode, inp, err[-2000:]))
            outs.append(out)
        trace = os.path.join(self.work, name + ".ndjson")
        with open(trace, "w") as f:
            for o in outs:
                with open(o) as g: shutil.copyfileobj(g, f)
                os.remove(o)
        self.scen = {s["id"]: s for s in scenarios}
        return trace

    # ---- TLC ----
    def tlc(self, module, cfg=None, env=None, timeout=800, mem="6g", args=()):
        d = os.path.join(self.work, "tlc_%s_%d" % (module, int(time.time() * 1e6) % 10**9)); os.makedirs(d)
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla") or f.endswith(".cfg"): shutil.copy(os.path.join(VERIF, "spec", f), d)
        if cfg is None: cfg = "INIT WalkInit\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
        if not cfg.endswith(".cfg"):
            with open(os.path.join(d, "run.cfg"), "w") as fh: fh.write(cfg)
            cfg = "run.cfg"
        e = dict(os.environ); e.update(env or {}); e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss512m", "-Xmx" + mem, "-Djava.io.tmpdir=" + d, "-cp", ":".join([self.classes] + CP), "tlc2.TLC", "-workers", str(NPROC),
               "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE", "-config", cfg] + list(args) + [module + ".tla"]
        p = sh(cmd, timeout=timeout, env=e, cwd=d, ok=None)
        out = p.stdout
        if os.environ.get("PV_DBG"): print("\n".join(l for l in out.split("\n") if l.startswith(("\"DBG","DBG"))))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        res = {"out": out, "rc": p.returncode, "generated": int(m.group(1)) if m else 0, "distinct": int(m.group(2)) if m else 0, "dir": d,
               "prints": re.findall(r"^<<\s*\"REJECT\",\s*(\d+,\s*\d+,\s*\"[^\"]*\")\s*>>$", out, re.M), "notes": re.findall(r"^<<\s*\"NOTE\",\s*(\d+,\s*\d+,\s*\"[^\"]*\")\s*>>$", out, re.M), "finished": "Model checking completed" in out or "states left on queue" in out}
        self.states += res["distinct"]; self.transitions += max(0, res["generated"] - 1)
        return res

    def model(self, module, consts, invariants=(), init="Init", nxt="Next", properties=(), **kw):
        """exhaustive model checking of a specification that does not read traces from the code"""
        cfg = "INIT %s\nNEXT %s\nCHECK_DEADLOCK FALSE\nCONSTANTS\n%s\n" % (init, nxt, "\n".join("  %s = %s" % kv for kv in consts.items()))
        cfg += "".join("INVARIANT %s\n" % i for i in invariants) + "".join("PROPERTY %s\n" % i for i in properties)
        empty = os.path.join(self.work, "empty.ndjson"); open(empty, "w").write("{}\n")
        r = self.tlc(module, cfg, env={"TRACE": empty}, **kw)
        if "No error has been found" not in r["out"]: raise ToolError("model %s: %s" % (module, r["out"][-3000:]))
        self.extra.setdefault("models", []).append({"module": module, "constants": consts, "distinct_states": r["distinct"], "invariants": list(invariants)})
        return r

    def validate(self, module, trace, known=(), env=None, timeout=800):
        """Trace validation: every event of every run must be consumed."""
        n_runs = n_ev = 0
        for l in open(trace):
            n_runs += 1; n_ev += len(json.loads(l)["ev"])
        e = {"TRACE": trace}; e.update(env or {})
        r = self.tlc(module, env=e, timeout=timeout)
        if "Model checking completed. No error has been found" not in r["out"]:
            out = r["out"]; k = max(out.find("***Parse Error"), out.find("Semantic errors"), out.find("Error:"))
            raise ToolError("TLC did not complete on %s:\n%s" % (module, out[max(0, k):][:3500]))
        expected = 1 + n_runs + n_ev
        self.traces += n_runs; self.events += n_ev
        rej, notes = {}, {}
        for p in r["prints"]:
            a = [x.strip() for x in p.split(",", 2)]
            rej.setdefault(int(a[0]), (int(a[1]), a[2].strip().strip('"')))
        for p in r["notes"]:
            a = [x.strip() for x in p.split(",", 2)]
            notes.setdefault((int(a[0]), a[2].strip().strip('"')), int(a[1]))
        if r["distinct"] != expected and not rej:
            raise ToolError("TLC consumed %d of %d states of %s but printed no reason" % (r["distinct"], expected, trace))
        for rid, (k, name) in sorted(rej.items()):
            sc = self.scen.get(rid, {})
            self.reject(module, sc, k, name)
        for (rid, name), k in sorted(notes.items()): self.reject(module, self.scen.get(rid, {}), k, name)
        if not self.samples: self.sample_from(trace)
        return rej

    def sample_from(self, trace):
        for l in open(trace):
            d = json.loads(l); sc = dict(self.scen.get(d["cfg"].get("id"), {}))
            s = json.dumps(sc)
            self.samples.append({"scenario": json.loads(s) if len(s) < 6000 else s[:6000], "events": [[e["op"], e["res"]] for e in d["ev"]][:20]})
            break

    def reject(self, module, sc, k, name):
        tag = sc.get("tag", "")
        for kf in known_findings():
            if kf["property"] == self.id and kf["check"] == name and re.fullmatch(kf["tag"], tag):
                self.known_hit[kf["what"]] = self.known_hit.get(kf["what"], 0) + 1
                return
        self.violations.append({"module": module, "event": k, "obligation": name, "scenario": sc})

    def fail(self, name, detail):
        """A violation found by a replay whose oracle is a TLC-generated behaviour."""
        self.reject("replay", detail if isinstance(detail, dict) else {"detail": detail}, 0, name)

    # ---- report ----
    def finish(self, level="model_checking"):
        ev = os.path.join(VERIF, "evidence"); os.makedirs(ev, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "samples": self.samples[:3] or [{"note": "no sample"}]}
        cov.update(self.extra)
        d = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
             "violations": len(self.violations), "assumptions": self.assumptions}
        with open(os.path.join(ev, self.id + ".json"), "w") as fh: json.dump(d, fh, indent=1)
        for w, n in self.known_hit.items(): print("KNOWN-FINDING: property=%s %s (%d case(s))" % (self.id, w, n))
        rc = 0; rp = os.path.join(ev, "replay"); path = os.path.join(rp, self.id + ".json")
        if os.path.exists(path): os.remove(path)
        if self.violations:
            os.makedirs(rp, exist_ok=True)
            with open(path, "w") as fh: json.dump(self.violations[:200], fh, indent=1)
            for v in self.violations[:8]:
                print("rejected: %s event=%s tag=%s" % (v["obligation"], v["event"], v["scenario"].get("tag", "")))
            print("VIOLATION property=%s replay=%s" % (self.id, path))
            rc = 1
        else:
            print("OK property=%s tier=%s states=%d traces=%d events=%d wall=%.1fs" % (self.id, self.tier, self.states, self.traces, self.events, time.time() - self.t0))
        if not os.environ.get("PV_KEEP"): shutil.rmtree(self.work, ignore_errors=True)
        return rc

def unbits(p): return struct.unpack('>d', struct.pack('>ii', *p))[0]
def bits(x):
    """a float as the pair of signed 32-bit halves that Reals64 reads"""
    import struct
    return list(struct.unpack(">ii", struct.pack(">d", x)))
_kf = None
def known_findings():
    global _kf
    if _kf is None:
        p = os.path.join(VERIF, "known_findings.json")
        _kf = json.load(open(p))["known"] if os.path.exists(p) else []
    return _kf
