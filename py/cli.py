"""Runs the real posidonius program in scratch directories: reference runs, kills, faults, resumes."""
import json, os, shutil, subprocess, concurrent.futures as cf
import lib, gen

def build_shim():
    out = os.path.join(lib.BUILD, "pvshim.so"); src = os.path.join(lib.VERIF, "shim", "pvshim.c")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        os.makedirs(lib.BUILD, exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        lib.sh(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src, "-ldl"]); os.rename(tmp, out)
    return out

TIME0 = 1790000000   # calendar clock of the runs (an afternoon), so that backup names do not depend on when a check runs
class Prog:
    def __init__(self, c):
        self.c = c; self.exe = lib.build_binary(); self.shim = build_shim(); self.n = 0
    def dir(self):
        self.n += 1; d = os.path.join(self.c.work, "p%05d" % self.n); os.makedirs(d); return d
    def run(self, args, d, kill=None, fail=None, log=None, tick=0, timeout=120, time0=TIME0, mono=None):
        """returns exit status (negative: killed), output"""
        e = {k: v for k, v in os.environ.items() if not k.startswith("PV_") and k != "RUST_BACKTRACE"}
        e.update(LD_PRELOAD=self.shim, PV_DIR=os.path.realpath(d), PV_TIME=str(time0), PV_TICK=str(tick))
        if mono: e["PV_MONO"] = str(mono)
        if kill: e["PV_KILL"] = kill
        if fail: e["PV_FAIL"] = fail
        if log: e["PV_LOG"] = log
        try: p = subprocess.run([self.exe] + args, cwd=self.c.work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired: return "hang", ""
        return p.returncode, p.stdout
def rd(p):
    try:
        with open(p, "rb") as f: return f.read()
    except FileNotFoundError: return None
def good(a, ref):
    """length of the common prefix"""
    if a == ref[:len(a)]: return len(a)
    lo, hi = 0, min(len(a), len(ref))
    while lo < hi:
        m = (lo + hi + 1) // 2
        if a[:m] == ref[:m]: lo = m
        else: hi = m - 1
    return lo
def near(a, ref):
    """length of the common prefix in records, numbers compared up to what decimal rounding can grow to"""
    import struct
    for k in range(0, min(len(a), len(ref)), 156):
        if a[k:k + 156] == ref[k:k + 156]: continue
        if len(a) - k < 156: return len(a) # a torn record
        x, y = struct.unpack("<ddi17d", a[k:k + 156]), struct.unpack("<ddi17d", ref[k:k + 156])
        if x[2] != y[2] or any(abs(p - q) > 1e-5 * (abs(q) + 0.01) for p, q in zip(x[:15], y[:15])): return k
    return min(len(a), len(ref))
def unbits(b): 
    import struct
    return struct.unpack(">d", struct.pack(">II", *(x & 0xffffffff for x in b)))[0]
def pmap(f, xs):
    with cf.ThreadPoolExecutor(lib.NPROC) as ex: return list(ex.map(f, xs))

def restored(c, paths):
    """what the library restores each file to: {path: None | it}; identical contents are restored once"""
    import hashlib
    by, S = {}, []
    for p in paths:
        k = (hashlib.sha256(rd(p)).hexdigest(), os.path.splitext(p)[1]); by.setdefault(k, []).append(p)
    known = c.__dict__.setdefault("_restored", {})
    new = [k for k in by if k not in known]
    for q in range(0, len(new), 4): S.append({"tag": "restore", "bodies": [], "effects": {}, "keepgoing": True, "dump": "it", "ops": [["restore", by[k][0]] for k in new[q:q + 4]]})
    if S:
        sc = getattr(c, "scen", None); tr = c.run_harness(S, name="rs")
        for l in open(tr):
            r = json.loads(l); q = r["cfg"]["id"] * 4
            for k, e in zip(new[q:q + 4], r["ev"]): known[k] = e["it"] if e["res"] == "ok" and e["out"]["ret"] == "ok" else None
        c.scen = sc
    return {p: known[k] for k, ps in by.items() for p in ps}

def make_cases(c, specs):
    """specs: kind, coord, ks, n, ext, dt, hp, rp, limit.  Builds the case file and, with the library, the uninterrupted
    run with all its snapshots: adds d, case, per, hist (bytes), refs [it]"""
    import checks
    rng = c.rng; S = []; t0, end = checks.short_tables(c)
    for i, s in enumerate(specs):
        n = s["n"]
        if s.get("tiny") or n == 1: bs, e = (checks.tiny(rng, n) if n > 1 else gen.system(rng, 1, 0)), dict(gen.OFF)
        else: bs, e = checks.run_case(c, rng, n, rng.randrange(n), s["ks"])
        d = os.path.join(c.work, "case%d" % i); os.makedirs(d, exist_ok=True)
        ops = [["new"], ["integ", gen.integ(rng, s["kind"], s["dt"], s["hp"], s["rp"], s["coord"])], ["case", d + "/case.json"], ["restore", d + "/case.json"], ["iterate", 1000000, d + "/ref#." + s["ext"]]]
        S.append(gen.sc("case-%d" % i, bs, e, ops, t0=t0, tlimit=s.get("limit", end), dump="it", histfile=d + "/ref.hist"))
        s.update(case=d + "/case.json", d=d, sc=S[-1], per=156 * n, tag="%s-%s-%s-n%d-%s" % (s["kind"], s["coord"], "+".join(s["ks"]), n, s["ext"]))
    for l in open(c.run_harness(S, name="mk")):
        r = json.loads(l); s = specs[r["cfg"]["id"]]
        bad = [e for e in r["ev"] if e["res"] != "ok"]
        if bad: c.fail("a valid case runs", {"tag": s["tag"], "scenario": S[r["cfg"]["id"]], "why": bad[0].get("why")}); raise lib.Stop()
        s["nsnap"] = r["ev"][-1]["out"]["saved"]; s["end"] = r["ev"][-1]["it"]; s["hist"] = rd(s["d"] + "/ref.hist")
    paths = [s["d"] + "/ref%d.%s" % (k, s["ext"]) for s in specs for k in range(1, s["nsnap"] + 1)]
    R = restored(c, paths)
    for s in specs: s["refs"] = [R[s["d"] + "/ref%d.%s" % (k, s["ext"])] for k in range(1, s["nsnap"] + 1)]
    for s in specs:
        if any(x is None for x in s["refs"]): c.fail("a complete snapshot is restored", {"tag": s["tag"], "scenario": s["sc"]}); raise lib.Stop()
    return specs

def which(s, it):
    """number of the reference snapshot this is, 0 if none"""
    for k, x in enumerate(s["refs"]):
        if x["fp"] == it["fp"]: return k + 1
    if s["ext"] == "json":
        for k, x in enumerate(s["refs"]):
            if x["nh"] == it["nh"] and abs(unbits(x["t"]) - unbits(it["t"])) <= 1e-6 * (abs(unbits(x["t"])) + 1e-3): return k + 1
    return 0
def disk(c, s, d, R):
    """the observed disk, in the terms of spec/Disk.tla"""
    cands = []; h = rd(d + "/h.hist") or b""
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if not f.endswith("." + s["ext"]): continue
        it = R[p]; cands.append({"name": f, "full": it is not None, "idx": which(s, it) if it else 0, "nh": it["nh"] if it else 0})
    return {"cands": cands, "hlen": len(h), "hgood": same(s, h)}
def same(s, h): return near(h, s["hist"]) if s["ext"] == "json" else good(h, s["hist"])
