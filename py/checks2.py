"""Checks, continued."""
import json, math, os, struct, subprocess, random
import gen, lib, inputs, cli
from checks import check, trace, short_tables, run_case, tiny, KINDS, YR, evolve_cfg
REPO = lib.REPO

def pyroot(c):
    """a scratch copy of /repo's Python package with the model tables of this check beside it"""
    import shutil
    d = os.path.join(c.work, "pyroot")
    if not os.path.exists(d):
        os.makedirs(d); shutil.copytree(REPO + "/posidonius", d + "/posidonius", ignore=shutil.ignore_patterns("__pycache__", "*.pyc", "input"))
        os.symlink(os.path.join(c.work, "input"), d + "/input")
    return d

def python_reader(c, files):
    """what /repo's history reader returns for each file (None: not exercisable here)"""
    p = os.path.join(c.work, "files.json"); json.dump(files, open(p, "w"))
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1"); e.pop("PYTHONPATH", None)
    q = lib.sh(["python3-vt", os.path.join(lib.VERIF, "py", "readhist.py"), pyroot(c), p], env=e, timeout=300)
    out = [json.loads(l) for l in q.stdout.split("\n") if l.startswith("{")]
    if out and "missing" in out[0] and len(out) == 1: out = out * len(files)
    if len(out) != len(files): raise lib.ToolError("reader: %s" % q.stdout[-2000:])
    return out

@check("C06")
def c06(c):
    rng = c.rng; big = c.thorough; S = []
    # one entry per body of whatever state, bit for bit
    t0, end = short_tables(c)
    for rep in range(300 if big else 120):
        n = rng.randrange(1, 11); host = rng.randrange(n)
        ks = gen.kinds(rng) if n > 1 else []
        bs, e = gen.rich(rng, n, host, ks, types=[("BolmontMathis2016", 1.0), ("GalletBolmont2017", 0.8), ("Baraffe2015", 1.0), ("LeconteChabrier2013", 0.0)]) if n > 1 else (gen.system(rng, 1, 0), dict(gen.OFF))
        for x in e:   # declared, but not requested
            if rng.random() < 0.2: e[x] = False
        ops = [["new"]]
        for q in range(3):
            t, dt = rng.uniform(0, end), gen.lu(rng, 1e-6, 10)
            ops += [gen.restate(rng, bs, i) for i in range(n)] + [["helio"]] + ([gen.eff(rng, t)] if n > 1 else []) + ([["denergy"]] if e["tides"] else []) + [["record", t, dt]]
        S.append(gen.sc("state-n%d-%s" % (n, "+".join(ks)), bs, e, ops, t0=t0, tlimit=end))
    # entries written by the steps of runs
    for kind, coord in KINDS * (30 if big else 12):
        ks = gen.kinds(rng); n = rng.choice([2, 3, 4]); host = rng.randrange(n)
        bs, e = run_case(c, rng, n, host, ks)
        dt = rng.uniform(0.002, 0.02)
        for x in e:
            if rng.random() < 0.15: e[x] = False
        ops = [["new"], ["integ", gen.integ(rng, kind, dt, dt * rng.choice([0.5, 1.0, 2.5]), 1e9, coord)], ["iinit"]] + [["iterate", 1]] * 8
        if rng.random() < 0.4: ops += [["save", "r.bin"], ["restore", "r.bin"], ["hist", -1]] + [["iterate", 1]] * 4
        S.append(gen.sc("run-%s-%s-%s-n%d" % (kind, coord, "+".join(ks), n), bs, e, ops, t0=t0, tlimit=end, dump="st", hist=True, **evolve_cfg(c, bs)))
    c.validate("C06", c.run_harness(S))
    # the reader, on files of arbitrary numbers cut anywhere
    files, meta = [], []
    per = 156
    for n in list(range(1, 11)):
        for rep in range(6 if big else 2):
            m = rng.randrange(1, 12)
            vals = lambda: rng.choice([0.0, -0.0, float("inf"), 5e-324, rng.gauss(0, 1), rng.uniform(-1, 1) * 10 ** rng.uniform(-300, 300), -1.5e10])
            by = b""
            for s in range(m):
                for i in range(n): by += struct.pack("<ddi17d", vals(), vals(), i, *[vals() for _ in range(17)])
            cuts = {len(by)} | {per * n * k for k in range(1, m + 1)} | {per * k for k in range(n, n * m)} | {rng.randrange(per * n, len(by) + 1) for _ in range(12)} | {len(by) - 1, per * n + 1}
            cuts = sorted(x for x in cuts if per * n <= x <= len(by))
            if not big: cuts = sorted(rng.sample(cuts, min(len(cuts), 12)))
            for x in cuts:
                f = os.path.join(c.work, "h%d.bin" % len(files)); open(f, "wb").write(by[:x]); files.append(f); meta.append((n, by, x))
    out = python_reader(c, files); skipped = 0
    runs, cur = [], None
    for (n, by, x), o in zip(meta, out):
        if "missing" in o: skipped += 1; continue
        if cur is None or cur[0] is not by:
            cur = (by, []); runs.append(({"tag": "read-n%d" % n, "n": n, "words": list(struct.unpack("<%di" % (len(by) // 4), by))}, cur[1]))
        cur[1].append({"op": "read", "args": [], "res": o["res"], "out": {"n": o["n"], "recs": o["recs"], "bytes": x}})
    c.extra["reader_files"] = len(files) - skipped; c.extra["reader_files_not_exercised"] = skipped
    if skipped: c.assumptions.append("the history reader uses pandas operations this sandbox has no stand-in for: %s" % out[-1].get("missing"))
    if runs: c.validate("C06", trace(c, "c06r", runs))

@check("C08")
def c08(c):
    import re
    rng = c.rng; big = c.thorough; S = []
    t0, end = short_tables(c)
    inv = ["OnlyRequested", "UniqueHosts", "SameHost", "GrReference", "Monotone"]
    r = c.model("ConfigModel", {"MaxBodies": 2, "Emit": "TRUE"}, inv, "CInit", "CNext")
    if big: c.model("ConfigModel", {"MaxBodies": 3, "Emit": "FALSE"}, inv, "CInit", "CNext")
    B = [json.loads(l.replace('\\"', '"')) for l in re.findall(r'^"CFG (.*)"$', r["out"], re.M)]
    c.extra["model_declarations"] = len(B)
    key = lambda d: "tf" if any(x["tides"]["role"] != "none" or x["flat"]["role"] != "none" for x in d["b"]) or set(d["req"]) & {"tides", "flat"} else "gr" if any(x["gr"]["role"] != "none" for x in d["b"]) or "gr" in d["req"] else "disk" if any(x["disk"]["role"] != "none" for x in d["b"]) or "disk" in d["req"] else "we"
    groups = {}
    for d in B: groups.setdefault((len(d["b"]), key(d)), []).append(d)
    def realise(rng, q, b, kaula):
        """a declared body of the model, with numbers"""
        t, f = q["tides"], q["flat"]; v = [0.0, 7.5, 3.25]
        b["tides"] = {"role": t["role"], "model": "none"} if t["role"] == "none" else gen.ctl(rng, t["role"]) if t["model"] == "ctl" else gen.creepm(rng, t["role"], v[t["visc"]])
        b["flat"] = {"role": f["role"], "model": "none"} if f["role"] == "none" else gen.oblate(rng, f["role"]) if f["model"] == "oblate" else gen.creepm(rng, f["role"], v[f["visc"]])
        if t["role"] != "none" and t["model"] == "ctl" and kaula and rng.random() < 0.3: b["tides"] = gen.kaula(rng, t["role"])
        b["gr"] = dict(q["gr"])
        if b["gr"]["impl"] == "kidder" and rng.random() < 0.3: b["gr"]["impl"] = "anderson"
        b["disk"] = {"role": q["disk"]["role"]} if q["disk"]["role"] != "central" else gen.disk(rng) if not q["disk"]["void"] else gen.disk(rng, inner=0.0, outer=0.0)
        if b["disk"]["role"] == "central" and not q["disk"]["void"] and rng.random() < 0.2: b["disk"]["inner"] = 0.0
        if q["wind"]["on"]: b["wind"] = gen.wind(rng, b)
        if q["evol"]["on"]: b["evol"] = {"type": rng.choice(["Baraffe2015", "BolmontMathis2016", "Baraffe1998"]), "mass": 1.0, "diss": False}
        o = ["tides", "flat", "gr", "wind", "disk", "evol"]; rng.shuffle(o); b["order"] = o
    def add(tag, n, host, decl, req, **kw):
        bs = gen.system(rng, n, host, coplanar=True, close=True, emax=0.2)
        # the spectral model takes the most massive body for the centre of the orbits
        for q, b in zip(decl, bs): realise(rng, q, b, decl[host]["tides"]["role"] == "central")
        # creep needs bound orbits around its centre: bodies on nested orbits around the most massive one have them
        creep = any(q[e]["model"] == "creep" for q in decl for e in ("tides", "flat")); centre = all(q["tides"]["role"] != "central" and q["flat"]["role"] != "central" for i, q in enumerate(decl) if i != host)
        ops = [["new"], ["helio"]] + ([["roche"], ["gravity", "none"]] + ([["effects", 0.0, True, True, True, "none"]] if centre or not creep else []) if n > 1 else [])
        S.append(gen.sc(tag, bs, {e: True for e in req}, ops, t0=t0, tlimit=end))
    # every declaration of the model, together with random ones of the other groups
    for (n, g), L in sorted(groups.items()):
        pick = L if big else rng.sample(L, min(len(L), 900))
        for d in pick:
            mm = d["mm"]; dec = [json.loads(json.dumps(x)) for x in d["b"]]; req = list(d["req"])
            if rng.random() < 0.5:
                for g2, fs in (("tf", ("tides", "flat")), ("gr", ("gr",)), ("disk", ("disk",)), ("we", ("wind", "evol"))):
                    if g2 == g or (n, g2) not in groups: continue
                    o = rng.choice(groups[(n, g2)])
                    for x, y in zip(dec, o["b"]):
                        for k in fs: x[k] = y[k]
                    req += o["req"]
            add("model-n%d-%s" % (n, g), n, mm - 1, dec, req)
    # more bodies: mostly consistent declarations with one thing wrong, and too many bodies
    for rep in range(1500 if big else 250):
        n = rng.choice([3, 4, 5, 6, 8, 10, 10, 11, 12, 13]); host = rng.randrange(n)
        P = {"tides": {"role": "none", "model": "none", "visc": 0}, "flat": {"role": "none", "model": "none", "visc": 0}, "gr": {"role": "none", "impl": "none"}, "disk": {"role": "none", "void": False}, "wind": {"on": False}, "evol": {"on": False}}
        dec = [json.loads(json.dumps(P)) for _ in range(n)]; th = rng.randrange(n)
        for i, q in enumerate(dec):
            for e, m in (("tides", "ctl"), ("flat", "oblate")):
                if i == th or rng.random() < 0.5: q[e].update(role="central" if i == th else "orbiting", model=m)
            if i == host: q["gr"] = {"role": "central", "impl": "kidder"}
            elif rng.random() < 0.5: q["gr"]["role"] = "orbiting"
            q["disk"] = {"role": "central" if i == th else rng.choice(["none", "orbiting"]), "void": False}
            q["wind"]["on"] = rng.random() < 0.3; q["evol"]["on"] = rng.random() < 0.1
        req = [e for e in gen.OFF if rng.random() < 0.7]
        for x in range(rng.choice([0, 0, 1, 2])):
            i = rng.randrange(n); w = rng.randrange(7); q = dec[i]
            if w < 2: e = ["tides", "flat"][w]; q[e] = {"role": "central", "model": "ctl" if w == 0 else "oblate", "visc": 0}
            elif w == 2: q["gr"] = {"role": "central", "impl": rng.choice(["none", "newhall"])}
            elif w == 3: q["disk"] = {"role": "central", "void": rng.random() < 0.5}
            elif w == 4: q["tides"] = {"role": q["tides"]["role"] if q["tides"]["role"] != "none" else "orbiting", "model": "creep", "visc": 1}
            elif w == 5: e = rng.choice(["tides", "flat", "gr", "disk"]); q[e] = json.loads(json.dumps(P[e]))
            else: q["tides"].update(role=q["tides"]["role"] if q["tides"]["role"] != "none" else "orbiting", model="creep", visc=1); q["flat"].update(role=q["flat"]["role"] if q["flat"]["role"] != "none" else "orbiting", model="creep", visc=rng.choice([1, 2]))
        add("many-n%d" % n, n, host, dec, req)
    # equal masses: the first of the heaviest is the reference
    for s in S:
        if s["tag"].startswith("many") and rng.random() < 0.3 and len(s["bodies"]) > 2 and not any(b["tides"]["model"] == "kaula" for b in s["bodies"]):
            i, j = rng.sample(range(len(s["bodies"])), 2); m = max(b["m"] for b in s["bodies"]); s["bodies"][i]["m"] = s["bodies"][j]["m"] = m
    c.validate("C08", c.run_harness(S))
