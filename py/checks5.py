"""C25: the Python front end."""
import json, math, os
import gen, inputs, lib
from checks import check
from checks2 import pyroot
from checks import *

def limits(c, b):
    """what the model table of a body covers, in days"""
    e = b["evol"]; t = e["type"]
    if t == "none": return {"on": False, "known": True, "lo": 0.0, "hi": 0.0}
    m = e["mass"]; near = [x for x in inputs.MASSES[t] if abs(x - m) < 1e-9] if t != "LeconteChabrier2013" else [0.0]
    if not near: return {"on": True, "known": False, "lo": 0.0, "hi": 0.0}
    rows = [r[0] for r in c.tables[inputs.path(t, near[0])]]
    if t == "GalletBolmont2017": rows = [10 ** x for x in rows]
    if t == "Leconte2011":
        a = [r[0] for r in c.tables["Leconte_2011/rg2BD.dat"]]; rows = [x for x in rows if a[0] <= x <= a[-1]]
    return {"on": True, "known": True, "lo": rows[0] * 365.25, "hi": rows[-1] * 365.25}

def ktable(rng):
    n = rng.choice([1, 2, 5, 200, 1024])
    w = sorted(gen.lu(rng, 1e-8, 1e-2) for _ in range(n))
    return {"freq": w, "re": [rng.uniform(0, 1) for _ in w], "im": [-rng.uniform(0, 1) for _ in w]}

def front_end(c, reps, rough=False):
    rng = c.rng; S = []
    inputs.write(c, headers=True, smooth=not rough, seed="rough" if rough else None)
    lo, hi = 365.25e6, 365.25e7
    TY = [(t, m) for t, ms in inputs.MASSES.items() for m in ms if t == "Leconte2011" or not rough]
    for rep in range(reps):
        n = rng.choice([1, 2, 2, 3, 4, 6, 9, 10, 10, 11, 12]) if rep % 3 else rng.choice([2, 3, 5]); host = rng.randrange(n)
        ks = [k for k in gen.ALLK if rng.random() < 0.5]
        if "creep" in ks and ("ctl" in ks or "kaula" in ks) and rng.random() < 0.8: ks = [k for k in ks if k not in ("ctl", "kaula")]
        bs, e = gen.rich(rng, n, host, ks, types=TY, central=rng.choice([None, None, rng.randrange(n)]))
        for b in bs:
            b["s"] = gen.rvec(rng, gen.lu(rng, 0.1, 10))
            for k in ("tides", "flat"):
                if b[k]["model"] == "kaula": b[k] = dict({"role": b[k]["role"], "model": "kaula"}, **ktable(rng))
            o = ["tides", "flat", "gr", "wind", "disk", "evol"]; rng.shuffle(o); b["order"] = o
            if "diss" not in b["evol"]: b["evol"]["diss"] = False
            if rng.random() < 0.15: b["ref"] = rng.randrange(-1, n)
            if rng.random() < 0.1: b["x"] = [float(round(z * 10)) for z in b["x"]]; b["m"] = rng.choice([1.0, 2.0, b["m"]])
        if len(bs) > 1 and rng.random() < 0.15:      # equal masses
            i, j = rng.sample(range(n), 2); bs[i]["m"] = bs[j]["m"] = max(b["m"] for b in bs)
        for k in e:                                   # requested and provided need not agree
            if rng.random() < 0.1: e[k] = not e[k]
        # one thing wrong, or unusual
        w = rng.randrange(17) if not rough else 7; i = rng.randrange(n); q = bs[i]
        if w == 0: q["tides"] = gen.ctl(rng, "central") if q["flat"]["model"] != "creep" else q["tides"]
        if w == 1: q["flat"] = gen.oblate(rng, "central") if q["tides"]["model"] != "creep" else q["flat"]
        if w == 2: q["gr"] = {"role": "central", "impl": rng.choice(["kidder", "anderson", "newhall"])}
        if w == 3: q["disk"] = gen.disk(rng) if rng.random() < 0.5 else gen.disk(rng, inner=rng.choice([0.0, 0.0, 0.05]), outer=rng.choice([0.0, 0.0, 50.0]))
        if w == 4: q["tides"] = gen.creepm(rng, "orbiting", 1e5)
        if w == 5: v = rng.choice([1e5, 1e-5, 1e-9]); q["tides"] = gen.creepm(rng, "orbiting", v); q["flat"] = gen.creepm(rng, "orbiting", v * rng.choice([1, 2, 1 + 1e-3]))
        if w == 6: q["evol"] = {"type": rng.choice(["BolmontMathis2016", "GalletBolmont2017", "Baraffe2015", "Leconte2011", "Baraffe1998"]), "mass": rng.choice([0.35, 0.5, 1.0, 1.5, 0.012, 0.05]), "diss": False}
        if w == 7:
            t = rng.choice(TY); q["evol"] = {"type": t[0], "mass": t[1], "diss": rng.random() < 0.5}; e["evol"] = rng.random() < 0.8
        if w == 11: q["flat"] = gen.creepm(rng, "orbiting", 1e5); q["tides"] = rng.choice([{"role": "none", "model": "none"}, gen.ctl(rng, "orbiting")])
        if w in (8, 9, 10):                           # one effect hosted elsewhere: a single centre, but perhaps not a common one
            k = {8: "tides", 9: "flat", 10: "gr"}[w]
            for b in bs:
                if b[k].get("role") == "central" and b is not q: b[k], q[k] = (dict(q[k], role="orbiting") if q[k].get("role") == "orbiting" else q[k]), b[k]
        t0 = rng.uniform(lo * 1.5, lo * 3) if rng.random() < 0.85 else rng.choice([lo * 0.9, 0.0, lo * 1.1, hi * 1.1])
        tl = gen.lu(rng, 1.0, 0.5 * hi) if rng.random() < 0.85 else rng.choice([hi * 0.95, hi, hi * 10])
        for b in bs: b["tab"] = limits(c, b)
        # no table end within rounding of the requested times
        if any(abs(t - z) < 1e-6 * z for b in bs if b["tab"]["on"] for t, z in ((t0, b["tab"]["lo"]), (t0 + tl, b["tab"]["hi"]))): continue
        k, co = rng.choice(KINDS) if isinstance(KINDS[0], tuple) else (rng.choice(KINDS), None)
        g = {"kind": k, "dt": rng.choice([0.08, 0.01, 1.0, gen.lu(rng, 1e-4, 1)]), "rp": rng.choice([100.0, 365.25, gen.lu(rng, 1, 1e6)]), "hp": rng.choice([1.0, 36525.0, gen.lu(rng, 1, 1e6)])}
        if co: g["coord"] = co
        # a model nobody named keeps the body's own size
        if rng.random() < 0.1 and q["tab"]["on"]: q["r"] = gen.RSUN * rng.uniform(0.5, 2)
        S.append(gen.sc("rough" if rough else "case", bs, e, [], t0=t0, tlimit=tl, integ=g, dump="all", keepgoing=True))
    f = os.path.join(c.work, "cases.json"); json.dump(S, open(f, "w"))
    d = os.path.join(c.work, "pycases"); os.makedirs(d, exist_ok=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1"); env.pop("PYTHONPATH", None)
    r = lib.sh(["python3-vt", os.path.join(lib.VERIF, "py", "pybuild.py"), pyroot(c), f, d], env=env, timeout=600)
    out = [json.loads(l) for l in r.stdout.split("\n") if l.startswith("{")]
    if len(out) != len(S): raise lib.ToolError("pybuild: %s" % r.stdout[-2000:])
    for s, o in zip(S, out):
        s["ops"] = [["note", {k: o[k] for k in ("res", "again", "why", "kind") if k in o}], ["new"], ["integ", s["integ"]], ["iinit"], ["keep"], ["restore", o["file"]] if o["res"] == "ok" else ["note", {"res": "none", "again": True}], ["differ"]]
    for k, z in (("accepted", True), ("refused", False)): c.extra[k] = c.extra.get(k, 0) + sum((o["res"] == "ok") == z for o in out)
    c.validate("C25", c.run_harness(S, "rough" if rough else "t"))

@check("C25")
def c25(c):
    front_end(c, 3000 if c.thorough else 500)
    front_end(c, 100 if c.thorough else 20, rough=True)
