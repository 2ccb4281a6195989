"""C26: the analysis of a history."""
import json, math, os
import gen, lib
from checks import check
from checks import *
from checks2 import pyroot
from checks4 import GRAV, orbit, statevec

def bit(v):
    if isinstance(v, bool) or isinstance(v, str): return v
    if isinstance(v, float): return lib.bits(v)
    if isinstance(v, dict): return {k: bit(z) for k, z in v.items()}
    return [bit(z) for z in v] if isinstance(v, list) else v
def history_of(rng):
    """snapshots of bodies anywhere: star with planets, a binary, planets listed in any order"""
    n = rng.choice([2, 2, 3, 3, 4, 5]); ref = rng.choice([0, 0, 0, rng.randrange(n)]); snaps = []; t = rng.choice([0.0, 0.0, gen.lu(rng, 1, 1e6), 36400.0, 36525.0 - rng.choice([0, 1, 2]) * 365.25])
    ms = [gen.lu(rng, 1e-7, 0.5) if rng.random() < 0.5 else gen.lu(rng, 1e-7, 1e-3) for _ in range(n)]; ms[ref] = rng.uniform(0.5, 2)
    for _ in range(rng.choice([1, 2, 3, 5])):
        o = gen.rvec(rng, rng.choice([0.0, 1e-3, 1.0])); w = gen.rvec(rng, rng.choice([0.0, 1e-5, 1e-3])); b = []
        for i in range(n):
            x, v = ([0.0] * 3, [0.0] * 3) if i == ref else statevec(rng, GRAV * (ms[ref] + ms[i]))
            b.append({"m": ms[i], "x": [p + q for p, q in zip(x, o)], "v": [p + q for p, q in zip(v, w)], "rest": [gen.lu(rng, 1e-3, 1e3) for _ in range(11)]})
        snaps.append({"t": t, "b": b}); t += rng.choice([1.0, 365.25, gen.lu(rng, 1, 1e5)])
    return {"n": n, "ref": ref, "disc": rng.random() < 0.3, "snaps": snaps}
def heat(rng):
    return {"a": gen.lu(rng, 1e-3, 1), "e": rng.choice([0.0, rng.uniform(0, 0.9)]), "w": gen.lu(rng, 1e-3, 100), "ob": rng.choice([0.0, math.pi / 2, rng.uniform(0, math.pi)]), "G": GRAV,
            "mp": gen.lu(rng, 1e-7, 1e-2), "ms": rng.uniform(0.05, 2), "rp": gen.lu(rng, 1e-6, 1e-3), "kt": gen.lu(rng, 1e-6, 1e-1), "arr": rng.random() < 0.3}
def librating(rng):
    q, p = rng.choice([(2, 1), (3, 2), (4, 3), (3, 1), (5, 3), (8, 5), (1, 1)]); N = rng.choice([3, 10, 50]); o = {"res": [q, p], "centre": rng.choice([0.0, 0.0, 180.0, rng.uniform(-90, 270)]), "thr": rng.choice([20.0, 40.0, rng.uniform(5, 90)])}
    amp = rng.choice([0.0, 10.0, 40.0, 60.0, 120.0, 400.0]); wi, wo = rng.uniform(0, 360), rng.uniform(0, 360); ph = rng.uniform(0, 360) if rng.random() < 0.3 else o["centre"]
    for k in ("gi", "ni", "Mi", "go", "no", "Mo"): o[k] = []
    which = rng.randrange(q - p + 1)
    for j in range(N):
        wi += rng.uniform(-5, 5); wo += rng.uniform(-5, 5); ni, no = rng.uniform(0, 360), rng.uniform(0, 360); Mi = rng.uniform(0, 360)
        phi = ph + amp * rng.uniform(-1, 1)
        # phi = q (Mo + wo) - p (Mi + wi) - which wi - (q - p - which) wo
        Mo = (phi + p * (Mi + wi) + which * wi + (q - p - which) * wo) / q - wo
        for k, z in (("gi", wi - ni), ("ni", ni), ("Mi", Mi), ("go", wo - no), ("no", no), ("Mo", Mo)): o[k].append(z % 360.0 if k != "Mo" else z)
    return o
def means(c, reps):
    """heating recorded by the program at equal steps along an orbit, for axes leaning all ways"""
    rng = c.rng; S = []; args = []
    for _ in range(reps):
        ms = rng.uniform(0.1, 1.4); mp = gen.lu(rng, 1e-6, 1e-3); e = rng.choice([0.0, rng.uniform(0, 0.45)]); a = gen.lu(rng, 0.02, 0.3); gm = GRAV * (ms + mp)
        ob = rng.choice([0.0, rng.uniform(0, math.pi)]); w = math.sqrt(gm / a**3) * rng.choice([1.0, gen.lu(rng, 0.3, 10)])
        st = gen.body(ms, gen.RSUN, 0.3, [0, 0, 0], [0, 0, 0], [0, 0, 1.0]); pl = gen.body(mp, gen.lu(rng, 1e-5, 1e-3), 0.5, [a, 0, 0], [0, math.sqrt(gm / a), 0], [0, 0, 1.0])
        st["tides"] = gen.ctl(rng, "central"); st["tides"]["k2"] = 0.3; pl["tides"] = gen.ctl(rng, "orbiting")
        N = 96; ops = [["new"]]; u = [gen.rvec(rng, 1.0), gen.rvec(rng, 1.0)]
        h = u[0]; d = sum(x * y for x, y in zip(u[0], u[1])); P = [y - d * x for x, y in zip(u[0], u[1])]; l = math.hypot(*P); P = [x / l for x in P]
        Q = [h[1] * P[2] - h[2] * P[1], h[2] * P[0] - h[0] * P[2], h[0] * P[1] - h[1] * P[0]]
        for j in range(N):
            M = 2 * math.pi * j / N; E = M
            for _ in range(60): E -= (E - e * math.sin(E) - M) / (1 - e * math.cos(E))
            b = math.sqrt(1 - e * e); n = math.sqrt(gm / a**3); r = 1 - e * math.cos(E)
            X, Y = a * (math.cos(E) - e), a * b * math.sin(E); VX, VY = -n * a * math.sin(E) / r, n * a * b * math.cos(E) / r
            x = [X * p + Y * q for p, q in zip(P, Q)]; v = [VX * p + VY * q for p, q in zip(P, Q)]
            for k in range(4 if ob else 1):
                f = math.pi / 2 * k + 0.3
                sp = [w * (math.cos(ob) * hh + math.sin(ob) * (math.cos(f) * p + math.sin(f) * q)) for hh, p, q in zip(h, P, Q)]
                ops += [["set", 1, {"x": x, "v": v, "sp": sp, "lazy": False}], ["set", 0, {"x": [0.0] * 3, "v": [0.0] * 3}], ["helio"], gen.eff(rng, 0.0), ["denergy"]]
        S.append(gen.sc("mean", [st, pl], {"tides": True, "flat": False, "gr": "none", "wind": False, "disk": False, "evol": False}, ops, dump="all"))
        sg = pl["tides"]["diss"] * pl["tides"]["scale"]
        args.append({"a": a, "e": e, "w": w, "ob": ob, "G": GRAV, "mp": mp, "ms": ms, "rp": pl["r"], "kt": 1.5 * pl["r"]**5 * sg / GRAV, "arr": False})
    for l in open(c.run_harness(S, "mean")):
        d = json.loads(l); ev = d["ev"]; o = args[d["cfg"]["id"]]; o["de"] = [e["st"]["b"][1]["de"] for e in ev if e["op"] == "denergy"]
    return args
@check("C26")
def c26(c):
    rng = c.rng; big = c.thorough; P = []
    for rep in range(300 if big else 60):
        py = []
        for _ in range(4): py += [("classify", history_of(rng)), ("resdata", {})]
        for _ in range(6):
            py.append(("possible", {"ratio": rng.choice([1.5, 2.0, 1.0, 1.02, gen.lu(rng, 1, 8), gen.lu(rng, 1, 30)]), "unc": rng.choice([0.05, 0.01, 0.2, rng.uniform(0, 0.3)]), "den": rng.choice([12, 5, 1, 7, 20]), "num": rng.choice([20, 5, 12, 8]), "samp": rng.choice([10, 1, 4, 30])}))
            py += [("isres", librating(rng)), ("edot", heat(rng))]
        py.append(("shape", {"n": rng.randrange(1, 60)})); P.append(py)
    m = means(c, 40 if big else 8); P.append([("mean", o) for o in m])
    f = os.path.join(c.work, "py.json"); flat = [q for py in P for q in py]; json.dump([(op, {k: v for k, v in o.items() if k != "de"}) for op, o in flat], open(f, "w"))
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1"); e.pop("PYTHONPATH", None)
    r = lib.sh(["python3-vt", os.path.join(lib.VERIF, "py", "pyanalysis.py"), pyroot(c), f], env=e, timeout=600)
    out = [json.loads(l) for l in r.stdout.split("\n") if l.startswith("{")]
    if len(out) != len(flat) + 1: raise lib.ToolError("pyanalysis: %s" % r.stdout[-2000:])
    runs = []; it = iter(out[1:])
    for py in P:
        ev = []
        for op, o in py:
            a = next(it); x = bit({k: v for k, v in o.items() if k != "de"})
            if "de" in o: x["de"] = o["de"]
            if op == "resdata" and a["res"] == "ok": x = {"rows": a["out"]["given"], "ms": a["out"]["ms"]}; a["out"] = {"rows": a["out"]["rows"]}
            ev.append({"op": op, "args": [x], "res": a["res"], "out": a["out"], "why": a.get("why", "")})
        runs.append(({"tag": "analysis", "G": out[0]["G"]}, ev))
    c.validate("C26", trace(c, "py", runs))
