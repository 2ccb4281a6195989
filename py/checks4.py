"""Checks of relativity, creep and Kaula tides, independence and order of bodies."""
import json, math, os, random
import gen, lib, inputs
from checks import check, trace, short_tables, run_case, KINDS, YR, evolve_cfg

def gr_system(c, rng, n, host, impl, central=None):
    """bodies with relativity; spins large enough for spin terms to matter in binary64"""
    # from ordinary orbits to ones on which the second order is well above rounding (bodies shrunk in proportion)
    f = 1.0 if rng.random() < 0.6 else gen.lu(rng, 1e-4, 0.1)
    bs = gen.system(rng, n, host, a0=f * gen.lu(rng, 0.03, 0.2), emax=0.4, spacing=(2.5, 3.5), msmall=(1e-7, 0.05) if rng.random() < 0.4 else (1e-7, 1e-3), boost=None if f == 1.0 else False)
    for b in bs: b["r"] *= f
    h = host if central is None else central
    for i, b in enumerate(bs):
        b["s"] = gen.rvec(rng, 2 * math.pi / gen.lu(rng, 0.05, 5))
        if i != h and rng.random() < 0.8: b["gr"] = {"role": "orbiting", "impl": "none"}
    bs[h]["gr"] = {"role": "central", "impl": impl}
    if n > 1 and not any(b["gr"]["role"] == "orbiting" for b in bs): bs[(h + 1) % n]["gr"] = {"role": "orbiting", "impl": "none"}
    return bs

@check("C17")
def c17(c):
    big = c.thorough; rng = c.rng; S = []
    for impl in ("kidder", "anderson", "newhall"):
        for rep in range(300 if big else 60):
            n = rng.choice([2, 2, 3, 4, 6]); host = rng.randrange(n)
            bs = gen.special(rng, gr_system(c, rng, n, host, impl), host); ops = [["new"], ["helio"]]
            for _ in range(4):
                if rng.random() < 0.7: ops.append(gen.restate(rng, bs, rng.randrange(n)))
                if impl == "kidder" and rng.random() < 0.3: ops.append(["wreck", rng.choice([1.0, -3.0])])
                ig = rng.choice(gen.IG); both = rng.random()
                ops += [["gravity", ig], ["helio"], ["effects", rng.uniform(0, 10), True, both < 0.75, both > 0.25, ig]]
            S.append(gen.sc("%s-n%d-h%d" % (impl, n, host), bs, {"gr": True}, ops))
    c.validate("C17", c.run_harness(S))

G = 6.67428e-11 / 1.49597870700e11**3 * 1.9818e30 * 86400.0**2
def visc_for(b, rate):
    """viscosity that gives body b the relaxation rate (1/day)"""
    return 3 * G * b["m"]**2 / (8 * math.pi * b["r"]**4 * rate)
def relmotion(bs, i, h):
    x = [p - q for p, q in zip(bs[i]["x"], bs[h]["x"])]; v = [p - q for p, q in zip(bs[i]["v"], bs[h]["v"])]
    r = math.sqrt(sum(q*q for q in x)); gm = G * (bs[i]["m"] + bs[h]["m"]); ia = 2/r - sum(q*q for q in v)/gm
    return math.sqrt(gm * ia**3) if ia > 0 else math.sqrt(gm / r**3)
def flatstate(rng, bs, i, h, keep=False):
    """another state of body i of a coplanar system, spinning about the axis of the orbits"""
    o = gen.kick(rng, bs[i], 0.05); o["x"][2] = 0.0; o["v"][2] = 0.0
    n = relmotion(bs, i if i != h else (h + 1) % len(bs), h)
    o["sp"] = [0.0, 0.0, n * rng.choice([0.0, rng.uniform(0.2, 0.95), rng.uniform(0.95, 1.3), rng.uniform(1.3, 8), -rng.uniform(0, 2)])]
    o["lazy"] = rng.random() < 0.7
    return ["set", i, o]
def creep_system(rng, n, host, other=True):
    bs = gen.system(rng, n, host, a0=gen.lu(rng, 0.01, 0.05), emax=0.35, spacing=(1.6, 2.5), coplanar=True, close=True, boost=False)
    for i, b in enumerate(bs):
        b["s"] = [0.0, 0.0, relmotion(bs, i if i != host else (host + 1) % n, host) * gen.lu(rng, 0.3, 5)]
        nn = relmotion(bs, i if i != host else (host + 1) % n, host); v = visc_for(b, nn * gen.lu(rng, 0.02, 50)); role = "central" if i == host else "orbiting"
        w = rng.random() if other else 0.1
        if w < 0.7: b["tides"] = gen.creepm(rng, role, v)
        elif w < 0.85 or role == "central": b["tides"] = gen.ctl(rng, role)
        w = rng.random() if other else 0.1
        if w < 0.7: b["flat"] = gen.creepm(rng, role, v) if b["tides"]["model"] in ("creep", "none") else gen.oblate(rng, role)
        elif w < 0.85 or role == "central": b["flat"] = gen.oblate(rng, role) if b["tides"]["model"] != "creep" else gen.creepm(rng, role, v)
    return bs

@check("C15")
def c15(c):
    big = c.thorough; rng = c.rng; S = []
    for on in ({"tides": True}, {"flat": True}, {"tides": True, "flat": True}):
        for rep in range(600 if big else 120):
            n = rng.choice([2, 2, 3, 4, 5]); host = rng.randrange(n)
            bs = creep_system(rng, n, host, other=rng.random() < 0.5); ops = [["new"], ["helio"]]
            for _ in range(5):
                for _ in range(rng.randrange(3)): ops.append(flatstate(rng, bs, rng.randrange(n), host))
                if rng.random() < 0.2: ops.append(["wreck", rng.choice([1.0, -3.0])])
                both = rng.random()
                ops += [["helio"], ["effects", rng.uniform(0, 10), True, both < 0.75, both > 0.25, rng.choice(gen.IG)]]
            S.append(gen.sc("%s-n%d-h%d" % ("+".join(sorted(on)), n, host), bs, on, ops))
    c.validate("C15", c.run_harness(S))

def kaula_table(rng, star, n=None, elastic=False):
    """complex Love numbers at increasing frequencies (rad/s); signed frequencies for a star"""
    n = n or rng.choice([1, 2, 3, 7, 30, 200, 1024] if not elastic else [3, 30])
    lo, hi = (1e-9, gen.lu(rng, 3e-5, 3e-2))
    if star:
        w = sorted(gen.lu(rng, lo, hi) * rng.choice([1, -1]) for _ in range(n))
    else:
        w = sorted(gen.lu(rng, lo, hi) for _ in range(n))
    k2 = rng.uniform(0.1, 1.0); tau = gen.lu(rng, 1e2, 1e7)
    re = [k2 / (1 + (tau * x)**2) + 0.05 + 0.02 * rng.random() for x in w]
    im = [0.0 if elastic else -k2 * tau * x / (1 + (tau * x)**2) * rng.uniform(0.9, 1.1) for x in w]
    if len(set(w)) < n: return kaula_table(rng, star, n, elastic)
    return {"freq": w, "re": re, "im": im}
def kaulam(rng, role, elastic=False): return dict({"role": role, "model": "kaula"}, **kaula_table(rng, role == "central", elastic=elastic))
def circular(bs, i, h):
    """velocity that puts body i on a circular orbit around h"""
    x = [p - q for p, q in zip(bs[i]["x"], bs[h]["x"])]; r = math.hypot(x[0], x[1]); v = math.sqrt(G * (bs[i]["m"] + bs[h]["m"]) / r)
    return [bs[h]["v"][0] - v * x[1] / r, bs[h]["v"][1] + v * x[0] / r, bs[h]["v"][2]]
def kaula_system(rng, n, host, planar, central, mix):
    bs = gen.system(rng, n, host, a0=gen.lu(rng, 0.01, 0.05), emax=0.45, spacing=(1.6, 2.5), coplanar=planar, close=True, boost=False)
    el = rng.random() < 0.3
    for i, b in enumerate(bs):
        nn = relmotion(bs, i if i != central else (central + 1) % n, central)
        b["s"] = [0.0, 0.0, nn * gen.lu(rng, 0.1, 6)] if planar else gen.rvec(rng, nn * gen.lu(rng, 0.1, 6))
        role = "central" if i == central else "orbiting"; w = rng.random()
        if w < 0.7 or not mix: b["tides"] = kaulam(rng, role, elastic=el)
        elif w < 0.8 and planar and central == host: b["tides"] = gen.creepm(rng, role, visc_for(b, nn * gen.lu(rng, 0.02, 50)))
        elif w < 0.9 or role == "central": b["tides"] = gen.ctl(rng, role)
    if central != host:                 # the others are not bound to the tidal host
        for i, b in enumerate(bs):
            if i not in (host, central): b["tides"] = {"role": "none", "model": "none"}
    return bs
@check("C14")
def c14(c):
    big = c.thorough; rng = c.rng; S = []
    for planar in (True, True, True, False):
        for rep in range(300 if big else 45):
            n = rng.choice([2, 2, 3, 4, 5]); host = rng.randrange(n); cen = host if rng.random() < 0.8 else rng.randrange(n)
            bs = kaula_system(rng, n, host, planar, cen, rng.random() < 0.5); ops = [["new"], ["helio"]]
            for _ in range(5):
                for _ in range(rng.randrange(3)):
                    i = rng.randrange(n); o = flatstate(rng, bs, i, cen) if planar else gen.restate(rng, bs, i)
                    if planar:
                        o[2]["sp"][2] = abs(o[2]["sp"][2])
                        if i != cen and rng.random() < 0.25: o[2]["x"] = list(bs[i]["x"]); o[2]["v"] = circular(bs, i, cen)
                    ops.append(o)
                if rng.random() < 0.2: ops.append(["wreck", rng.choice([1.0, -3.0])])
                both = rng.random()
                ops += [["helio"], ["effects", rng.uniform(0, 10), True, both < 0.75, both > 0.25, rng.choice(gen.IG)]]
            S.append(gen.sc("%s-n%d-h%d-c%d" % ("planar" if planar else "inclined", n, host, cen), bs, {"tides": True}, ops))
    # tables with a point at exactly the frequency of a tide (those that depend on the orbit alone are its multiples)
    E, gc = [], 6.67428e-11 / (1.49597870700e11 * 1.49597870700e11 * 1.49597870700e11) * 1.9818e30 * (86400.0 * 86400.0)
    for rep in range(150 if big else 30):
        n = rng.choice([2, 2, 3]); host = rng.randrange(n); bs = kaula_system(rng, n, host, True, host, False)
        d = lambda i, k: [p - q for p, q in zip(bs[i][k], bs[host][k])]
        E.append(gen.sc("exact-n%d-h%d" % (n, host), bs, {"tides": True}, [["new"]] + [["tokep", {"x": d(i, "x"), "v": d(i, "v"), "gm": gc * (bs[host]["m"] + bs[i]["m"])}] for i in range(n) if i != host] + [["helio"], ["effects", 0.0, True, True, True, "none"]]))
    for l in open(c.run_harness([dict(s) for s in E], "pre")):
        o = json.loads(l); s = E[o["cfg"]["id"]]; per = [lib.unbits(e["out"]["el"]["per"]) for e in o["ev"] if e["op"] == "tokep" and e["res"] == "ok"]
        if len(per) != len(s["bodies"]) - 1: continue
        host = next(i for i, b in enumerate(s["bodies"]) if b["tides"]["role"] == "central"); per.insert(host, per[0])
        for b, P in zip(s["bodies"], per):
            t = b["tides"]; w = 2 * math.pi / (P * 86400.0) * rng.choice([1, 1, 2])
            n = rng.choice([3, 10, 200]); k = rng.randrange(1, n - 1); f = sorted(w * gen.lu(rng, 1e-3, 0.99) for _ in range(k)); g = sorted(w * gen.lu(rng, 1.01, 1e3) for _ in range(n - 1 - k))
            if t["model"] != "kaula" or len(set(f + g)) < n - 1: continue
            if t["role"] == "central" and rng.random() < 0.5: f = [-x for x in reversed(f)]
            t["freq"] = f + [w] + g
            t["re"] = [rng.uniform(0.1, 1) for _ in range(n)]; t["im"] = [-math.copysign(rng.uniform(0.01, 1), x) for x in t["freq"]]
        S.append(s)
    c.validate("C14", c.run_harness(S))

def apart(bs, xs, f=4.0):
    """no two bodies near contact or tidal disruption, none unbound by the placing"""
    for i in range(len(bs)):
        for j in range(i):
            p, q = bs[i], bs[j]; d = math.dist(xs[i], xs[j]); big, lit = (p, q) if p["m"] >= q["m"] else (q, p)
            if d < f * (p["r"] + q["r"]) or d < f * lit["r"] * (big["m"] / lit["m"])**(1 / 3): return False
    return True
def snapshot_state(rng, bs, coplanar, f=0.03):
    """a state of all bodies: `set` operations by body, ready to be repeated"""
    for _ in range(200):
        out = [gen.kick(rng, b, f) for b in bs]
        if apart(bs, [o["x"] for o in out]): break
        f *= 0.9
    else: out = [{"x": list(b["x"]), "v": list(b["v"])} for b in bs]
    for b, o in zip(bs, out):
        I = b["m"] * (b["rg"] * b["r"])**2
        sp = [0.0, 0.0, b["s"][2] * rng.uniform(0.3, 3)] if coplanar else gen.rvec(rng, 2 * math.pi / gen.lu(rng, 0.2, 20))
        if rng.random() < 0.05: sp = [0.0, 0.0, 0.0]
        o["L"] = [I * s for s in sp]
    return out
def put(state, perm): return [["set", q, state[i]] for q, i in enumerate(perm)]
def mixture(rng, n, host, c, **kw):
    ks = gen.kinds(rng)
    if "creep" in ks and rng.random() < 0.5: ks = [k for k in ks if k != "creep"] + ["ctl"]
    bs, e = gen.rich(rng, n, host, ks, types=[("BolmontMathis2016", 1.0), ("GalletBolmont2017", 0.8), ("Baraffe2015", 1.0), ("Baraffe1998", 1.0), ("LeconteChabrier2013", 0.0)], **kw)
    cop = "creep" in ks
    for b in bs:
        if cop: b["s"] = [0.0, 0.0, math.sqrt(sum(x * x for x in b["s"]))]
    return ks, bs, e, cop
EFF = ["tides", "flat", "gr", "wind", "disk", "evol"]
def visit(rng, st, perm, t, both, ig, ob=True):
    return put(st, perm) + [["gravity", ig], ["helio"], ["effects", t, True, both != 1, both != 2, ig]]

@check("C09")
def c09(c):
    big = c.thorough; rng = c.rng; S = []
    t0, tl = short_tables(c)
    for rep in range(600 if big else 140):
        n = rng.choice([1, 2, 2, 3, 4, 5, 8]); host = rng.randrange(n)
        ks, bs, e, cop = mixture(rng, n, host, c, part=rng.choice([0.4, 0.85]))
        # effects that are declared but switched off
        off = []
        if rng.random() < 0.6:
            for k in gen.ksubset(rng, EFF, 0.3):
                if e[k]: e[k] = False
        off = [k for k in EFF if not e[k]]
        ident = list(range(n)); new = lambda p=ident, o=[]: ["new", {"perm": p, "off": o}]
        sts = [snapshot_state(rng, bs, cop) for _ in range(3)]; ts = [rng.uniform(0, tl * 0.9) for _ in range(3)]
        igs = [rng.choice(gen.IG) for _ in range(3)]
        vis = lambda k, p=ident, both=0: visit(rng, sts[k], p, ts[k], both, igs[k])
        den = [["denergy"]] if e["tides"] and any(b["tides"]["role"] == "central" for b in bs) else []
        act = n > 1 and (den or e["flat"] and any(b["flat"]["role"] == "central" for b in bs) or e["wind"] and any(b["wind"]["on"] for b in bs))
        rec = den + [["record", 1.0, 0.1]]
        def noise():
            o = []
            for _ in range(rng.randrange(4)):
                o += rng.choice([([["wreck", rng.choice([1.0, -3.0])]] if act else [["energy"]]), [["energy"]], den or [["energy"]], [["record", 1.0, 0.1]], [["torques"]], vis(1, both=rng.randrange(3)), vis(2, both=rng.randrange(3)),
                                 [["spin", rng.uniform(0, tl * 0.9), True]], [["gravity", rng.choice(gen.IG)]], vis(rng.randrange(3), both=rng.randrange(3))])
            return o
        ops = [new()] + vis(0) + rec
        for _ in range(3): ops += noise() + vis(0, both=rng.choice([0, 0, 1, 2])) + (rec if rng.random() < 0.7 else [])
        ops += [new()] + vis(1) + vis(0) + [new()] + vis(0, both=1) + vis(0, both=2)
        if off: ops += [new(o=off)] + vis(0) + vis(1)
        hosts = {host} | {i for i, b in enumerate(bs) if any(b[k].get("role") == "central" for k in ("tides", "flat", "gr", "disk"))}
        on = lambda b: any((e[k] and (b[k].get("role", "none") != "none" if k in ("tides", "flat", "gr", "disk") else b["wind"]["on"] if k == "wind" else b["evol"]["type"] != "none")) for k in EFF)
        idle = [i for i in range(n) if i not in hosts and not on(bs[i])]
        if idle:
            p = [i for i in ident if i not in idle or rng.random() < 0.3]
            if len(p) < n: ops += [new(p)] + vis(0, p) + vis(1, p)
        if n == 1: ops = [o for o in ops if o[0] not in ("gravity", "roche")]
        S.append(gen.sc("purity-n%d-h%d-%s" % (n, host, "+".join(ks)), bs, e, ops, t0=t0, tlimit=tl, keepgoing=True))
    # integration with other periods of output, and other calculations in between
    for kind, coord in KINDS:
        for rep in range(40 if big else 12):
            n = rng.choice([2, 3, 4]); host = rng.randrange(n); ks = gen.kinds(rng)
            if "creep" in ks: ks = [k for k in ks if k != "creep"]
            bs, e = run_case(c, rng, n, host, ks); dt = 0.02; ident = list(range(n)); ops = []
            for hp, rp in ((1e9, 1e9), (dt / 3, 1e9), (2.5 * dt, dt / 2)):
                ops += [["new", {"perm": ident, "off": []}], ["integ", {"kind": kind, "coord": coord or "jacobi", "dt": dt, "hp": hp, "rp": rp}], ["iinit"]]
                for k in range(8):
                    ops += [["iterate", 1]] + rng.choice([[], [], [["energy"]], [["torques"]], [["energy"], ["energy"]]])
            S.append(gen.sc("run-%s-%s-n%d-h%d-%s" % (kind, coord, n, host, "+".join(ks)), bs, e, ops, t0=t0, tlimit=tl))
    c.validate("C09", c.run_harness(S))

@check("C10")
def c10(c):
    big = c.thorough; rng = c.rng; S = []
    t0, tl = short_tables(c)
    def perms(n, host):
        ps = []
        for _ in range(3):
            if rng.random() < 0.5:
                p = [i for i in range(n) if i != host]; p.insert(rng.randrange(n), host)
            else: p = list(range(n)); rng.shuffle(p)
            ps.append(p)
        return ps
    for rep in range(600 if big else 120):
        n = rng.choice([2, 3, 3, 4, 5, 8]); host = rng.randrange(n)
        ks, bs, e, cop = mixture(rng, n, host, c)
        sts = [snapshot_state(rng, bs, cop) for _ in range(2)]; ts = [rng.uniform(0, tl * 0.9) for _ in range(2)]; igs = [rng.choice(gen.IG) for _ in range(2)]
        odd = snapshot_state(rng, bs, cop)   # two bodies meet, or one is far away
        if rng.random() < 0.7:
            i, j = rng.sample(range(n), 2); odd[i]["x"] = [x + rng.choice([0.3, 1.0, 1.5]) * (bs[i]["r"] + bs[j]["r"]) * u for x, u in zip(odd[j]["x"], [0.6, 0.8, 0.0])]
        else: odd[rng.choice([i for i in range(n) if i != host])]["x"] = [70.0, 75.0, 0.0]
        ops = []
        for p in [list(range(n))] + perms(n, host):
            ops += [["new", {"perm": p, "off": []}], ["roche"], ["energy"]]
            for k in range(2): ops += put(sts[k], p) + [["gravity", igs[k]], ["energy"], ["helio"], ["effects", ts[k], True, True, True, igs[k]]]
            ops += put(odd, p) + [["helio"], ["energy"]] + [["gravity", g] for g in gen.IG]
        S.append(gen.sc("order-n%d-h%d-%s" % (n, host, "+".join(ks)), bs, e, ops, t0=t0, tlimit=tl, keepgoing=True))
    for kind, coord in KINDS:
        for rep in range(40 if big else 12):
            n = rng.choice([2, 3, 4, 5]); host = rng.randrange(n); ks = gen.kinds(rng)
            if "creep" in ks: ks = [k for k in ks if k != "creep"]
            bs, e = run_case(c, rng, n, host, ks); dt = 0.02; ops = []
            for p in [list(range(n))] + perms(n, host)[:2]:
                ops += [["new", {"perm": p, "off": []}], ["integ", {"kind": kind, "coord": coord or "jacobi", "dt": dt, "hp": 1e9, "rp": 1e9}], ["iinit"]] + [["iterate", 3], ["iterate", 3]]
            S.append(gen.sc("run-%s-%s-n%d-h%d-%s" % (kind, coord, n, host, "+".join(ks)), bs, e, ops, t0=t0, tlimit=tl, keepgoing=True, dump="st"))
    c.validate("C10", c.run_harness(S))

GRAV = 6.67428e-11 / 1.49597870700e11**3 * 1.9818e30 * 86400.0**2
def orbit(rng):
    """elements of an orbit: all shapes, orientations and anomalies, and the special ones"""
    e = rng.choice([0.0, 0.0, 1.0, gen.lu(rng, 1e-5, 0.01), gen.lu(rng, 1e-9, 1e-5), rng.uniform(0, 1), rng.uniform(0, 1), 1 - gen.lu(rng, 1e-6, 0.1), 1 + gen.lu(rng, 1e-6, 0.1), rng.uniform(1, 4), gen.lu(rng, 1.05, 50), 0.55, 0.9999])
    tp = 2 * math.pi; sp = lambda: rng.choice([0.0, math.pi / 2, math.pi, 1.5 * math.pi, rng.uniform(0, tp), rng.uniform(0, tp), rng.uniform(0, tp), rng.uniform(0, tp)])
    i = rng.choice([0.0, math.pi / 2, math.pi, gen.lu(rng, 1e-6, 0.1), rng.uniform(0, math.pi), rng.uniform(0, math.pi), rng.uniform(0, math.pi)])
    l = rng.choice([0.0, math.pi, rng.uniform(0, tp), rng.uniform(0, tp), rng.uniform(-2 * tp, 4 * tp), rng.choice([-1, 1]) * gen.lu(rng, 1e-6, 0.3)]) if e < 1 else rng.choice([0.0, rng.uniform(-10, 10), rng.choice([-1, 1]) * gen.lu(rng, 1e-5, 30)])
    return {"m": rng.choice([1.0, gen.lu(rng, 1e-3, 30)]), "q": gen.lu(rng, 1e-3, 50), "e": e, "i": i, "p": sp(), "n": sp(), "l": l}
def statevec(rng, gm):
    r = gen.lu(rng, 1e-3, 50); vc = math.sqrt(gm / r); x = gen.rvec(rng, r); v = gen.rvec(rng, vc * rng.choice([rng.uniform(0.3, 1.35), rng.uniform(1.5, 4)]))
    k = rng.randrange(16)
    if k == 0: x = [r, 0.0, 0.0]; v = [0.0, vc, 0.0]
    elif k == 1: x = [0.0, -r, 0.0]; v = [vc, 0.0, 0.0]
    elif k == 2: x = [-r, 0.0, 0.0]; v = [0.0, vc, 0.0]          # clockwise
    elif k == 3: x[2] = v[2] = 0.0
    elif k == 4: x = [r, 0.0, 0.0]; v = [0.0, vc * 0.6, vc * 0.8]
    elif k == 5: x = [0.0, -r, 0.0]; v = [vc * 0.6, 0.0, -vc * 0.8]
    elif k == 6: x = [r * 0.6, -r * 0.8, 0.0]; v = [vc * 0.8 * 1.1, vc * 0.6 * 1.1, 0.0]
    elif k == 7: y = gen.rvec(rng, 1.0); s = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]; t = math.hypot(*s); v = [vc * z / t for z in s]
    elif k == 8:   # nearly circular
        y = gen.rvec(rng, 1.0); s = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]; t = math.hypot(*s); d = gen.lu(rng, 1e-8, 1e-3); f = rng.uniform(0, 6.28)
        v = [vc * ((1 + d * math.cos(f)) * z / t + d * math.sin(f) * w / r) for z, w in zip(s, x)]
    elif k == 9: t = gen.lu(rng, 1e-6, 1e-2); x[2] *= t; v[2] *= t   # nearly in the reference plane
    elif k == 10: t = math.sqrt(2) * vc * (1 + rng.choice([-1, 1]) * gen.lu(rng, 1e-6, 1e-2)) / math.hypot(*v); v = [z * t for z in v]   # nearly parabolic
    return x, v
def cen(ms, xs): return [sum(m * x[k] for m, x in zip(ms, xs)) / sum(ms) for k in range(3)]
def com(o): return math.hypot(*cen(o["ms"], o["xs"]))
def several(rng):
    """the bodies in the middle: one, two or more, at rest or not"""
    k = rng.choice([1, 1, 2, 2, 3]); z = rng.random() < 0.2
    return {"ms": [gen.lu(rng, 1e-3, 3) for _ in range(k)], "xs": [[0.0] * 3 if z else gen.rvec(rng, gen.lu(rng, 1e-3, 1)) for _ in range(k)], "vs": [[0.0] * 3 if z else gen.rvec(rng, gen.lu(rng, 1e-5, 1e-2)) for _ in range(k)], "bare": rng.random() < 0.5}
@check("C24")
def c24(c):
    from checks2 import pyroot
    big = c.thorough; rng = c.rng; S = []; P = []
    for rep in range(400 if big else 60):
        ops = []; py = []
        for _ in range(25):
            o = orbit(rng); ops.append(["tocart", dict(o, gm=GRAV * o["m"])]); py.append(("tocart", o))
            m = rng.choice([1.0, gen.lu(rng, 1e-3, 30)]); gm = GRAV * m; x, v = statevec(rng, gm)
            ops.append(["tokep", {"gm": gm, "x": x, "v": v}]); py.append(("tokep", {"m": m, "x": x, "v": v}))
            sp = gen.rvec(rng, gen.lu(rng, 1e-3, 100)) if rng.random() < 0.9 else [0.0, 0.0, 0.0]
            ops += [["tool", "qe", {"gm": gm, "x": x, "v": v}], ["tool", "evec", {"gm": gm, "x": x, "v": v}], ["tool", "inc", {"x": x, "v": v, "s": sp}]]
            w = {"w": gen.lu(rng, 1e-3, 100), "i": rng.uniform(0, math.pi), "ob": rng.choice([0.0, rng.uniform(0, math.pi)]), "n": rng.uniform(0, 6.28)}
            pz = {"a": gen.lu(rng, 1e-3, 10), "e": rng.choice([0.0, rng.uniform(0, 0.95)]), "ms": gen.lu(rng, 0.05, 3), "mp": gen.lu(rng, 1e-7, 1e-2)}
            k = rng.randrange(2, 9); xs = sorted(rng.uniform(0, 10) for _ in range(k)); ys = [rng.uniform(-5, 5) for _ in xs]
            ln = {"t": rng.choice([rng.uniform(-2, 12), rng.choice(xs), xs[0], xs[-1], rng.uniform(xs[0], xs[-1])]), "xs": xs, "ys": ys}
            for t in (("spin", w), ("pseudo", pz), ("lin", ln)): ops.append(["tool"] + list(t)); py.append(("tool", t))
        S.append(gen.sc("rust", [], {}, ops, dump="none", keepgoing=True)); P.append(py)
    c.validate("C24", c.run_harness(S))
    # the Python version, on the same inputs and on several moments at once
    for py in P:
        for _ in range(2):
            ms, xs, vs = [], [], []
            for _ in range(rng.choice([2, 3, 6])):
                m = gen.lu(rng, 0.1, 10); x, v = statevec(rng, GRAV * m); ms.append(m); xs.append(x); vs.append(v)
            py.append(("tokeps", {"m": ms, "x": xs, "v": vs}))
        for _ in range(4):
            o = dict(orbit(rng), **several(rng)); c0 = com(o); r = o["q"] * rng.uniform(0, 0.3) / max(1e-3, c0 * abs(1 - o["e"])) if c0 else 1.0
            r = min(r, o["q"] / c0) if c0 else r
            o["xs"] = [[z * r for z in x] for x in o["xs"]]; py.append(("tocartm", o))
            o = dict(several(rng), m=gen.lu(rng, 1e-6, 1)); g = GRAV * (o["m"] + sum(o["ms"])); x, v = statevec(rng, g); w = cen(o["ms"], o["vs"])
            c0 = com(o); r = math.hypot(*x) * rng.uniform(0, 0.5) / c0 if c0 else 1.0
            o["xs"] = [[z * r for z in y] for y in o["xs"]]; a = cen(o["ms"], o["xs"])
            py.append(("tokepm", dict(o, x=[p + q for p, q in zip(x, a)], v=[p + q for p, q in zip(v, w)])))
            o = several(rng); del o["bare"]; py.append(("tool", ("com", o)))
            u = rng.choice(["factor", "AU"]); m = gen.lu(rng, 0.1, 10); py.append(("tool", ("size", {"m": m if u == "factor" else m * 3.003e-6, "u": u, "rock": rng.choice([0.0, 1.0, 0.7, rng.uniform(0, 1)])})))
            k = rng.randrange(2, 9); xs = sorted(rng.uniform(0, 10) for _ in range(k)); py.append(("tool", ("cos", {"t": rng.choice([rng.uniform(-2, 12), rng.choice(xs), xs[0], xs[-1]]), "xs": xs, "ys": [rng.uniform(-5, 5) for _ in xs]})))
    f = os.path.join(c.work, "py.json"); flat = [q for py in P for q in py]; json.dump(flat, open(f, "w"))
    os.makedirs(os.path.join(c.work, "input"), exist_ok=True)
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1"); e.pop("PYTHONPATH", None)
    q = lib.sh(["python3-vt", os.path.join(lib.VERIF, "py", "pytools.py"), pyroot(c), f], env=e, timeout=600)
    out = [json.loads(l) for l in q.stdout.split("\n") if l.startswith("{")]
    if len(out) != len(flat) + 1: raise lib.ToolError("pytools: %s" % q.stdout[-2000:])
    bit = lambda v: lib.bits(float(v)) if isinstance(v, (int, float)) else [bit(z) for z in v] if isinstance(v, list) else v
    runs = []; it = iter(out[1:])
    for py in P:
        ev = []
        for op, o in py:
            a = next(it)
            if op == "tokeps":
                for j, m in enumerate(o["m"]):
                    ev.append({"op": "tokep", "args": [{"gm": bit(GRAV * m), "x": bit(o["x"][j]), "v": bit(o["v"][j])}], "res": a["res"], "out": {"el": a["out"]["els"][j]} if a["res"] == "ok" else {}, "why": a.get("why", "")})
            elif op == "tool": ev.append({"op": op, "args": [o[0], {k: bit(z) for k, z in o[1].items()}], "res": a["res"], "out": a["out"], "why": a.get("why", "")})
            elif op in ("tocartm", "tokepm"): ev.append({"op": op, "args": [dict({k: bit(z) for k, z in o.items() if k != "bare"}, G=bit(GRAV))], "res": a["res"], "out": a["out"], "why": a.get("why", "")})
            else: ev.append({"op": op, "args": [dict({k: bit(z) for k, z in o.items() if k != "m"}, gm=bit(GRAV * o["m"]))], "res": a["res"], "out": a["out"], "why": a.get("why", "")})
        runs.append(({"tag": "python"}, ev))
    c.validate("C24", trace(c, "py", runs))
