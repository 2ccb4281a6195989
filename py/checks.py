"""One function per property: generate, replay into the code, validate with TLC."""
import math, json, gen, lib, inputs
from gen import *
CHECKS, LEVEL = {}, {}
def check(pid):
    def deco(f): CHECKS[pid] = f; return f
    return deco

@check("C11")
def c11(c):
    S = []
    reps = 60 if c.thorough else 15
    for n in range(2, 11):
        for host in range(n):
            for rep in range(reps if n <= 6 else max(1, reps // 2)):
                kind = c.rng.choice(["sys", "sys", "blob"])
                bs = gen.system(c.rng, n, host) if kind == "sys" else gen.blob(c.rng, n, c.rng.choice([0.5, 2.0, 8.0, 48.0]))
                gen.special(c.rng, bs, host, 0.1 if kind == "sys" else 0.0)
                if c.rng.random() < 0.3:            # grains
                    for b in c.rng.sample(bs, c.rng.randrange(1, n)):
                        if b["m"] < max(q["m"] for q in bs): b["m"] = gen.lu(c.rng, 1e-22, 1e-12); b["r"] = 1e-13
                ops = [["new"], ["helio"], ["energy"], ["gravity", "none"], ["gravity", "one"], ["gravity", "two"], ["helio"]]
                if c.rng.random() < 0.5:
                    ops += [["set", c.rng.randrange(n), {"x": gen.rvec(c.rng, 3.0), "v": gen.rvec(c.rng, 0.02)}], ["gravity", c.rng.choice(["none", "one", "two"])], ["helio"], ["energy"]]
                S.append(gen.sc("%s-n%d-h%d" % (kind, n, host), bs, {}, ops))
    c.validate("C11", c.run_harness(S))

@check("C12")
def c12(c):
    S = []; rng = c.rng
    reps = 160 if c.thorough else 40
    for n in range(2, 11):
        for host in range(n):
            for rep in range(reps if n <= 5 else max(2, reps // 3)):
                bs = gen.system(rng, n, host, boost=False) if rng.random() < 0.7 else gen.blob(rng, n)
                i, j = rng.sample(range(n), 2)
                if rng.random() < 0.5: i = max(range(n), key=lambda q: bs[q]["m"])
                if i == j: j = (i + 1) % n
                if rng.random() < 0.15:             # twins
                    top = max(q["m"] for q in bs); bs[i]["m"] = bs[j]["m"] = min(bs[i]["m"], bs[j]["m"]) if n > 2 or rng.random() < 0.5 else top
                a, b = (bs[i], bs[j]) if bs[i]["m"] >= bs[j]["m"] else (bs[j], bs[i])
                roche = b["r"] / 0.462 * (a["m"] / b["m"]) ** (1 / 3.)
                touch = a["r"] + b["r"]
                which = rng.choice(["roche", "touch", "far", "touch0", "none"])
                side = rng.choice([1 - 1e-6, 1 + 1e-6, 0.9, 1.1, 0.999, 1.001])
                d = {"roche": roche, "touch": touch, "touch0": touch, "far": 100.0}.get(which)
                ops = [["new"]] + ([["roche"]] if which != "touch0" else []) + [["gravity", rng.choice(gen.IG)]]
                if d:
                    u = gen.rvec(rng, d * side)
                    if which == "touch": bs[i]["r"], bs[j]["r"] = (bs[i]["r"], bs[j]["r"]) if touch > roche else (roche * 0.7, roche * 0.6)
                    if which == "touch":
                        # collision beyond the Roche limit: radii grown after the limits were fixed
                        ops = [["new"], ["roche"], ["set", i, {"r": bs[i]["r"] * 3}], ["gravity", rng.choice(gen.IG)]]
                        d = bs[i]["r"] * 3 + bs[j]["r"]; u = gen.rvec(rng, d * side)
                    bs[j]["x"] = gen.add(bs[i]["x"], u)
                if rng.random() < 0.3: ops.append(["gravity", rng.choice(gen.IG)])
                S.append(gen.sc("%s-%s-n%d-h%d-%d-%d" % (which, "in" if side < 1 else "out", n, host, i, j), bs, {}, ops))
    c.validate("C12", c.run_harness(S))

def ctl_system(c, n, host, central=None, others=0.3, **kw):
    """central: index of the tidal host (default: the star)"""
    rng = c.rng
    bs = gen.system(rng, n, host, close=True, **kw)
    h = host if central is None else central
    bs[h]["tides"] = gen.ctl(rng, "central")
    for i in range(n):
        if i != h and rng.random() > others: bs[i]["tides"] = gen.ctl(rng, "orbiting")
    return bs

@check("C13")
def c13(c):
    S = []; rng = c.rng
    inputs.write(c)
    reps = 40 if c.thorough else 10
    for n in range(2, 8):
        for host in range(n):
            for rep in range(reps):
                central = host if rng.random() < 0.75 else rng.randrange(n)
                bs = gen.special(rng, ctl_system(c, n, host, central), central)
                # a host with another model deforms in its own way
                if central == host and rng.random() < 0.2: bs[central]["tides"] = gen.creepm(rng, "central", gen.lu(rng, 1e-6, 1e6))
                t = rng.choice([0.0, 1.0, 1e6])
                ops = [["new"], ["helio"], gen.eff(rng, t), ["denergy"]]
                for q in range(3):
                    mv = [gen.restate(rng, bs, rng.randrange(n)) for _ in range(n)]
                    if bs[central]["tides"]["model"] == "creep":        # (not for unbound orbits)
                        for o in mv: o[2] = {"sp": o[2]["sp"], "lazy": o[2]["lazy"]}
                    ops += mv + [["helio"], gen.eff(rng, t), ["denergy"], gen.eff(rng, t, dl=False), gen.eff(rng, t, acc=False)]
                S.append(gen.sc("ctl-n%d-h%d-c%d" % (n, host, central), bs, {"tides": True}, ops, sync=False))
    # dynamical tide of evolving hosts and of evolving orbiting bodies, in and out of the regime
    for rep in range(reps * 12):
        n = rng.choice([2, 2, 3, 3, 4, 4, 6, 8, 10]); host = rng.randrange(n)
        bs = ctl_system(c, n, host, others=0.0)
        who = rng.choice(["host", "orbiting", "both"])
        typ = rng.choice([("BolmontMathis2016", 1.0), ("GalletBolmont2017", 0.8), ("LeconteChabrier2013", 0.0), ("Baraffe2015", 1.0)])
        for i in range(n):
            if (i == host and who != "orbiting") or (i != host and who != "host"):
                bs[i]["evol"] = {"type": typ[0], "mass": typ[1], "diss": True}
        ops = [["new"], ["helio"]]
        for q in range(5):
            t = rng.uniform(0, 3e8)
            os_ = []
            for i in range(n):
                o = gen.kick(rng, bs[i], 0.02); o["sp"] = gen.rvec(rng, 2 * math.pi / gen.lu(rng, 0.05, 300)); o["lazy"] = True
                os_.append(o); ops.append(["set", i, o])
            if rng.random() < 0.5:      # next to the edge of the regime, and next to corotation
                j = rng.choice([i for i in range(n) if i != host]); w = rng.choice([host, j]); mu = gen.G * (bs[host]["m"] + bs[j]["m"])
                x = gen.sub(os_[j]["x"], os_[host]["x"]); v = gen.sub(os_[j]["v"], os_[host]["v"]); a = 1 / (2 / math.hypot(*x) - sum(z * z for z in v) / mu)
                if a > 0: os_[w]["sp"] = gen.rvec(rng, math.sqrt(mu / a**3) * rng.choice([0.5, 0.5, 1.0]) * (1 + rng.choice([-1, 1]) * gen.lu(rng, 1e-7, 0.05)))
            ops += [["helio"], gen.eff(rng, t), ["denergy"]]
        S.append(gen.sc("dyn-%s-%s-n%d-h%d" % (who, typ[0], n, host), bs, {"tides": True, "evol": True}, ops, sync=False, t0=365.25 * 1e6 * 5, tlimit=4e8))
    # synchronous circular coplanar pairs
    for rep in range(reps * 4):
        host = rng.randrange(2)
        bs = gen.system(rng, 2, host, coplanar=True, emax=0.0, close=True)
        mu = gen.G * (bs[0]["m"] + bs[1]["m"])
        x = gen.sub(bs[0]["x"], bs[1]["x"]); d = math.sqrt(sum(q * q for q in x))
        v = gen.sub(bs[0]["v"], bs[1]["v"])
        w = math.sqrt(mu / d**3)
        for b in bs: b["s"] = [0.0, 0.0, w]
        bs[host]["tides"] = gen.ctl(rng, "central"); bs[1 - host]["tides"] = gen.ctl(rng, "orbiting")
        S.append(gen.sc("sync-h%d" % host, bs, {"tides": True}, [["new"], ["helio"], gen.eff(rng, 0.0)], sync=True))
    c.validate("C13", c.run_harness(S))

@check("C16")
def c16(c):
    S = []; rng = c.rng
    reps = 50 if c.thorough else 12
    for n in range(2, 8):
        for host in range(n):
            for rep in range(reps):
                central = host if rng.random() < 0.75 else rng.randrange(n)
                bs = gen.system(rng, n, host, close=True)
                bs[central]["flat"] = gen.oblate(rng, "central")
                for i in range(n):
                    if i != central and rng.random() < 0.75: bs[i]["flat"] = gen.oblate(rng, "orbiting")
                gen.special(rng, bs, central)
                still = rng.random() < 0.3
                if still:
                    for i in gen.ksubset(rng, range(n), 0.5): bs[i]["s"] = [0.0, 0.0, 0.0]
                ops = [["new"], ["helio"], gen.eff(rng, 0.0)]
                for q in range(3):
                    ops += [gen.restate(rng, bs, rng.randrange(n)) for _ in range(n)] + [["helio"], gen.eff(rng, 1.0), gen.eff(rng, 1.0, dl=False), gen.eff(rng, 1.0, acc=False)]
                S.append(gen.sc("flat-n%d-h%d-c%d%s" % (n, host, central, "-still" if still else ""), bs, {"flat": True}, ops))
    c.validate("C16", c.run_harness(S))

@check("C18")
def c18(c):
    S = []; rng = c.rng
    reps = 60 if c.thorough else 15
    for n in range(2, 8):
        for host in range(n):
            for rep in range(reps):
                bs = gen.system(rng, n, host, close=rng.random() < 0.5)
                kind = rng.choice(["wind", "disk", "both"])
                central = host if rng.random() < 0.8 else rng.randrange(n)
                if kind != "disk":
                    for i in range(n):
                        if rng.random() < 0.6: bs[i]["wind"] = gen.wind(rng, bs[i])
                    if not any(b["wind"]["on"] for b in bs): bs[host]["wind"] = gen.wind(rng, bs[host])
                if kind != "wind":
                    bs[central]["disk"] = gen.disk(rng, inner=rng.choice([None, 0.0, 0.3]), outer=rng.choice([None, None, gen.lu(rng, 0.02, 5.0)]))
                    for i in range(n):
                        if i != central and rng.random() < 0.75: bs[i]["disk"] = {"role": "orbiting"}
                gen.special(rng, bs, central)
                ops = [["new"], ["helio"], gen.eff(rng, 0.0)]
                for q in range(3):
                    ops += [gen.restate(rng, bs, rng.randrange(n)) for _ in range(n)] + [["helio"], gen.eff(rng, gen.lu(rng, 1.0, 1e7)), gen.eff(rng, 1.0, dl=False), gen.eff(rng, 1e5, acc=False)]
                S.append(gen.sc("%s-n%d-h%d-c%d" % (kind, n, host, central), bs, {"wind": kind != "disk", "disk": kind != "wind"}, ops))
    c.validate("C18", c.run_harness(S))

EVTYPES = ["GalletBolmont2017", "BolmontMathis2016", "Baraffe2015", "Leconte2011", "Baraffe1998", "LeconteChabrier2013"]
YR = 365.25
def evolve_cfg(c, bs, **kw):
    """raw tables of the declared evolving bodies, for the specification"""
    raw = []
    for b in bs:
        e = b["evol"]; p = inputs.path(e["type"], e["mass"]) if e["type"] != "none" else ""
        raw.append(c.tables.get(p, []))
    d = {"raw": raw, "aux": c.tables["Leconte_2011/rg2BD.dat"] if any(b["evol"]["type"] == "Leconte2011" for b in bs) else []}
    d.update(kw); return d

@check("C19")
def c19(c):
    rng = c.rng; y0, y1 = 1.0e6, 1.0e7
    for rnd, rows in enumerate([60, None] + ([30, 200] if c.thorough else [])):
        inputs.write(c, rows=rows, seed=rnd, years=(y0, y1)); S = []
        for typ in EVTYPES:
            for m in inputs.MASSES[typ]:
                for rep in range(3 if c.thorough else 1):
                    n = rng.randrange(1, 4) + 1; host = rng.randrange(n)
                    bs = gen.system(rng, n, host, close=True)
                    mm = m + (rng.choice([0.0, 0.0009, -0.0009]) if typ in ("GalletBolmont2017", "BolmontMathis2016") else 0.0)
                    who = host if rng.random() < 0.7 else rng.randrange(n)
                    bs[who]["evol"] = {"type": typ, "mass": mm, "diss": rng.random() < 0.5}
                    if rng.random() < 0.5: bs[who]["r"] = gen.RSUN * rng.uniform(0.1, 2)
                    if typ == "LeconteChabrier2013" or rng.random() < 0.3: bs[who]["tides"] = gen.ctl(rng, "central")
                    t0 = y0 * YR * rng.choice([1.0, 1.0, 2.0, 5.0]) * (1 + 1e-9)
                    end = y1 * YR - t0
                    ts = []
                    t = 0.0
                    for q in range(25):
                        # forward, then back by a little or a lot, and exactly onto table rows
                        # (and on by so little that hardly anything changes)
                        t = rng.choice([t + rng.uniform(0, end / 10), t - rng.uniform(0, end / 40), rng.uniform(0, end), 0.0, end * 0.999, t, t + end * gen.lu(rng, 1e-9, 1e-4), t - end * gen.lu(rng, 1e-9, 1e-4)]); t = min(max(t, 0.0), end * 0.9999)
                        ts.append(t)
                    rws = c.tables[inputs.path(typ, m)]
                    ops = [["new"], ["table", who]]
                    for t in ts:
                        k = rng.choice(["r", "rg2", "love", "q", "spin", "spin"])
                        if k == "spin": ops.append(["spin", t, rng.random() < 0.9])
                        else: ops.append(["query", who, t, rng.uniform(0.1, 1), k])
                    other = (who + 1) % n
                    ops += [["query", other, ts[0], 0.25, "r"], ["query", other, ts[0], 0.25, "rg2"]]
                    on = rng.random() < 0.9
                    S.append(gen.sc("%s-%s-n%d-%d" % (typ, m, n, who), bs, {"evol": on, "tides": bs[who]["tides"]["role"] != "none"}, ops, t0=t0, tlimit=end * 0.9999, **evolve_cfg(c, bs)))
            # refusals: unsupported masses, too early a start, too late an end
            for rep in range(10):
                bs = gen.system(rng, 2, 0); m = rng.choice(inputs.MASSES[typ])
                kind = rng.choice(["mass", "early", "late", "ok"])
                if typ == "LeconteChabrier2013" and kind == "mass": kind = "early"
                mm = m
                if kind == "mass": mm = rng.choice([x for x in [0.0, 0.005, 0.35, 0.45, 0.25, 1.35, 2.0, 0.085, 0.0125, 1.0015, 0.1001, 0.55, 1.6, m + 0.0021, m - 0.0021] if all(abs(x - q) > 2e-3 for q in inputs.MASSES[typ])] or [5.0])
                bs[0]["evol"] = {"type": typ, "mass": mm, "diss": True}
                near = rng.choice([0.3, gen.lu(rng, 1e-6, 0.3)])
                t0 = y0 * YR * (1 - near if kind == "early" else rng.choice([1.5, 1 + near])); end = y1 * YR - t0
                S.append(gen.sc("%s-%s" % (typ, kind), bs, {"evol": True}, [["new"]], t0=t0, tlimit=end * (1 + near if kind == "late" else rng.choice([0.99, 1 - near])), **evolve_cfg(c, bs)))
        for s in S:
            for b in s["bodies"]: b["evol"].setdefault("diss", False)
        c.validate("C19", c.run_harness(S, name="t%d" % rnd))

KINDS = [("leapfrog", ""), ("ias15", ""), ("whfast", "jacobi"), ("whfast", "democratic"), ("whfast", "whds")]
def short_tables(c, span=0.3):
    """tables fine enough for evolution to matter over a few days; returns initial time and end"""
    inputs.write(c, rows=80, years=(1.0 - span / 3, 1.0 + span))
    return 365.25 * (1 + 1e-9), 365.25 * span * 0.999
def run_case(c, rng, n, host, ks, **kw):
    """bodies that survive a short run, effects, initial time and limit"""
    kw.setdefault("msmall", (1e-6, 1e-3))
    bs, e = gen.rich(rng, n, host, ks, a0=rng.uniform(0.04, 0.08), types=[("BolmontMathis2016", 1.0), ("GalletBolmont2017", 0.8), ("Baraffe2015", 1.0), ("Baraffe1998", 1.0), ("LeconteChabrier2013", 0.0)], **kw)
    for i, b in enumerate(bs):
        if i != host: b["r"] = gen.REARTH * (b["m"] / gen.MEARTH) ** 0.28
        for q in ("tides", "flat"):
            # stiff bodies make the implicit steps diverge
            if b[q]["model"] == "creep": b[q]["visc"] = max(b[q]["visc"], 1e4)
        if b["tides"]["model"] == "ctl": b["tides"]["diss"] = gen.lu(rng, 1e-2, 1e1) * (850.0 if i != host else 0.05); b["tides"]["scale"] = 1.0
        if b["wind"]["on"]:
            # braking times of at least a day
            w = math.sqrt(sum(x * x for x in b["s"])); I = b["m"] * (b["rg"] * min(b["r"], 0.002 if i == host else 1)) ** 2
            b["wind"]["k"] = gen.lu(rng, 1e-4, 1.0) * I / (max(min(w, b["wind"]["sat"]) ** 2, 1e-12) * math.sqrt(max(b["r"], 0.01 if i == host else 0) / gen.RSUN / b["m"]))
        if b["evol"]["type"] != "none" and i != host: b["evol"] = {"type": "none", "mass": 0.0, "diss": False}
    return bs, e

@check("C07")
def c07(c):
    S = []; rng = c.rng; t0, end = short_tables(c)
    reps = 24 if c.thorough else 6
    combos = [[], ["ctl", "flat"], ["kaula", "gr"], ["creep", "flat"], ["ctl", "flat", "gr", "wind", "disk", "evol"], ["wind"], ["disk"], ["evol", "ctl"], ["gr"]]
    for kind, coord in KINDS:
        for ks in combos:
            for rep in range(reps):
                n = rng.choice([1, 2, 3, 4, 10] if not ks else [2, 3, 4]); host = rng.randrange(n)
                bs, e = run_case(c, rng, n, host, ks)
                dt = rng.uniform(0.001, 0.03)
                k = rng.randrange(1, 8)
                ops = [["new"], ["integ", gen.integ(rng, kind, dt, rng.uniform(0.5, 3) * dt, rng.uniform(0.5, 9) * dt, coord)], ["iinit"], ["iterate", k], ["save", "a.bin"]]
                ops += [["restore", "a.bin"], ["save", "a.json"], ["restore", "a.json"], ["save", "b.bin"], ["iterate", 2], ["save", "b.json"], ["restore", "b.bin"]]
                if rep == 0:
                    ops += [["restore", "b.json"], ["truncall", "b.json", 40009 if not c.thorough else 7001, 0], ["truncall", "b.json", 7 if not c.thorough else 1, -1]]
                    ops += [["truncall", "a.bin", 997 if not c.thorough else 131, 0], ["truncall", "a.bin", 1, -1 if not c.thorough else -8]]
                S.append(gen.sc("%s-%s-%s-n%d" % (kind, coord, "+".join(ks), n), bs, e, ops, t0=t0, tlimit=end, dump="all"))
    c.validate("C07", c.run_harness(S))

COMBOS = [[], ["ctl", "flat"], ["kaula", "gr"], ["creep", "flat"], ["ctl", "flat", "gr", "wind", "disk", "evol"], ["wind"], ["disk"], ["evol", "ctl"], ["gr"]]
@check("C01")
def c01(c):
    S = []; rng = c.rng; t0, end = short_tables(c)
    for kind, coord in KINDS:
        for ks in COMBOS + [gen.kinds(rng) for _ in range(20 if c.thorough else 3)]:
            n = rng.choice([1, 2, 3, 4, 7] if not ks else [2, 3, 4]); host = rng.randrange(n)
            bs, e = run_case(c, rng, n, host, ks)
            dt = rng.uniform(0.002, 0.03); N = rng.randrange(6, 14) * (3 if c.thorough else 1)
            js = rng.random() < 0.6 # no ties between periods and step: decimal rounding would decide them
            g = gen.integ(rng, kind, dt, (rng.choice([0.3, 1.618, 2.4142]) if js else rng.choice([0.3, 1.0, 1.7, 3.0])) * dt, 1e9, coord)
            lim = end if rng.random() < 0.6 else dt * (N - rng.choice([0.5, 2.5]))
            head = [["new"], ["integ", g], ["iinit"]]
            ops = head + [["iterate", 1]] * N + [["histfp"]]
            for ex in range(2):
                ext = "json" if ex == 1 and js else "bin"
                ops += [["reset"]] + head; done = 0
                while done < N:
                    k = min(rng.randrange(1, 5), N - done); ops += [["iterate", 1]] * k; done += k
                    if done == N: break
                    ops.append(["save", "x." + ext])
                    q = rng.random()
                    if q < 0.25: continue
                    lost = rng.randrange(0, min(4, N - done + 1))
                    ops += [["iterate", 1]] * lost + [["restore", "x." + ext], ["hist", -1]]
                    if rng.random() < 0.2: ops += [["restore", "x." + ext], ["hist", -1]]
                    if rng.random() < 0.4: ops += [["periods", -1.0, -1.0], ["limits", -1.0]]
                ops.append(["histfp"])
            S.append(gen.sc("%s-%s-%s-n%d" % (kind, coord, "+".join(ks), n), bs, e, ops, t0=t0, tlimit=lim, dump="st", kind=kind, xs=0.05, vs=0.05))
    c.validate("C01", c.run_harness(S))

def beh(out):
    import re
    for l in re.findall(r"^<<\"BEH\", (.*)>>$", out, re.M):
        v = json.loads("[" + l.replace("<<", "[").replace(">>", "]") + "]")
        yield {"dt": v[0], "hp": v[1], "rp": v[2], "tl": v[3], "recs": v[4], "snaps": v[5], "t": v[6]}
SCHED = ["TypeOK", "NoOvershoot", "EndsInTime", "FixedSchedule", "AdaptiveSchedule", "SnapSchedule"]
def tiny(rng, n):
    """a light system of which only the clock matters"""
    bs = gen.system(rng, n, 0, emax=0.05, msmall=(1e-8, 1e-7), a0=1.0)
    for i, b in enumerate(bs): b["r"] = 0.004 if i == 0 else 1e-5
    return bs
@check("C03")
def c03(c):
    rng = c.rng; S = []
    big = c.thorough
    r = c.model("Schedule", {"MaxDT": 3, "MaxHP": 8 if big else 5, "MaxRP": 6 if big else 4, "MaxTL": 16 if big else 11, "Kinds": '{"fixed"}', "Emit": "TRUE"}, SCHED, "SInit", "SNext")
    c.model("Schedule", {"MaxDT": 3, "MaxHP": 5 if big else 4, "MaxRP": 4 if big else 3, "MaxTL": 9 if big else 7, "Kinds": '{"ias15"}', "Emit": "FALSE"}, SCHED, "SInit", "SNext")
    B = list(beh(r["out"])); c.extra["model_behaviours_replayed"] = len(B)
    for b in B:
        q = rng.choice([0.25, 1.0, 2.0])
        kind, coord = KINDS[[0, 2, 3, 4][len(S) % 4]]
        n = rng.choice([1, 2, 3]); bs = tiny(rng, n)
        steps = max(1, b["tl"] // b["dt"])
        ops = [["new"], ["integ", gen.integ(rng, kind, b["dt"] * q, b["hp"] * q, b["rp"] * q, coord)], ["iinit"]] + [["iterate", 1, "m.bin"]] * steps + [["histrecs"]]
        S.append(gen.sc("model-%s-%s" % (kind, [b[k] for k in ("dt", "hp", "rp", "tl")]), bs, {}, ops, tlimit=b["tl"] * q, dump="st", hist=True, steady=True, expect=dict({k: b[k] for k in ("recs", "snaps", "t")}, quarters=int(4 * q))))
    # arbitrary steps and periods, changed periods, interruptions; adaptive steps
    t0, end = short_tables(c)
    for kind, coord in KINDS * (20 if big else 4):
        ks = gen.kinds(rng) if rng.random() < 0.5 else []
        n = rng.choice([1, 2, 3, 5]) if not ks else rng.choice([2, 3]); host = rng.randrange(n)
        bs, e = run_case(c, rng, n, host, ks) if n > 1 else (gen.system(rng, 1, 0), dict(gen.OFF))
        dt = rng.choice([rng.uniform(0.001, 0.03), 1.0 / 64, 0.1 / 8]); N = rng.randrange(8, 30)
        per = lambda: dt * rng.choice([0.5, 1.0, 1.5, 2.0, 3.0, 7.0, rng.uniform(0.3, 9)]) if rng.random() < 0.7 else rng.choice([1.0, 1.5, 10.0, 365.25])
        ops = [["new"], ["integ", gen.integ(rng, kind, dt, per(), per(), coord)], ["iinit"]]
        steady = rng.random() < 0.5
        for i in range(N):
            ops.append(["iterate", 1, "p.bin"] if rng.random() < 0.8 else ["iterate", 1])
            if rng.random() < 0.12: ops.append(["save", "y.bin"])
            if rng.random() < 0.1 and not steady: ops.append(["periods", rng.choice([-1.0, 0.0, per()]), rng.choice([-1.0, 0.0, per()])])
            if rng.random() < 0.07 and ["save", "y.bin"] in ops: ops += [["restore", "y.bin"], ["hist", -1]]
        S.append(gen.sc("%s-%s-%s-n%d" % (kind, coord, "+".join(ks), n), bs, e, ops, t0=t0, tlimit=end, dump="st", hist=True, steady=steady))
    c.validate("C03", c.run_harness(S))

import cli, os, shutil
LIFE = ["LType", "AlwaysRecoverable", "AlwaysResumable", "OnlyOwn", "Exact", "Kept", "Complete"]
def trace(c, name, runs):
    """a trace composed by the driver: runs = [(cfg, events)]"""
    p = os.path.join(c.work, name + ".ndjson"); c.scen = {}
    with open(p, "w") as fh:
        for i, (cfg, evs) in enumerate(runs):
            cfg = dict(cfg, id=i); c.scen[i] = dict(cfg, events=evs[:400])
            fh.write(json.dumps({"cfg": cfg, "ev": evs}) + "\n")
    return p
@check("C02")
def c02(c):
    rng = c.rng; big = c.thorough
    c.model("Lifecycle", {"Steps": 22 if big else 14, "MaxHP": 6 if big else 5, "MaxSP": 6 if big else 4, "MaxCap": 4 if big else 3, "MaxCrash": 6 if big else 4}, LIFE, "LInit", "LNext")
    specs = []
    for kind, coord in KINDS:
        for ext in ("bin", "json"):
            for ks in [[], ["ctl", "flat"], ["evol", "ctl", "wind"]]:
                dt = rng.uniform(0.002, 0.01)
                specs.append({"kind": kind, "coord": coord, "ks": ks, "n": rng.choice([2, 3]), "ext": ext, "dt": dt, "hp": 1.31371 * dt, "rp": rng.choice([2.21371, 3.41373]) * dt, "limit": dt * rng.uniform(12.2, 14.8)})
                if kind == "ias15": specs[-1].update(dt=dt / 10, hp=dt * 0.8, rp=dt * 2, limit=0.4)
                elif not ks: specs[-1].update(hp=5.31371 * dt, rp=rng.choice([1.21371, 2.41373]) * dt)   # records rarer than snapshots
    cli.make_cases(c, specs); P = cli.Prog(c)
    jobs = []   # (case, what, list of kills or fault)
    def go(job):
        s, op, plan, tick = job; d = P.dir(); log = d + ".log"; out = {"plan": plan, "chain": 1}
        args = ["start", s["case"], d + "/s." + s["ext"], d + "/h.hist", "--silent"]
        if op == "plain": out["rc"], out["txt"] = P.run(args, d, log=log, tick=tick)
        elif op == "kill": out["rc"], out["txt"] = P.run(args, d, kill=plan[0], log=log, tick=tick)
        else: out["rc"], out["txt"] = P.run(args, d, fail=plan[0], log=log, tick=tick)
        if out["rc"] == "hang": out["rc"] = -14
        return d, out
    def oplog(d): return [l.split() for l in open(d + ".log")] if os.path.exists(d + ".log") else []
    plains = [(s, "plain", [], 0) for s in specs]
    for (s, _, _, _), (d, o) in zip(plains, cli.pmap(go, plains)):
        s["plain"] = (d, o); s["ops"] = oplog(d)
    c.extra["file_operations"] = {s["tag"]: len(s["ops"]) for s in specs}
    for s in specs:
        n = len(s["ops"]); W = [i + 1 for i, o in enumerate(s["ops"]) if o[1] in ("write", "pwrite")]
        ks = [("%d:%s" % (k, ph)) for k in range(1, n + 1) for ph in (("before", "half", "after") if k in W else ("before", "after"))]
        fs = [("%d:%d" % (k, e)) for k in range(1, n + 1) for e in (28, 5)]
        # a disk that stays full, or turns read-only, from an operation on
        fp = [("%d:%s" % (k, m)) for k in range(1, n + 1) for m in ("from28", "from5", "all30")]
        sh = [("%d:%s" % (k, m)) for k in W for m in ("short", "eintr")]
        if not big:
            # the writes of one snapshot are alike: all operations but a sample of those in its middle
            mid = {k for k in W if k + 1 in W and k - 1 in W and s["ops"][k - 1][2] == s["ops"][k][2] == s["ops"][k - 2][2] and rng.random() > 0.15}
            ks = [x for x in ks if int(x.split(":")[0]) not in mid]; fs = [x for x in fs if int(x.split(":")[0]) not in mid and rng.random() < 0.5]; fp = [x for x in fp if int(x.split(":")[0]) not in mid and (int(x.split(":")[0]) > n - 6 or rng.random() < 0.35)]; sh = rng.sample(sh, min(8, len(sh)))
        tick = lambda: rng.choice([0, 0, 7, 40])
        jobs += [(s, "kill", [x], tick()) for x in ks] + [(s, "fault", [x], 0) for x in fs + fp] + [(s, "short", [x], tick()) for x in sh]
    res = list(zip(jobs, cli.pmap(go, jobs)))
    fins = [((s, "plain", [], 0), s["plain"]) for s in specs]
    # second and third crashes: resume from the best snapshot and kill that run too
    chains = [(j, r) for j, r in res if j[1] == "kill"]; rng.shuffle(chains); chains = chains[:1200 if big else 400]
    allres = fins + res
    def files(ds, s): return [os.path.join(d, f) for d in ds for f in os.listdir(d) if f.endswith("." + s["ext"])]
    def observe(pairs):
        R = cli.restored(c, [p for j, (d, o) in pairs for p in files([d], j[0])])
        for j, (d, o) in pairs: o.update(cli.disk(c, j[0], d, R))
    observe(allres)
    def best(o): 
        f = [x for x in o["cands"] if x["full"]]; return max(f, key=lambda x: x["idx"]) if f else None
    def chain(jr):
        (s, op, plan, tick), (d0, o0) = jr; b = best(o0)
        if not b: return None
        d = P.dir()
        for f in os.listdir(d0): shutil.copy(os.path.join(d0, f), d)
        k = "%d:%s" % (rng2.randrange(1, 40), rng2.choice(["before", "half", "after"]))
        out = {"plan": plan + [b["name"], k], "chain": o0["chain"] + 1}
        out["rc"], out["txt"] = P.run(["resume", d + "/" + b["name"], d + "/h.hist", "--silent"], d, kill=k)
        return ((s, "kill", out["plan"], tick), (d, out))
    import random
    for rnd in range(2 if not big else 3):
        rng2 = random.Random("%d/%d" % (c.seed, rnd))
        more = [x for x in cli.pmap(chain, chains) if x and x[1][1]["rc"] != 0]
        observe(more); allres += more; chains = more[:1000 if big else 250]
    # resume to the end
    def resume(jr):
        (s, op, plan, tick), (d, o) = jr; o["resume"] = []
        if op in ("plain", "short"): return
        full = [x for x in o["cands"] if x["full"]]; b = best(o)
        for x in full:
            if x is not b and int(d[-5:]) % (2 if big else 5): continue
            e = P.dir()
            for f in os.listdir(d): shutil.copy(os.path.join(d, f), e)
            rc, txt = P.run(["resume", e + "/" + x["name"], e + "/h.hist", "--silent"], e)
            h = cli.rd(e + "/h.hist") or b""
            o["resume"].append({"idx": x["idx"], "nh": x["nh"], "rc": rc if rc != "hang" else -14, "hlen": len(h), "hgood": cli.same(s, h)})
            shutil.rmtree(e)
    cli.pmap(resume, allres)
    runs = []
    for s in specs:
        evs = [{"op": j[1], "args": [], "res": "ok", "out": {k: v for k, v in o.items() if k != "txt"}} for j, (d, o) in allres if j[0] is s]
        runs.append(({"tag": s["tag"], "ext": s["ext"], "per": s["per"], "refnh": [x["nh"] for x in s["refs"]], "reflen": len(s["hist"])}, evs))
    c.extra["kills"] = sum(1 for j, _ in allres if j[1] == "kill"); c.extra["faults"] = sum(1 for j, _ in allres if j[1] == "fault"); c.extra["resumes"] = sum(len(o["resume"]) for _, (d, o) in allres)
    c.validate("C02", trace(c, "c02", runs))

@check("C05")
def c05(c):
    import re, hashlib
    rng = c.rng; big = c.thorough
    r = c.model("Guard", {}, ["NoOverwrite", "NoInvent"], "GInit", "GNext")
    M = [dict(zip(("cmd", "snap", "hist", "case"), m)) for m in sorted(set(re.findall(r'<<"GUARD", "(\w+)", "(\w+)", "(\w+)", "(\w+)">>', r["out"])))]
    specs = []
    for kind, coord in KINDS:
        for ext in ("bin", "json"):
            dt = rng.uniform(0.002, 0.01)
            specs.append({"kind": kind, "coord": coord, "ks": rng.choice([[], ["ctl", "flat"], ["wind", "disk"]]), "n": rng.choice([1, 2, 3]), "ext": ext, "dt": dt, "hp": 1.31371 * dt, "rp": rng.choice([2.21371, 3.41373]) * dt, "limit": dt * rng.uniform(12.2, 14.8)})
            if specs[-1]["n"] == 1: specs[-1]["ks"] = []
            if kind == "ias15": specs[-1].update(dt=dt / 10, hp=dt * 0.8, rp=dt * 2, limit=0.4)
    cli.make_cases(c, specs); P = cli.Prog(c)
    jobs = [(s, q) for s in specs for q in M if big or q["cmd"] == "resume" or rng.random() < 0.35]
    seeds = [rng.random() for _ in jobs]
    fp = lambda b: [x - 2**31 for x in [int(hashlib.sha256(b).hexdigest()[:8], 16), int(hashlib.sha256(b).hexdigest()[8:16], 16)]]
    def look(d):
        return [{"name": f, "len": len(cli.rd(d + "/" + f)), "fp": fp(cli.rd(d + "/" + f))} for f in sorted(os.listdir(d))]
    def go(a):
        import random
        (s, q), sd = a; g = random.Random(sd); d = P.dir(); per, H = s["per"], s["hist"]
        sn = "s." + s["ext"]; k = g.randrange(len(s["refs"])); nh = s["refs"][k]["nh"]; snap = cli.rd(s["d"] + "/ref%d.%s" % (k + 1, s["ext"]))
        if q["cmd"] == "resume" and q["hist"] in ("exact", "torn", "more", "beyond", "other") and s["ext"] == "json" and g.random() < 0.35: nh, snap = 0, cli.rd(s["case"])   # a snapshot that counts no record yet
        put = lambda n, b: open(d + "/" + n, "wb").write(b)
        rnd = lambda n: bytes(g.randrange(256) for _ in range(n))
        if q["snap"] != "missing": put(sn, {"ok": snap, "garbage": rnd(400), "cut": snap[:g.randrange(1, 60 if s["ext"] == "bin" else len(snap) - 2)], "empty": b""}[q["snap"]])
        h = {"empty": b"", "fewer": H[:per * (nh - 1)], "byteshort": H[:per * nh - 1], "exact": H[:per * nh], "torn": H[:per * nh + g.randrange(1, per)], "more": H[:min(len(H), per * (nh + 2))],
             "beyond": H + rnd(3 * per + 5), "other": rnd(per * nh + g.choice([0, 7, per]))}
        if q["hist"] != "missing": put("h.hist", h[q["hist"]])
        case = cli.rd(s["case"])
        if q["case"] != "missing": put("case.json", {"ok": case, "garbage": b"{ \"nothing\": 1 }", "cut": case[:len(case) // 2]}[q["case"]])
        put("bystander.bin", rnd(50)); put("s2.bin", snap)
        before = look(d); hb = cli.rd(d + "/h.hist")
        args = ["start", d + "/case.json", d + "/" + sn, d + "/h.hist"] if q["cmd"] == "start" else ["resume", d + "/" + sn, d + "/h.hist"]
        rc, txt = P.run(args + g.choice([[], ["--silent"], ["-s"]]), d)
        ha = cli.rd(d + "/h.hist") or b""; n = nh * per if q["cmd"] == "resume" else 0
        tail = ha[n:]; ref = H[n:]
        tg = tail == ref if s["ext"] == "bin" or q["cmd"] == "start" else len(tail) == len(ref) and cli.near(H[:n] + tail, H) == len(H)
        o = {"q": q, "rc": -14 if rc == "hang" else rc, "before": before, "after": look(d), "counted": n, "kept": cli.good(ha, hb or b""), "hlen": len(ha), "hgood": cli.same(s, ha), "tailgood": tg}
        shutil.rmtree(d); return o
    res = cli.pmap(go, list(zip(jobs, seeds)))
    runs = [({"tag": s["tag"], "reflen": len(s["hist"]), "ext": s["ext"]}, [{"op": "run", "args": [], "res": "ok", "out": o} for (t, q), o in zip(jobs, res) if t is s]) for s in specs]
    c.validate("C05", trace(c, "c05", runs))

@check("C04")
def c04(c):
    import re, random
    rng = c.rng; big = c.thorough; S = []
    guar = ["WithinTables", "Positive", "NoOvershoot", "Monotone"]
    r = c.model("Options", {"DT": 1, "MaxOps": 4, "Emit": "TRUE"}, guar, "OInit", "ONext")
    c.model("Options", {"DT": 2, "MaxOps": 5 if big else 4, "Emit": "FALSE"}, guar, "OInit", "ONext")
    B = [json.loads("[" + l.replace("<<", "[").replace(">>", "]") + "]") for l in re.findall(r'^"OPS <<(.*)>>"$', r["out"].replace('\\"', '"'), re.M)]
    c.extra["model_behaviours"] = len(B); B = rng.sample(B, min(len(B), 3000 if big else 350))
    # operation sequences of the model, one unit being 1/64 day
    q = 1.0 / 64; pad = 1.001; b98 = inputs.path("Baraffe1998", 1.0)
    inputs.write(c, rows=60, years=(1.0 - 8 * q * pad / YR, 1.0 + 8 * q * pad / YR), ends={b98: 13.0 / 16})   # known since before the start
    for tl, ends, ops in B:
        kind, coord = KINDS[[0, 2, 3, 4][len(S) % 4]]; n = rng.choice([2, 3]); bs = tiny(rng, n)
        if ends: bs[0]["evol"] = {"type": "BolmontMathis2016", "mass": 1.0, "diss": False}
        if len(ends) > 1: bs[1]["m"] = 1e-2; bs[1]["evol"] = {"type": "Baraffe1998", "mass": 1.0, "diss": False}
        on = bool(ends) and rng.random() < 0.85
        lo = [["new"], ["integ", gen.integ(rng, kind, q, 2 * q, 3 * q, coord)], ["iinit"]]
        for o in ops:
            if o[0] == "step": lo.append(["iterate", 1]); continue
            if rng.random() < 0.3: lo += [["save", "o.bin"], ["restore", "o.bin"]]
            lo.append(["limits", o[1] * q] if o[0] == "limit" else ["periods", o[1] * q, o[2] * q])
        ee = [x * q * pad for x in ends] if on else []
        S.append(gen.sc("model-%s-%s-%s" % (kind, tl, ends), bs, {"evol": on}, lo, t0=YR * (1 + 1e-12), tlimit=tl * q, dump="st", ends=ee))
    # runs to the end: limits on, just below and just above multiples of the step, and less than a step away
    for rep in range(200 if big else 30):
        for kind, coord in KINDS:
            bs = tiny(rng, rng.choice([1, 2, 3])); dt = rng.choice([rng.uniform(0.01, 0.3), 0.1, 0.125])
            if kind == "ias15": dt = rng.uniform(1e-3, 0.1)
            m = rng.randrange(1, 40); lim = dt * m * rng.choice([1.0, 1 - 1e-9, 1 + 1e-9, 1.0 + 0.5 / m]) if rng.random() < 0.8 else dt * rng.uniform(0.05, 0.99)
            ops = [["new"], ["integ", gen.integ(rng, kind, dt, dt * 3, 1e9, coord)], ["iinit"], ["iterate", 100000]]
            lim0 = lim
            for x in range(rng.randrange(3)):
                lim2 = lim * rng.uniform(1.05, 3)
                ops += [["save", "o.bin"], ["restore", "o.bin"], ["limits", lim2], ["iterate", 100000]]; lim = lim2
            S.append(gen.sc("end-%s-%s" % (kind, coord), bs, {}, ops, tlimit=lim0, dump="st", ends=[]))
    # options one after the other, whatever their order of magnitude
    for kind, coord in KINDS * (8 if big else 2):
        lo = [["new"], ["integ", gen.integ(rng, kind, 1e-3, rng.uniform(0.1, 9), rng.uniform(0.1, 9), coord)], ["iinit"]]
        for x in range(8):
            lo.append(["periods", rng.choice([-1.0, 0.0, gen.lu(rng, 0.01, 100)]), rng.choice([-1.0, 0.0, gen.lu(rng, 0.01, 100)])] if rng.random() < 0.7 else ["limits", gen.lu(rng, 0.01, 1e4)])
            if rng.random() < 0.3: lo += [["save", "o.bin"], ["restore", "o.bin"]]
        S.append(gen.sc("options-%s-%s" % (kind, coord), tiny(rng, 2), {}, lo, tlimit=100.0, dump="st", ends=[]))
    c.validate("C04", c.run_harness(S))
    # ---- the real program ----
    specs = []
    for kind, coord in KINDS:
        for ext in ("bin", "json"):
            for ks in ([["ctl", "flat"], ["evol", "ctl"]] if not big else [[], ["ctl", "flat"], ["evol", "ctl"], ["wind", "disk", "gr"]]):
                dt = rng.uniform(0.002, 0.01)
                specs.append({"kind": kind, "coord": coord, "ks": ks, "n": rng.choice([2, 3]), "ext": ext, "dt": dt, "hp": 1.31371 * dt, "rp": rng.choice([2.21371, 3.41373]) * dt, "limit": dt * rng.uniform(12.2, 14.8)})
                if kind == "ias15": specs[-1].update(dt=dt / 10, hp=dt * 0.8, rp=dt * 2, limit=0.4)
    cli.make_cases(c, specs); P = cli.Prog(c)
    for s in specs:
        s["ends"] = []
        for b in s["sc"]["bodies"]:
            e = b["evol"]
            if s["sc"]["effects"]["evol"] and e["type"] != "none":
                t = c.tables[inputs.path(e["type"], e["mass"])][-1][0]; t = 10 ** t if e["type"] == "GalletBolmont2017" else t
                s["ends"].append(t * YR - s["sc"]["t0"])
    # resumes with options: what the library does with them is the reference
    jobs, L = [], []
    for s in specs:
        for rep in range(12 if big else 4):
            k = rng.randrange(len(s["refs"])); it = s["refs"][k]; t = cli.unbits(it["t"]); dt, lim = s["dt"], s["limit"]
            kind = rng.choice(["none", "lower", "raise", "raise", "past", "beyond", "nonpos"])
            if t >= lim: kind = "raise"
            new = {"none": -1.0, "lower": t + (lim - t) * rng.uniform(0.1, 0.9), "raise": lim * rng.uniform(1.05, 1.6), "past": t * rng.uniform(0.3, 0.95), "beyond": (max(s["ends"]) if s["ends"] else lim) * rng.uniform(1.01, 1.1), "nonpos": rng.choice([0.0, -3.5])}[kind]
            hp = rng.choice([-1.0, -1.0, 0.0, dt * rng.choice([0.41371, 2.61371, 5.31371])]); rp = rng.choice([-1.0, -1.0, 0.0, dt * rng.choice([0.71371, 1.41371, 4.61371])])
            new, hp, rp = round(new, 9), round(hp, 9), round(rp, 9)   # short decimals are read alike by everybody
            jobs.append((s, k, kind, new, hp, rp, rng.random()))
            src = s["d"] + "/ref%d.%s" % (k + 1, s["ext"])
            ends = s["ends"]; a = new <= 0 or (all(new <= x for x in ends) if new > lim else new >= t)
            o = c.work + "/j%d" % len(L); L.append(gen.sc("opt", [], {}, [["restore", src], ["periods", hp, rp]] + ([["limits", new], ["hist", 0], ["iterate", 1000000, o + "_#." + s["ext"]]] if a else []), dump="it", histfile=o + ".hist"))
    lib_ = {}
    for l in open(c.run_harness(L, name="opt")):
        r = json.loads(l); i = r["cfg"]["id"]
        bad = [e for e in r["ev"] if e["res"] != "ok"]
        if bad: c.fail("options are applied by the library", {"tag": jobs[i][0]["tag"], "job": jobs[i][1:], "why": bad[0].get("why")}); raise lib.Stop()
        lib_[i] = r["ev"][-1]["out"].get("saved", 0)
    def go(a):
        i, (s, k, kind, new, hp, rp, sd) = a; g = random.Random(sd); d = P.dir(); nh = s["refs"][k]["nh"]
        snap = d + "/s." + s["ext"]; shutil.copy(s["d"] + "/ref%d.%s" % (k + 1, s["ext"]), snap)
        open(d + "/h.hist", "wb").write(s["hist"][:nh * s["per"]] + (b"" if g.random() < 0.5 else s["hist"][nh * s["per"]:][:g.randrange(400)]))
        opts = []
        for name, x in (("historic-snapshot-period", hp), ("recovery-snapshot-period", rp), ("time-limit", new)):
            if x != -1.0: opts.append(["--%s=%r" % (name, x)] if x < 0 or g.random() < 0.5 else ["--%s" % name, repr(x)])
        opts += [[], ["--silent"], ["-s"]][g.randrange(3):][:1]; opts += [[], ["--limit", "3600"], ["-l", "3600"], ["--limit=3600"], ["-l3600"]][g.randrange(5):][:1]
        g.shuffle(opts); pos = [[snap], [d + "/h.hist"]]; args = ["resume"]
        cut = g.randrange(len(opts) + 1)
        args += sum(opts[:cut], []) + pos[0] + (pos[1] if g.random() < 0.5 else []); args += [] if pos[1][0] in args else pos[1]
        args += sum(opts[cut:], [])
        before = {f: cli.rd(d + "/" + f) for f in os.listdir(d)}
        rc, txt = P.run(args, d, mono=10**6 if "3600" in " ".join(args) and g.random() < 0.7 else None); after = {f: cli.rd(d + "/" + f) for f in os.listdir(d)}
        ref = s["hist"][:nh * s["per"]] + (cli.rd(c.work + "/j%d.hist" % i) or b""); h = after.get("h.hist", b"")
        o = {"rc": -14 if rc == "hang" else rc, "t": s["refs"][k]["t"], "tl": lib.bits(s["limit"]), "new": lib.bits(new), "same": before == after, "hlen": len(h), "reflen": len(ref),
             "hgood": cli.near(h, ref) if s["ext"] == "json" else cli.good(h, ref), "snapgood": True, "args": args, "kind": kind}
        m = lib_[i]
        if rc == 0: # the last snapshot must be the one the library wrote last; without any, the old one stays
            want = c.work + "/j%d_%d.%s" % (i, m, s["ext"]) if m else s["d"] + "/ref%d.%s" % (k + 1, s["ext"])
            o["snap"] = (snap, want)
        return o, d
    R = cli.pmap(go, list(enumerate(jobs)))
    X = cli.restored(c, [p for o, d in R for p in o.get("snap", ())])
    for (o, d), (s, *_r) in zip(R, jobs):
        if "snap" in o:
            a, b = (X[p] for p in o.pop("snap"))
            o["snapgood"] = a is not None and b is not None and (a["fp"] == b["fp"] if s["ext"] == "bin" else a["nh"] == b["nh"] and abs(cli.unbits(a["t"]) - cli.unbits(b["t"])) < 1e-6 and a["hp"] == b["hp"] and a["rp"] == b["rp"])
        shutil.rmtree(d)
    # execution time limits, with a stopwatch that advances at every reading
    def watch(a):
        s, mono, lim, sd = a; g = random.Random(sd); d = P.dir()
        args = ["start", s["case"], d + "/s." + s["ext"], d + "/h.hist"] + g.choice([["--limit", str(lim)], ["-l", str(lim)], ["--limit=%d" % lim]]) + g.choice([[], ["-s"]])
        rc, txt = P.run(args, d, mono=mono)
        h = cli.rd(d + "/h.hist") or b""; n = len(h)
        o = {"rc": -14 if rc == "hang" else rc, "hlen": n, "hgood": cli.good(h, s["hist"]), "must": mono >= lim * 10**6, "mustnot": lim >= 3600, "files": len([f for f in os.listdir(d) if f.startswith("s.")]), "mono": mono, "lim": lim, "rmust": False, "r1len": 0}
        # what it left, then resumed (once or in slices) to the end
        o["snap"] = d + "/s." + s["ext"]; o["rrc"] = 0; keep = P.dir()
        if os.path.exists(o["snap"]): shutil.copy(o["snap"], keep); o["snap"] = keep + "/s." + s["ext"]
        if n < len(s["hist"]):
            for q in range(60):
                lm = [] if g.random() < 0.3 else ["--limit", str(lim)]
                o["rrc"], txt = P.run(["resume", d + "/s." + s["ext"], d + "/h.hist", "-s"] + lm, d, mono=mono)
                if q == 0: o["rmust"] = bool(lm) and mono >= lim * 10**6 and s["kind"] != "ias15" and len(s["hist"]) - n >= 4 * s["per"]; o["r1len"] = len(cli.rd(d + "/h.hist"))
                if o["rrc"] != 0 or len(cli.rd(d + "/h.hist")) >= len(s["hist"]): break
            # the last slice may have ended with a limit between the last record and the end
            if o["rrc"] == "hang": o["rrc"] = -14
        h = cli.rd(d + "/h.hist") or b""; o["rhlen"] = len(h); o["rhgood"] = cli.same(s, h)
        shutil.rmtree(d); return o
    W = [(s, mono, lim, rng.random()) for s in specs for mono, lim in [(10**7, 1), (10**6, 1), (4 * 10**5, rng.choice([1, 2, 3])), (10, 3600), (10**6, 3600)] + ([(3 * 10**5, rng.choice([1, 2, 3])) for _ in range(4)] if big else [])]
    for s in specs:
        d = P.dir(); P.run(["start", s["case"], d + "/s." + s["ext"], d + "/h.hist", "-s"], d); s["files"] = len([f for f in os.listdir(d) if f.startswith("s.")]); shutil.rmtree(d)
    RW = cli.pmap(watch, W)
    X = cli.restored(c, [o["snap"] for o in RW if os.path.exists(o["snap"])])
    for o in RW:
        it = X.get(o.pop("snap")); o["full"] = it is not None; o["nh"] = it["nh"] if it else 0
    runs = []
    for s in specs:
        evs = [{"op": "program", "args": [], "res": "ok", "out": o} for (o, d), j in zip(R, jobs) if j[0] is s]
        evs += [{"op": "stopwatch", "args": [], "res": "ok", "out": o} for o, w in zip(RW, W) if w[0] is s]
        runs.append(({"tag": s["tag"], "reflen": len(s["hist"]), "per": s["per"], "files": s["files"], "ends": [lib.bits(x) for x in s["ends"]]}, evs))
    c.validate("C04", trace(c, "c04", runs))
