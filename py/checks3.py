"""Checks of the integrators."""
import json, math, os, random
import gen, lib, inputs
from checks import check, trace, short_tables, run_case, KINDS, YR, evolve_cfg
MODELLED = ["ctl", "flat", "wind", "disk", "evol", "gr"]      # effects whose equations Dynamics.tla holds

def slow_tables(c):
    """tables whose rows are farther apart than a short run is long, so that evolution is smooth within it"""
    inputs.write(c, rows=4, years=(1.0, 9.0))
    return 365.25 * 1.02, 5.0

def strong(rng, bs, e, host):
    """effects strong enough to matter within a step, weak enough to be integrated"""
    for i, b in enumerate(bs):
        if b["tides"]["model"] == "ctl": b["tides"]["diss"] = gen.lu(rng, 1e-1, 1e2) * (850.0 if i != host else 0.05)
    return bs, e

def step_runs(c, kind, coord, reps, nsteps, dtr, tables, ns=(1, 2, 3, 4), ksets=None, tag="", tol="1e-13", **kw):
    rng = c.rng; S = []; t0, end = tables
    for rep in range(reps):
        ks = gen.ksubset(rng, MODELLED, 0.5) if ksets is None else rng.choice(ksets)
        n = rng.choice(ns); n = max(n, 2) if ks else n
        host = rng.randrange(n)
        bs, e = run_case(c, rng, n, host, ks, **kw) if n > 1 else (gen.system(rng, 1, 0), dict(gen.OFF))
        strong(rng, bs, e, host)
        if "gr" in ks: bs[host]["gr"]["impl"] = rng.choice(["anderson", "newhall"])         # Kidder: see C17
        if kind == "ias15":
            for b in bs:
                if b["disk"]["role"] == "central": b["disk"]["inner"] = 0.01    # edges are not smooth
                if b["wind"]["on"]:                                             # its step control hardly looks at spins
                    w = math.sqrt(sum(x * x for x in b["s"])); rate = b["wind"]["k"] * min(w, b["wind"]["sat"]) ** 2 * math.sqrt(b["r"] / 4.65e-3 / b["m"]) / (b["m"] * (b["rg"] * b["r"]) ** 2)
                    b["wind"]["k"] *= gen.lu(rng, 1e-7, 1e-3) / rate if rate > 0 else 1
        dt = gen.lu(rng, *dtr)
        ops = [["new"], ["integ", gen.integ(rng, kind, dt, dt * rng.choice([0.5, 1.0, 2.5, 1e6]), 1e9, coord)], ["iinit"]] + [["iterate", 1]] * nsteps
        S.append(gen.sc("%s-%s-%s-%s-n%d-h%d" % (tag, kind, coord, "+".join(bs[host]["gr"]["impl"] if k == "gr" else k for k in ks), n, host), bs, e, ops, t0=t0, tlimit=end, dump="st", hist=True, tol=tol, **evolve_cfg(c, bs)))
    return S

@check("C21")
def c21(c):
    big = c.thorough
    S = step_runs(c, "leapfrog", "jacobi", 1200 if big else 250, 5, (1e-3, 0.05), short_tables(c), ns=(1, 2, 2, 3, 4, 6), tag="lf")
    c.validate("C21", c.run_harness(S))

def kepler_runs(c, reps, tag, emax=0.97, unbound=0.35, nsteps=3, long=None):
    """two (or more) bodies without effects: any eccentricity, bound or not, any time step"""
    rng = c.rng; S = []
    for rep in range(reps):
        for coord in ("jacobi", "democratic", "whds"):
            m0 = rng.uniform(0.1, 1.5); m1 = gen.lu(rng, 1e-9, 1e-6 if nsteps > 3 and coord == "democratic" else m0 if rng.random() < 0.2 else 1e-3); mu = gen.G * (m0 + m1)
            kind = "bound" if rng.random() > unbound else "free"
            q = gen.lu(rng, 0.02, 2)
            if kind == "bound":
                e = rng.choice([0.0, rng.uniform(0, 0.3), rng.uniform(0.3, 0.9), rng.uniform(0.9, emax)])
                a = q / (1 - e); x, v = gen.orbit(mu, a, e, rng.uniform(0, 3.1), rng.uniform(0, 6.28), rng.uniform(0, 6.28), rng.uniform(0, 6.28))
                P = 2 * math.pi * math.sqrt(a**3 / mu); h = P * gen.lu(rng, 1e-3, 0.3 if rng.random() < 0.6 else 30) if not long else P * gen.lu(rng, 1.0, 10.0)
                cond = (1 + 2 * math.pi * h / P) / (1 - e) ** 3
            else:
                e = rng.choice([1.0, 1 + gen.lu(rng, 1e-6, 1e-1), rng.uniform(1.1, 5)])
                nu = rng.uniform(-0.9, 0.9) * math.acos(-1 / e); p = q * (1 + e); r = p / (1 + e * math.cos(nu)); k = math.sqrt(mu / p)
                om, inc, Om = rng.uniform(0, 6.28), rng.uniform(0, 3.1), rng.uniform(0, 6.28)
                x = gen.rot([r * math.cos(nu), r * math.sin(nu), 0], om, inc, Om); v = gen.rot([-k * math.sin(nu), k * (e + math.cos(nu)), 0], om, inc, Om)
                T = q / math.sqrt(2 * mu / q); h = T * (gen.lu(rng, 1e-3, 10) if rng.random() < 0.5 else gen.lu(rng, 3.0, 300)); cond = 1 + (h / T) + ((r + nsteps * h * math.sqrt(2 * mu / r + mu * (e - 1) / q)) / q) ** 2
            if (a * (1 + e) if e < 1 else math.sqrt(sum(y * y for y in x)) + 4 * h * math.sqrt(sum(y * y for y in v))) > 80: continue      # bodies are ejected beyond 100 AU
            host = rng.randrange(2)
            bs = [gen.body(m0, 1e-6, 0.5, [0, 0, 0], [0, 0, 0], gen.rvec(rng, 1.0)), gen.body(m1, 1e-7, 0.5, x, v, gen.rvec(rng, 1.0))]
            if host: bs.reverse()
            tol = 4e-14 * cond * (20 if kind == "free" else 4)
            if tol > 1e-7: continue
            ops = [["new"], ["integ", gen.integ(rng, "whfast", h, 1e9, 1e9, coord)], ["iinit"]] + [["iterate", 1]] * nsteps
            S.append(gen.sc("%s-%s-%s-h%d" % (tag, coord, kind, host), bs, {}, ops, dump="st", tol=repr(tol), raw=[[], []], aux=[]))
    return S

@check("C22")
def c22(c):
    big = c.thorough; S = []; tb = short_tables(c)
    for coord in ("jacobi", "democratic", "whds"):
        S += step_runs(c, "whfast", coord, 100 if big else 16, 4, (1e-3, 0.05), tb, ns=(1, 2, 2, 3, 4, 6), tag="wh", tol="1e-13")
    S += kepler_runs(c, 400 if big else 36, "two")
    S += kepler_runs(c, 40 if big else 4, "many", nsteps=30, unbound=0.5) + kepler_runs(c, 40 if big else 4, "turns", nsteps=30, unbound=0.0, emax=0.95, long=True)
    c.validate("C22", c.run_harness(S))

def orbit_runs(c, reps, nsteps, tag, tol):
    """two or three bodies without effects: eccentric and unbound orbits, initial steps up to far too long"""
    rng = c.rng; S = []
    for rep in range(reps):
        m0 = rng.uniform(0.1, 1.5); m1 = gen.lu(rng, 1e-9, m0 if rng.random() < 0.3 else 1e-3); mu = gen.G * (m0 + m1); q = gen.lu(rng, 0.02, 2)
        e = rng.choice([0.0, rng.uniform(0, 0.9), rng.uniform(0.9, 0.99), rng.uniform(1.05, 4)])
        if e < 1:
            x, v = gen.orbit(mu, q / (1 - e), e, rng.uniform(0, 3.1), rng.uniform(0, 6.28), rng.uniform(0, 6.28), rng.choice([rng.uniform(0, 6.28), rng.uniform(-0.3, 0.3)]))
        else:
            nu = rng.uniform(-0.8, 0.5) * math.acos(-1 / e); p = q * (1 + e); r = p / (1 + e * math.cos(nu)); k = math.sqrt(mu / p)
            o = [rng.uniform(0, 6.28), rng.uniform(0, 3.1), rng.uniform(0, 6.28)]
            x = gen.rot([r * math.cos(nu), r * math.sin(nu), 0], *o); v = gen.rot([-k * math.sin(nu), k * (e + math.cos(nu)), 0], *o)
        bs = [gen.body(m0, 1e-6, 0.5, [0, 0, 0], [0, 0, 0], gen.rvec(rng, 1.0)), gen.body(m1, 1e-7, 0.5, x, v, gen.rvec(rng, 1.0))]
        T = q / math.sqrt(mu / q); dt = T * gen.lu(rng, 1e-3, 10)
        if sum(y * y for y in x) > 100: continue        # bodies are ejected beyond 100 AU
        if rng.random() < 0.4: bs.append(gen.body(m1 * 0.1, 1e-9, 0.5, gen.scale(rng.uniform(3, 9) * q / math.sqrt(sum(y * y for y in x)), x), gen.scale(0.3, v), [0, 0, 1.0]))
        rng.shuffle(bs)
        ops = [["new"], ["integ", gen.integ(rng, "ias15", dt, 1e9, 1e9, "jacobi")], ["iinit"]] + [["iterate", 1]] * nsteps
        S.append(gen.sc("%s-e%.2f-n%d-dt%.3g" % (tag, e, len(bs), dt / T), bs, {}, ops, dump="st", tol=tol, raw=[[]] * len(bs), aux=[]))
    return S

def flyby_runs(c, reps, nsteps, tag, tol):
    """a quick encounter of two bodies while a planet sets the pace: steps that have succeeded so far are refused"""
    rng = c.rng; S = []
    for rep in range(reps):
        m0 = rng.uniform(0.3, 1.5); m1 = gen.lu(rng, 1e-6, 1e-3); q = gen.lu(rng, 0.02, 0.2); mu = gen.G * (m0 + m1); P = 2 * math.pi * math.sqrt(q**3 / mu)
        x, v = gen.orbit(mu, q, rng.uniform(0, 0.1), rng.uniform(0, 3.1), rng.uniform(0, 6.28), rng.uniform(0, 6.28), rng.uniform(0, 6.28))
        w = gen.lu(rng, 0.01, 0.1); D = w * P * rng.uniform(0.2, 0.6); b = D * gen.lu(rng, 2e-3, 0.05); m = gen.lu(rng, 1e-2, 1.0) * b * w * w / gen.G
        c0 = gen.rvec(rng, rng.uniform(6, 12) * max(q, D)); V = gen.rvec(rng, 0.3 * math.sqrt(mu / q))
        u = gen.rot([1.0, 0, 0], rng.uniform(0, 6.28), rng.uniform(0, 3.1), rng.uniform(0, 6.28)); y = gen.rvec(rng, 1.0)
        k = sum(i * j for i, j in zip(u, y)); y = [j - k * i for i, j in zip(u, y)]; k = math.sqrt(sum(i * i for i in y)); y = [i / k for i in y]
        off = [D * i + b * j for i, j in zip(u, y)]; f = rng.uniform(0.05, 1)
        bs = [gen.body(m0, 1e-6, 0.5, [0, 0, 0], [0, 0, 0], [0, 0, 1.0]), gen.body(m1, 1e-9, 0.5, x, v, [0, 0, 1.0]),
              gen.body(m, 1e-12, 0.5, c0, V, [0, 0, 1.0]), gen.body(m * f, 1e-12, 0.5, gen.add(c0, off), gen.add(V, gen.scale(-w, u)), [0, 0, 1.0])]
        rng.shuffle(bs)
        ops = [["new"], ["integ", gen.integ(rng, "ias15", P * gen.lu(rng, 1e-3, 0.02), 1e9, 1e9, "jacobi")], ["iinit"]] + [["iterate", 1]] * nsteps
        S.append(gen.sc("%s-b%.3g" % (tag, b / D), bs, {}, ops, dump="st", tol=tol, raw=[[]] * len(bs), aux=[]))
    return S

@check("C23")
def c23(c):
    big = c.thorough; S = []; tb = slow_tables(c)
    S += step_runs(c, "ias15", "jacobi", 150 if big else 40, 5, (1e-4, 0.5), tb, ns=(1, 2, 2, 3, 4), tag="ia", tol="2e-13")
    S += step_runs(c, "ias15", "jacobi", 40 if big else 8, 20, (0.5, 5.0), tb, ns=(2, 3), tag="long", tol="2e-13")
    S += orbit_runs(c, 240 if big else 40, 10, "orbit", "1e-12")
    S += flyby_runs(c, 60 if big else 12, 16, "flyby", "1e-12")
    c.validate("C23", c.run_harness(S))

@check("C20")
def c20(c):
    big = c.thorough; rng = c.rng; S = []; t0, end = short_tables(c)
    every = ["ctl", "kaula", "creep", "flat", "gr", "wind", "disk", "evol"]
    single = [[k] for k in every] + [["flat", "wind"], ["ctl", "flat"], ["wind", "evol"], ["evol"], [], ["gr", "wind"]]
    # calculations
    for rep in range(60 if big else 12):
        for ks in [rng.choice(single), gen.kinds(rng)]:
            n = rng.choice([2, 3, 4]); host = rng.randrange(n)
            bs, e = run_case(c, rng, n, host, ks); ops = [["new"]]; t = 0.0
            for _ in range(5):
                t = rng.choice([t + rng.uniform(0, 0.1) * end, rng.uniform(0, end)]); i = rng.randrange(n)
                ops.append(gen.restate(rng, bs, i))
                if "creep" in ks: ops[-1][2] = {"sp": [0.0, 0.0, rng.uniform(0.3, 9)], "lazy": True}
                if "kaula" in ks: ops.pop()
                ops.append(["helio"])
                ops.append(["spin", t, rng.random() < 0.8] if rng.random() < 0.5 else gen.eff(rng, t, rng.random() < 0.8, rng.random() < 0.7, rng.random() < 0.7))
            S.append(gen.sc("calc-%s-n%d" % ("+".join(ks), n), bs, e, ops, t0=t0, tlimit=end, modelled=all(k in MODELLED and k != "gr" for k in ks), **evolve_cfg(c, bs)))
    # steps
    for rep in range(12 if big else 2):
        for kind, coord in KINDS:
            for ks in single + [gen.kinds(rng)]:
                n = rng.choice([2, 3, 4]); host = rng.randrange(n)
                bs, e = run_case(c, rng, n, host, ks)
                if "kaula" not in ks and "creep" not in ks: strong(rng, bs, e, host)
                dt = gen.lu(rng, 1e-4, 3e-3)
                ops = [["new"], ["integ", gen.integ(rng, kind, dt, 1e9, 1e9, coord or "jacobi")], ["iinit"], ["torques"]] + [["iterate", 1], ["torques"]] * 4
                S.append(gen.sc("step-%s-%s-%s-n%d" % (kind, coord, "+".join(ks), n), bs, e, ops, t0=t0, tlimit=end, dump="st", modelled=False, **evolve_cfg(c, bs)))
    # bodies declared with the radius, or with the gyration, that their table gives at the start
    T = []
    for typ in ("BolmontMathis2016", "GalletBolmont2017", "Baraffe2015", "Baraffe1998", "LeconteChabrier2013", "Leconte2011"):
        for m in inputs.MASSES[typ]:
            b = gen.system(rng, 1, 0)[0]; b["evol"] = {"type": typ, "mass": m, "diss": False}
            T.append(gen.sc("match-%s-%s" % (typ, m), [b], {"evol": True}, [["new"]], t0=t0, tlimit=end, modelled=False, **evolve_cfg(c, [b])))
    for l in open(c.run_harness(T, "match")):
        d = json.loads(l); t = T[d["cfg"]["id"]]; q = d["ev"][0]
        if q["res"] != "ok": continue
        for k in ("r", "rg"):
            b = dict(t["bodies"][0]); g = lib.unbits(q["st"]["b"][0]["r" if k == "r" else "rg2"]); b[k] = g if k == "r" else math.sqrt(g)
            S.append(gen.sc(t["tag"] + "-" + k, [b], {"evol": True}, [["new"]] + [["spin", 0.0, True]] * ("Leconte2011" not in t["tag"]), t0=t0, tlimit=end, modelled=False, **evolve_cfg(c, [b])))
    c.validate("C20", c.run_harness(S))
