"""Scenario generators (continuous parameters from the seeded PRNG)."""
import math
G = 6.67428e-11 / 1.495978707e11**3 * 1.9818e30 * 86400.0**2
RSUN = 6.957e8 / 1.495978707e11
REARTH = 6.3781e6 / 1.495978707e11
MEARTH = 1.0 / 332946.050895
MAXI = 11

def lu(rng, a, b): return math.exp(rng.uniform(math.log(a), math.log(b)))
def rvec(rng, norm):
    while True:
        v = [rng.gauss(0, 1) for _ in range(3)]
        n = math.sqrt(sum(x * x for x in v))
        if n > 1e-3: return [norm * x / n for x in v]
def add(a, b): return [x + y for x, y in zip(a, b)]
def sub(a, b): return [x - y for x, y in zip(a, b)]
def scale(k, a): return [k * x for x in a]
def rot(v, om, inc, Om):
    def rz(v, t): c, s = math.cos(t), math.sin(t); return [c*v[0]-s*v[1], s*v[0]+c*v[1], v[2]]
    def rx(v, t): c, s = math.cos(t), math.sin(t); return [v[0], c*v[1]-s*v[2], s*v[1]+c*v[2]]
    return rz(rx(rz(v, om), inc), Om)
def orbit(mu, a, e, inc, om, Om, M):
    """relative state on an ellipse"""
    E = M
    for _ in range(200):
        d = (E - e*math.sin(E) - M) / (1 - e*math.cos(E)); E -= d
        if abs(d) < 1e-14: break
    n = math.sqrt(mu / a**3); r = a*(1-e*math.cos(E))
    x = [a*(math.cos(E)-e), a*math.sqrt(1-e*e)*math.sin(E), 0.0]
    v = [-a*a*n/r*math.sin(E), a*a*n/r*math.sqrt(1-e*e)*math.cos(E), 0.0]
    return rot(x, om, inc, Om), rot(v, om, inc, Om)

OFF = {"tides": False, "flat": False, "gr": False, "disk": False, "wind": False, "evol": False}
def body(m, r, rg, x, v, s):
    return {"m": m, "r": r, "rg": rg, "x": list(map(float, x)), "v": list(map(float, v)), "s": list(map(float, s)),
            "tides": {"role": "none", "model": "none"}, "flat": {"role": "none", "model": "none"}, "gr": {"role": "none", "impl": "none"},
            "wind": {"on": False, "k": 0.0, "sat": 0.0}, "disk": {"role": "none"}, "evol": {"type": "none", "mass": 0.0}}

def system(rng, n, host=0, coplanar=False, emax=0.4, a0=None, close=False, spacing=(1.5, 2.2), msmall=(1e-7, 1e-3), imax=1.0, boost=None):
    """A star at list position `host` and n-1 planets on separated orbits around it."""
    ms = rng.uniform(0.08, 1.4)
    star = body(ms, RSUN*rng.uniform(0.1, 1.2), math.sqrt(rng.uniform(0.02, 0.3)), [0, 0, 0], [0, 0, 0], rvec(rng, 2*math.pi/lu(rng, 0.3, 30)))
    if coplanar: star["s"] = [0.0, 0.0, 2*math.pi/lu(rng, 0.3, 30)]
    a = a0 or lu(rng, 0.01, 0.1) if close else a0 or lu(rng, 0.05, 0.6)
    if n > 6: spacing = (1.3, 1.5)
    ps = []
    for i in range(n - 1):
        m = lu(rng, *msmall); e = rng.uniform(0, emax)
        x, v = orbit(G*(ms+m), a, e, 0.0 if coplanar else rng.uniform(0, imax), rng.uniform(0, 6.28), rng.uniform(0, 6.28), rng.uniform(0, 6.28))
        w = 2*math.pi/lu(rng, 0.2, 20)
        p = body(m, REARTH*lu(rng, 0.3, 12), math.sqrt(rng.uniform(0.1, 0.4)), x, v, [0.0, 0.0, w] if coplanar else rvec(rng, w))
        ps.append(p); a *= rng.uniform(*spacing)
    if boost is None: boost = rng.random() < 0.5
    bs = ps[:host] + [star] + ps[host:]
    if boost:
        dx, dv = rvec(rng, 0.3), rvec(rng, 0.01)
        for b in bs: b["x"] = add(b["x"], dx); b["v"] = add(b["v"], dv)
    return bs

def blob(rng, n, size=2.0):
    """comparable masses at random places (no hierarchy)"""
    return [body(lu(rng, 1e-6, 1.5), REARTH*rng.uniform(0.5, 2), 0.5, rvec(rng, size*rng.uniform(0.2, 1)), rvec(rng, rng.uniform(0.001, 0.02)), rvec(rng, rng.uniform(0.1, 5))) for _ in range(n)]

def sc(tag, bodies, effects, ops, **kw):
    e = dict(OFF); e.update(effects)
    d = {"tag": tag, "t0": 0.0, "tlimit": 1.0e9, "bodies": bodies, "effects": e, "ops": ops, "dump": "universe"}
    d.update(kw); return d

def kick(rng, b, f=1e-3):
    """a small change of state of one body, as a `set` argument"""
    return {"x": [x * (1 + rng.uniform(-f, f)) for x in b["x"]], "v": [x * (1 + rng.uniform(-f, f)) for x in b["v"]]}
def restate(rng, bs, i, lazy=None):
    """move body i along: new position and velocity on a nearby state and a new spin vector"""
    b = bs[i]; o = kick(rng, b, 0.05)
    o["sp"] = rvec(rng, 2*math.pi/lu(rng, 0.2, 20)); o["lazy"] = rng.random() < 0.7 if lazy is None else lazy
    return ["set", i, o]
def special(rng, bs, host, p=0.2):
    """sometimes: the host at rest in the origin, the others at an apsis on an axis, spins along an axis"""
    if rng.random() >= p: return bs
    o = bs[host]["x"]; m0 = bs[host]["m"]
    def along(size, k=None):
        u = [0.0, 0.0, 0.0]; u[rng.randrange(3) if k is None else k] = rng.choice([-1.0, 1.0]) * size; return u
    turn = rng.randrange(3)
    for i, b in enumerate(bs):
        b["s"] = along(math.sqrt(sum(y * y for y in b["s"])), rng.choice([None, turn]))
        if i == host: continue
        d = math.sqrt(sum((y - z) ** 2 for y, z in zip(b["x"], o))); ax = (turn + rng.choice([1, 2])) % 3
        b["x"] = along(d, ax); b["v"] = along(math.sqrt(G * (m0 + b["m"]) / d) * rng.choice([1.0, rng.uniform(0.8, 1.2)]), 3 - ax - turn)
    bs[host]["x"] = [0.0, 0.0, 0.0]; bs[host]["v"] = [0.0, 0.0, 0.0]
    return bs
IG = ["none", "one", "two"]
def eff(rng, t, evol=True, dl=True, acc=True): return ["effects", t, evol, dl, acc, rng.choice(IG)]

def ctl(rng, role): return {"role": role, "model": "ctl", "k2": rng.uniform(0.01, 0.9), "diss": lu(rng, 1e-3, 1e3) * (850.0 if role == "orbiting" else 0.05), "scale": rng.choice([1.0, 10.0, 0.1])}
def oblate(rng, role): return {"role": role, "model": "oblate", "k2": rng.uniform(0.01, 1.5)}
def disk(rng, inner=None, outer=None):
    return {"role": "central", "inner": rng.uniform(0.01, 0.05) if inner is None else inner, "outer": rng.uniform(5, 100) if outer is None else outer, "life": lu(rng, 1e3, 1e9),
            "alpha": lu(rng, 1e-4, 1e-1), "sigma0": lu(rng, 1e-6, 1e-3), "mu": rng.uniform(1.5, 3)}
def wind(rng, b):
    w = math.sqrt(sum(x*x for x in b["s"]))
    return {"on": True, "k": lu(rng, 1e-20, 1e-14), "sat": w * rng.choice([0.1, 0.7, 1.3, 10.0])}
def perms(rng, n, k):
    l = list(range(n)); out = []
    for _ in range(k): rng.shuffle(l); out.append(list(l))
    return out
def ksubset(rng, xs, p): return [x for x in xs if rng.random() < p]

def kaula(rng, role):
    k2 = rng.uniform(0.1, 1.0)
    tab = {"k2": k2, "k0": 0.05, "tau": lu(rng, 1e3, 1e7), "lo": 1e-9, "hi": 1e-2} if role == "orbiting" else {"k2": 1e-4 * k2, "k0": 0.0, "tau": lu(rng, 1e3, 1e5), "lo": -1e-3, "hi": 1e-3}
    return {"role": role, "model": "kaula", "tab": tab}
def creepm(rng, role, visc=None): return {"role": role, "model": "creep", "visc": visc}
def visc(rng): return lu(rng, 1e-4, 1e10)

ALLK = ["ctl", "kaula", "creep", "flat", "gr", "wind", "disk", "evol"]
def rich(rng, n, host, kinds, types=None, gri=None, part=0.85, central=None, coplanar=None, **kw):
    """bodies and effects for the given kinds of effects; the most massive body sits at `host`"""
    cop = "creep" in kinds if coplanar is None else coplanar
    bs = system(rng, n, host, coplanar=cop, close=True, emax=kw.pop("emax", 0.15), **kw)
    h = host if central is None else central
    e = dict(OFF)
    some = lambda: [i for i in range(n) if i != h and rng.random() < part]
    if "ctl" in kinds or "kaula" in kinds or "creep" in kinds:
        e["tides"] = True
        ms = [k for k in ("ctl", "kaula", "creep") if k in kinds]
        mk = lambda role, m: ctl(rng, role) if m == "ctl" else kaula(rng, role) if m == "kaula" else creepm(rng, role, visc(rng))
        bs[h]["tides"] = mk("central", rng.choice(ms))
        o = some() or [(h + 1) % n]
        for i in o: bs[i]["tides"] = mk("orbiting", rng.choice(ms))
    if "flat" in kinds:
        e["flat"] = True
        for i in [h] + some():
            t = bs[i]["tides"]; role = "central" if i == h else "orbiting"
            bs[i]["flat"] = creepm(rng, role, t["visc"]) if t["model"] == "creep" else oblate(rng, role)
    if "gr" in kinds:
        e["gr"] = True
        bs[host]["gr"] = {"role": "central", "impl": gri or rng.choice(["kidder", "anderson", "newhall"])}
        for i in range(n):
            if i != host and rng.random() < part: bs[i]["gr"] = {"role": "orbiting", "impl": "none"}
    if "wind" in kinds:
        e["wind"] = True
        for i in [host] + ksubset(rng, range(n), 0.2): bs[i]["wind"] = wind(rng, bs[i])
    if "disk" in kinds:
        e["disk"] = True
        bs[h]["disk"] = disk(rng)
        for i in some(): bs[i]["disk"] = {"role": "orbiting"}
    if "evol" in kinds:
        e["evol"] = True
        ts = types or [("BolmontMathis2016", 1.0), ("GalletBolmont2017", 0.8), ("LeconteChabrier2013", 0.0), ("Baraffe2015", 1.0), ("Leconte2011", 0.05), ("Baraffe1998", 1.0)]
        for i in [host] + ksubset(rng, range(n), 0.1):
            t = rng.choice(ts); bs[i]["evol"] = {"type": t[0], "mass": t[1], "diss": rng.random() < 0.5}
    return bs, e
def kinds(rng):
    """a random combination of effects"""
    k = ksubset(rng, ["flat", "gr", "wind", "disk", "evol"], 0.45)
    t = rng.choice([[], ["ctl"], ["ctl"], ["ctl"], ["kaula"], ["creep"], ["ctl", "kaula"]])
    return t + k
def integ(rng, kind=None, dt=0.01, hp=0.1, rp=1e9, coord=None):
    k = kind or rng.choice(["leapfrog", "whfast", "ias15"])
    return {"kind": k, "dt": dt, "hp": hp, "rp": rp, "coord": coord or rng.choice(["jacobi", "democratic", "whds"])}
