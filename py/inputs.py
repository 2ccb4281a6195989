"""Synthetic model tables (the repository does not ship its input/ directory), in the layouts that
the evolution models read.  Returned also as numbers, so that specifications can be given the raw table."""
import os, random, math
GB = [0.3, 0.4, 0.6, 0.7, 0.8, 0.9, 1.0, 1.1, 1.2, 1.4]
BM = [0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0, 1.1, 1.2, 1.3, 1.4, 1.5]
B15 = [0.010, 0.015, 0.020, 0.030, 0.040, 0.050, 0.060, 0.070, 0.072, 0.075, 0.080, 0.09, 0.11, 0.13, 0.15, 0.17, 0.20, 0.30, 0.40, 0.50, 0.60, 0.70, 0.80, 0.90, 1.00, 1.10, 1.20, 1.30, 1.40]
L11 = [0.010, 0.012, 0.015, 0.020, 0.030, 0.040, 0.050, 0.060, 0.070, 0.072, 0.075, 0.080]
B98 = [0.1, 1.0]
MASSES = {"GalletBolmont2017": GB, "BolmontMathis2016": BM, "Baraffe2015": B15, "Leconte2011": L11, "Baraffe1998": B98, "LeconteChabrier2013": [0.0]}
def path(typ, mass):
    if typ == "GalletBolmont2017": return "Gallet_Bolmont_2017/M_%02d_Z_0134.dat" % round(mass * 10)
    if typ == "BolmontMathis2016": return "Bolmont_Mathis_2016/L%02dZ02r.dat" % round(mass * 10)
    if typ == "Baraffe2015": return "Baraffe_2015/%04d_Msun.dat" % round(mass * 1000)
    if typ == "Leconte2011": return "Leconte_2011/mass_%.4f.dat" % (mass * 1000)
    if typ == "Baraffe1998": return "Baraffe_1998/01Msun.dat" if mass < 0.5 else "Baraffe_1998/SRad_Spli_M-1_0000.dat"
    return "Leconte_Chabrier_2013/Jupiter.dat"
def write(c, rows=None, seed=None, years=(1.0e6, 1.0e7), ends={}, headers=None, smooth=False):
    """Writes every table below c.work/input; rows: number of rows.  Times span the given ages."""
    rng = random.Random("tables/%s/%s" % (c.seed, seed)); out = {}
    base = os.path.join(c.work, "input")
    def grid(k):
        g = [years[0]]
        w = [rng.uniform(0.2, 3) for _ in range(k - 1)]; s = sum(w)
        for x in w: g.append(g[-1] + x / s * (years[1] - years[0]))
        return g
    def put(rel, rws, header=None):
        if rel in ends: rws = [[years[0] + (r[0] - years[0]) * ends[rel]] + r[1:] for r in rws]
        p = os.path.join(base, rel); os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            if header: f.write(header + "\n")
            for r in rws: f.write(" ".join(repr(float(x)) for x in r) + "\n")
        out[rel] = [[float(x) for x in r] for r in rws]
    au = 1.495978707e11
    def rad(): return rng.uniform(0.1, 2.5)
    n = lambda: rows or rng.choice([3, 12, 40])
    for m in GB: put(path("GalletBolmont2017", m), [[math.log10(t), 0, 0, rad(), 0, 0, 0, 0, 0, 0, rng.uniform(3, 9)] for t in grid(n())], header="age a b radius c d e f g h Q" if rng.random() < 0.5 and not headers else None)
    for m in BM: put(path("BolmontMathis2016", m), [[t, rad(), 10 ** rng.uniform(-9, -3)] for t in grid(n())])
    for m in B15: put(path("Baraffe2015", m), [[t, rng.uniform(2000, 6000), rad(), rng.uniform(0.05, 0.4)] for t in grid(n())], header="age teff radius rg2" if headers else None)
    put(path("Baraffe1998", 0.1), [[t, rad()] for t in grid(n())])
    put(path("Baraffe1998", 1.0), [[t, rad() * 6.957e8] for t in grid(n())])
    put(path("LeconteChabrier2013", 0), [[t, rad() * 6.9e7, rng.uniform(0.3, 0.6), rng.uniform(0.2, 0.4), 0.0, 10 ** rng.uniform(-9, -3)] for t in grid(n())])
    aux = grid(n()); lo, hi = aux[0], aux[-1]
    if smooth:
        # gyration radii that grow uniformly, on a uniform grid
        k = len(aux); aux = [lo + (hi - lo) * j / (k - 1.0) for j in range(k)]; ab = [(rng.uniform(0.1, 0.2), rng.uniform(-0.1, 0.1)) for _ in range(12)]
        put("Leconte_2011/rg2BD.dat", [[t] + [a + b * j / (k - 1.0) for a, b in ab] for j, t in enumerate(aux)])
    else: put("Leconte_2011/rg2BD.dat", [[t] + [rng.uniform(0.1, 0.3) for _ in range(12)] for t in aux])
    for m in L11:
        g = [t for t in grid(n())]; span = hi - lo
        g = [lo - 0.1 * span] + g + [hi + 0.1 * span]
        put(path("Leconte2011", m), [[t, rad()] for t in g])
    c.tables = out
    return out
