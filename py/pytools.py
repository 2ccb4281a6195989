"""Evaluates the repository's Python orbital tools (under python3-vt): pytools.py PYROOT IN.json; one JSON result per line."""
import sys, json, struct, warnings, os
sys.dont_write_bytecode = True; warnings.simplefilter("ignore")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")); sys.path.insert(0, sys.argv[1])
pair = lambda x: list(struct.unpack(">ii", struct.pack(">d", float(x))))
import posidonius
from posidonius import tools
from posidonius.constants import G
from posidonius.particles.axes import Axes
def one(op, o):
    if op == "tocart":
        x, v = tools.calculate_cartesian_coordinates(o["m"], o["q"], o["e"], o["i"], o["p"], o["n"], o["l"])
        return {"xv": [pair(y) for y in (x.x(), x.y(), x.z(), v.x(), v.y(), v.z())]}
    if op == "tokep":
        r = tools.calculate_keplerian_orbital_elements(o["m"], Axes(*o["x"]), Axes(*o["v"]))
        return {"el": {k: pair(y) for k, y in zip("aqeipnlf", r)}}
    if op == "tokeps":      # several moments at once
        import numpy as np
        X = np.array(o["x"]); V = np.array(o["v"])
        r = tools.calculate_keplerian_orbital_elements(np.array(o["m"]), Axes(*X.T), Axes(*V.T))
        return {"els": [{k: pair(y[j]) for k, y in zip("aqeipnlf", r)} for j in range(len(X))]}
    if op in ("tocartm", "tokepm"):      # about several bodies
        k = {"masses": o["ms"], "positions": [Axes(*z) for z in o["xs"]], "velocities": [Axes(*z) for z in o["vs"]]}
        if len(o["ms"]) == 1 and o["bare"]: k = {q: z[0] for q, z in k.items()}
        if op == "tocartm":
            x, v = tools.calculate_cartesian_coordinates(o["m"], o["q"], o["e"], o["i"], o["p"], o["n"], o["l"], **k)
            return {"xv": [pair(y) for y in (x.x(), x.y(), x.z(), v.x(), v.y(), v.z())]}
        r = tools.calculate_keplerian_orbital_elements(o["m"], Axes(*o["x"]), Axes(*o["v"]), **k)
        return {"el": {k: pair(y) for k, y in zip("aqeipnlf", r)}}
    t, o = o
    if t == "spin": s = tools.calculate_spin(o["w"], o["i"], o["ob"], o["n"]); return {"out": [pair(s.x()), pair(s.y()), pair(s.z())]}
    if t == "pseudo": return {"out": [pair(tools.calculate_pseudo_synchronization_period(o["a"], o["e"], o["ms"], o["mp"]))]}
    if t == "lin":
        import numpy as np
        return {"out": [pair(tools.linear_interpolation(o["t"], np.array(o["xs"]), np.array(o["ys"])))]}
    if t == "cos":
        import numpy as np
        return {"out": [pair(tools.cosine_interpolation(o["t"], np.array(o["xs"]), np.array(o["ys"])))]}
    if t == "size": return {"out": [pair(tools.mass_radius_relation(o["m"], planet_mass_type=o["u"], planet_percent_rock=o["rock"]))]}
    if t == "com":
        m, x, v = tools.calculate_center_of_mass(o["ms"], [Axes(*z) for z in o["xs"]], [Axes(*z) for z in o["vs"]])
        return {"out": [pair(z) for z in (m, x.x(), x.y(), x.z(), v.x(), v.y(), v.z())]}
    raise KeyError(t)
print(json.dumps({"G": pair(G)}))
for op, o in json.load(open(sys.argv[2])):
    try: print(json.dumps({"res": "ok", "out": one(op, o)}))
    except Exception as e: print(json.dumps({"res": "panic", "why": repr(e)[:200], "out": {}}))
