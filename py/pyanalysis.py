"""Evaluates the repository's Python analysis package (under python3-vt): pyanalysis.py PYROOT IN.json; one JSON result per line."""
import sys, json, struct, warnings, os
sys.dont_write_bytecode = True; warnings.simplefilter("ignore")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")); sys.path.insert(0, sys.argv[1])
pair = lambda x: list(struct.unpack(">ii", struct.pack(">d", float(x))))
import numpy as np
import posidonius
from posidonius.analysis import history, resonances, computation
from posidonius.constants import G
from fractions import Fraction
REST = ["time_step", "spin_x", "spin_y", "spin_z", "radius", "radius_of_gyration_2", "love_number", "scaled_dissipation_factor", "lag_angle", "denergy_dt", "migration_timescale"]
FIELDS = ["current_time", "time_step", "particle", "position_x", "position_y", "position_z", "spin_x", "spin_y", "spin_z", "velocity_x", "velocity_y", "velocity_z", "mass", "radius",
          "radius_of_gyration_2", "love_number", "scaled_dissipation_factor", "lag_angle", "denergy_dt", "migration_timescale"]
def records(o):
    rows = []
    for s in o["snaps"]:
        for i, b in enumerate(s["b"]):
            d = dict(zip(REST, b["rest"]), current_time=s["t"], particle=i, mass=b["m"])
            for k, z in zip("xyz", b["x"]): d["position_" + k] = z
            for k, z in zip("xyz", b["v"]): d["velocity_" + k] = z
            rows.append(tuple([len(rows)] + [d[k] for k in FIELDS]))
    return np.rec.array(np.array(rows, dtype=[("index", "i8")] + [(k, "i8" if k == "particle" else "f8") for k in FIELDS]))
def vec(r, k): return [pair(r[k + "_x"]), pair(r[k + "_y"]), pair(r[k + "_z"])]
def row(r, el=False):
    d = {"t": pair(r["current_time"]), "x": vec(r, "position"), "v": vec(r, "velocity"), "m": pair(r["mass"]), "rest": [pair(r[k]) for k in REST]}
    if el: d.update(a=pair(r["semi-major_axis"]), e=pair(r["eccentricity"]), i=pair(r["inclination"]))
    return d
last = None
def one(op, o):
    global last
    if op == "classify":
        data = records(o); was = data.tobytes()
        star, planets, keys = history.classify(o["n"], data, reference_particle_index=o["ref"], discard_first_hundred_years=o["disc"])
        last = star, planets, keys
        return {"keys": [int(k) for k in keys], "star": [row(r) for r in star], "planets": [[row(r, True) for r in planets[k]] for k in keys], "same": data.tobytes() == was}
    if op == "resdata":
        star, planets, keys = last
        t, a, e, g, n, M, q, Q = resonances.calculate_resonance_data(star, keys, planets)
        return {"rows": [[{k: pair(np.atleast_1d(z[j])[i]) for k, z in zip("taegnMqQ", (t, a, e, g, n, M, q, Q))} for i in range(len(t[j]))] for j in range(len(keys))],
                "given": [[{"t": pair(r["current_time"]), "x": vec(r, "position"), "v": vec(r, "velocity"), "m": pair(r["mass"])} for r in planets[k]] for k in keys], "ms": [pair(r["mass"]) for r in star]}
    if op == "possible":
        l = resonances.get_possible_resonances(o["ratio"], uncertainty=o["unc"], denominator_limit=o["den"], numerator_limit=o["num"], sampling=o["samp"])
        return {"list": [[int(f.numerator), int(f.denominator)] for f in l]}
    if op == "isres":
        A = lambda k: np.array(o[k])
        return {"is": bool(resonances.is_resonance(Fraction(*o["res"]), A("gi"), A("ni"), A("Mi"), A("go"), A("no"), A("Mo"), nb_points=len(o["gi"]), angle_center_value=o["centre"], std_threshold=o["thr"]))}
    if op in ("edot", "mean"):
        if o.get("arr"):
            h = computation.energydot(np.array([o["a"], o["a"]]), np.array([o["e"], o["e"]]), np.array([o["w"]] * 2), np.array([o["ob"]] * 2), o["G"], np.array([o["mp"]] * 2), o["ms"], np.array([o["rp"]] * 2), o["kt"])[1]
        else: h = computation.energydot(o["a"], o["e"], o["w"], o["ob"], o["G"], o["mp"], o["ms"], o["rp"], o["kt"])
        return {"h": pair(h)}
    if op == "shape": return {"xy": [int(z) for z in resonances.get_subplot_shape(o["n"])]}
    raise KeyError(op)
print(json.dumps({"G": pair(G)}))
for op, o in json.load(open(sys.argv[2])):
    try: print(json.dumps({"res": "ok", "out": one(op, o)}))
    except Exception as e: print(json.dumps({"res": "panic", "why": repr(e)[:200], "out": {}}))
