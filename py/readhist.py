"""Runs the repository's history reader on files and reports what it returns (under python3-vt)."""
import sys, json, struct, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs"))
sys.path.insert(0, sys.argv[1])
def pair(x): return list(struct.unpack(">ii", struct.pack(">d", float(x))))
try:
    import pandas
    from posidonius.analysis import history
except Exception as e:
    print(json.dumps({"missing": repr(e)})); sys.exit(0)
F = ["current_time", "time_step", "position_x", "position_y", "position_z", "spin_x", "spin_y", "spin_z", "velocity_x", "velocity_y", "velocity_z", "mass", "radius",
     "radius_of_gyration_2", "love_number", "scaled_dissipation_factor", "lag_angle", "denergy_dt", "migration_timescale"]
for f in json.load(open(sys.argv[2])):
    try:
        n, d = history.read(f)
        print(json.dumps({"res": "ok", "n": int(n), "recs": [{"id": int(r["particle"]), "f": [pair(r[k]) for k in F]} for r in d]}))
    except Exception as e:
        if type(e).__name__ == "StubMissing": print(json.dumps({"missing": repr(e)}))
        else: print(json.dumps({"res": "error", "n": 0, "recs": [], "why": repr(e)[:200]}))
