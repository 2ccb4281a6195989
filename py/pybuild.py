"""Declares scenarios through the repository's Python package (under python3-vt) and writes the case files:
pybuild.py PYROOT IN.json OUTDIR; one JSON result per line."""
import sys, json, os, warnings, io, contextlib
sys.dont_write_bytecode = True; warnings.simplefilter("ignore")
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")); sys.path.insert(0, sys.argv[1])
import posidonius
from posidonius import effects
from posidonius.particles.axes import Axes
from posidonius.particles import particle as pmod
GR = {"kidder": "Kidder1995", "anderson": "Anderson1975", "newhall": "Newhall1983"}
EV = ("Baraffe2015", "Leconte2011", "Baraffe1998", "BolmontMathis2016", "GalletBolmont2017")
COORD = {"jacobi": "Jacobi", "democratic": "DemocraticHeliocentric", "whds": "WHDS"}
KIND = {"whfast": "WHFast", "ias15": "Ias15", "leapfrog": "LeapFrog"}
def pad(l): return list(l) + [0.0] * (1024 - len(l))
def tmodel(t):
    T = effects.tides
    if t["model"] == "ctl": return T.ConstantTimeLag({"dissipation_factor_scale": t["scale"], "dissipation_factor": t["diss"], "love_number": t["k2"]})
    if t["model"] == "creep": return T.CreepCoplanar({"uniform_viscosity_coefficient": t["visc"]})
    return T.Kaula({"love_number_excitation_frequency": pad(t["freq"]), "imaginary_part_love_number": pad(t["im"]), "real_part_love_number": pad(t["re"]), "num_datapoints": float(len(t["freq"]))})
def fmodel(t):
    F = effects.rotational_flattening
    return F.OblateSpheroid({"love_number": t["k2"]}) if t["model"] == "oblate" else F.CreepCoplanar({"uniform_viscosity_coefficient": t["visc"]})
def body(b):
    q = posidonius.Particle(b["m"], b["r"], b["rg"], Axes(*b["x"]), Axes(*b["v"]), Axes(*b["s"]))
    for k in b.get("order", ["tides", "flat", "gr", "wind", "disk", "evol"]):
        e = b[k]; role = e.get("role")
        if k == "tides": q.set_tides({"central": lambda: effects.tides.CentralBody(tmodel(e)), "orbiting": lambda: effects.tides.OrbitingBody(tmodel(e)), "none": effects.tides.Disabled}[role]())
        if k == "flat": q.set_rotational_flattening({"central": lambda: effects.rotational_flattening.CentralBody(fmodel(e)), "orbiting": lambda: effects.rotational_flattening.OrbitingBody(fmodel(e)), "none": effects.rotational_flattening.Disabled}[role]())
        if k == "gr": q.set_general_relativity({"central": lambda: effects.general_relativity.CentralBody(GR[e["impl"]]), "orbiting": effects.general_relativity.OrbitingBody, "none": effects.general_relativity.Disabled}[role]())
        if k == "wind": q.set_wind(effects.wind.Interaction({"k_factor": e["k"], "rotation_saturation": e["sat"]}) if e["on"] else effects.wind.Disabled())
        if k == "disk": q.set_disk({"central": lambda: effects.disk.CentralBody({"alpha": e["alpha"], "inner_edge_distance": e["inner"], "lifetime": e["life"], "mean_molecular_weight": e["mu"], "outer_edge_distance": e["outer"], "surface_density_normalization": e["sigma0"]}), "orbiting": effects.disk.OrbitingBody, "none": effects.disk.Disabled}[role]())
        if k == "evol":
            v = effects.evolution; t = e["type"]
            q.set_evolution(v.NonEvolving() if t == "none" else v.LeconteChabrier2013(e["diss"]) if t == "LeconteChabrier2013" else getattr(v, t)(e["mass"]))
    if "ref" in b: q.set_reference(pmod.ReferenceParticle(b["ref"]) if b["ref"] >= 0 else pmod.MostMassiveParticle())
    return q
def build(s, out):
    E = s["effects"]; g = s["integ"]
    u = posidonius.Universe(s["t0"], s["tlimit"], g["dt"], g["rp"], g["hp"], posidonius.ConsiderEffects({"tides": E["tides"], "rotational_flattening": E["flat"], "general_relativity": E["gr"], "disk": E["disk"], "wind": E["wind"], "evolution": E["evol"]}))
    for b in s["bodies"]: u.add_particle(body(b))
    a = {"integrator": KIND[g["kind"]]}
    if g["kind"] == "whfast": a["whfast_alternative_coordinates"] = COORD[g["coord"]]
    u.write(out, **a)
    # the same universe can be written again
    u.write(out + ".again", **a)
    return {"again": open(out).read() == open(out + ".again").read()}
for i, s in enumerate(json.load(open(sys.argv[2]))):
    f = os.path.join(sys.argv[3], "case%d.json" % i)
    try:
        with contextlib.redirect_stdout(io.StringIO()): r = build(s, f)
        print(json.dumps(dict(r, res="ok", file=f)))
    except Exception as e: print(json.dumps({"res": "panic", "why": repr(e)[:300], "kind": type(e).__name__, "again": True, "file": f}))
