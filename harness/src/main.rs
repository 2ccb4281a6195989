//! Conformance harness: replays scenarios (one JSON object per input line) into the posidonius
//! library and records, after every operation, the observable state.  Floating-point values are
//! recorded bit-exactly as pairs of signed 32-bit integers, which is how spec/Reals64.tla reads them.
use posidonius as p;
use p::tools;
use p::{Axes, Integrator, Particle, Universe};
use serde_json::{json, Map, Value};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;

fn bits(x: f64) -> Value {
    // one NaN representation, so that the payload never matters
    let b = if x.is_nan() { 0x7ff8_0000_0000_0000u64 } else { x.to_bits() };
    json!([(b >> 32) as u32 as i32, b as u32 as i32])
}
fn ax(a: &Axes) -> Value { json!([bits(a.x), bits(a.y), bits(a.z)]) }

/// Re-encodes a scenario value: non-integer numbers become bit pairs.
fn enc(v: &Value) -> Value {
    match v {
        Value::Number(n) => if n.is_i64() || n.is_u64() { v.clone() } else { bits(n.as_f64().unwrap()) },
        Value::Array(a) => Value::Array(a.iter().map(enc).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), enc(v))).collect()),
        Value::Null => json!("null"),
        _ => v.clone(),
    }
}
fn f(v: &Value, k: &str) -> f64 { v.get(k).and_then(|x| x.as_f64()).unwrap_or(0.) }
fn fi(v: &Value, i: usize) -> f64 { v.get(i).and_then(|x| x.as_f64()).unwrap_or(0.) }
fn s<'a>(v: &'a Value, k: &str) -> &'a str { v.get(k).and_then(|x| x.as_str()).unwrap_or("") }
fn bl(v: &Value, k: &str) -> bool { v.get(k).and_then(|x| x.as_bool()).unwrap_or(false) }
fn axes(v: &Value) -> Axes { Axes { x: fi(v, 0), y: fi(v, 1), z: fi(v, 2) } }

fn arr1024(v: &Value) -> [f64; 1024] {
    let mut a = [0.; 1024];
    if let Some(l) = v.as_array() { for (i, x) in l.iter().enumerate().take(1024) { a[i] = x.as_f64().unwrap(); } }
    a
}

/// A Maxwell-like Love number spectrum on the full grid: (frequencies, real, imaginary).
fn maxwell(t: &Value) -> ([f64; 1024], [f64; 1024], [f64; 1024]) {
    let (k2, tau, lo, hi) = (f(t, "k2"), f(t, "tau"), f(t, "lo"), f(t, "hi"));
    let (mut w, mut re, mut im) = ([0.; 1024], [0.; 1024], [0.; 1024]);
    for i in 0..1024 {
        let x = i as f64 / 1023.;
        w[i] = if lo > 0. { lo * (hi / lo).powf(x) } else { lo + (hi - lo) * x };
        let q = 1. + (w[i] * tau).powi(2);
        re[i] = k2 / q + f(t, "k0"); im[i] = -k2 * w[i] * tau / q;
    }
    (w, re, im)
}
fn tidal_model(t: &Value) -> p::TidalModel {
    match s(t, "model") {
        "ctl" => p::TidalModel::ConstantTimeLag(p::ConstantTimeLagParameters {
            dissipation_factor_scale: f(t, "scale"), dissipation_factor: f(t, "diss"), love_number: f(t, "k2") }),
        "creep" => p::TidalModel::CreepCoplanar(p::CreepCoplanarParameters { uniform_viscosity_coefficient: f(t, "visc") }),
        "kaula" if t.get("tab").is_some() => { let (w, re, im) = maxwell(&t["tab"]); p::TidalModel::Kaula(p::KaulaParameters {
            love_number_excitation_frequency: w, real_part_love_number: re, imaginary_part_love_number: im, num_datapoints: 1024.,
            polynomials: p::Polynomials::new(), kaula_tidal_force: Axes { x: 0., y: 0., z: 0. } }) }
        "kaula" => p::TidalModel::Kaula(p::KaulaParameters {
            love_number_excitation_frequency: arr1024(&t["freq"]), real_part_love_number: arr1024(&t["re"]),
            imaginary_part_love_number: arr1024(&t["im"]), num_datapoints: t["freq"].as_array().map(|a| a.len()).unwrap_or(0) as f64,
            polynomials: p::Polynomials::new(), kaula_tidal_force: Axes { x: 0., y: 0., z: 0. } }),
        m => panic!("bad tidal model {}", m),
    }
}
fn flat_model(t: &Value) -> p::RotationalFlatteningModel {
    match s(t, "model") {
        "oblate" => p::RotationalFlatteningModel::OblateSpheroid(p::OblateSpheroidParameters { love_number: f(t, "k2") }),
        "creep" => p::RotationalFlatteningModel::CreepCoplanar(p::CreepCoplanarParameters { uniform_viscosity_coefficient: f(t, "visc") }),
        m => panic!("bad flattening model {}", m),
    }
}
fn gr_impl(m: &str) -> p::GeneralRelativityImplementation {
    match m {
        "kidder" => p::GeneralRelativityImplementation::Kidder1995,
        "anderson" => p::GeneralRelativityImplementation::Anderson1975,
        "newhall" => p::GeneralRelativityImplementation::Newhall1983,
        _ => p::GeneralRelativityImplementation::Disabled,
    }
}
fn evolution(e: &Value) -> p::EvolutionType {
    let m = f(e, "mass");
    match s(e, "type") {
        "GalletBolmont2017" => p::EvolutionType::GalletBolmont2017(m),
        "BolmontMathis2016" => p::EvolutionType::BolmontMathis2016(m),
        "Baraffe2015" => p::EvolutionType::Baraffe2015(m),
        "Leconte2011" => p::EvolutionType::Leconte2011(m),
        "Baraffe1998" => p::EvolutionType::Baraffe1998(m),
        "LeconteChabrier2013" => p::EvolutionType::LeconteChabrier2013(bl(e, "diss")),
        _ => p::EvolutionType::NonEvolving,
    }
}
fn particle(b: &Value) -> Particle {
    let mut q = Particle::new(f(b, "m"), f(b, "r"), f(b, "rg"), axes(&b["x"]), axes(&b["v"]), axes(&b["s"]));
    // The order in which the effects are declared is part of the scenario.
    let default = json!(["tides", "flat", "gr", "wind", "disk", "evol"]);
    let order = b.get("order").unwrap_or(&default);
    for o in order.as_array().unwrap() {
        let k = o.as_str().unwrap();
        let e = match b.get(k) { Some(e) if !e.is_null() => e, _ => continue };
        match k {
            "tides" => q.set_tides(p::Tides::new(match s(e, "role") {
                "central" => p::TidesEffect::CentralBody(tidal_model(e)),
                "orbiting" => p::TidesEffect::OrbitingBody(tidal_model(e)),
                _ => p::TidesEffect::Disabled })),
            "flat" => q.set_rotational_flattening(p::RotationalFlattening::new(match s(e, "role") {
                "central" => p::RotationalFlatteningEffect::CentralBody(flat_model(e)),
                "orbiting" => p::RotationalFlatteningEffect::OrbitingBody(flat_model(e)),
                _ => p::RotationalFlatteningEffect::Disabled })),
            "gr" => q.set_general_relativity(p::GeneralRelativity::new(match s(e, "role") {
                "central" => p::GeneralRelativityEffect::CentralBody(gr_impl(s(e, "impl"))),
                "orbiting" => p::GeneralRelativityEffect::OrbitingBody,
                _ => p::GeneralRelativityEffect::Disabled })),
            "wind" => q.set_wind(p::Wind::new(
                if bl(e, "on") { p::WindEffect::Interaction } else { p::WindEffect::Disabled }, f(e, "k"), f(e, "sat"))),
            "disk" => q.set_disk(p::Disk::new(match s(e, "role") {
                "central" => p::DiskEffect::CentralBody(p::DiskProperties {
                    inner_edge_distance: f(e, "inner"), outer_edge_distance: f(e, "outer"), lifetime: f(e, "life"), alpha: f(e, "alpha"),
                    surface_density_normalization: f(e, "sigma0"), mean_molecular_weight: f(e, "mu") }),
                "orbiting" => p::DiskEffect::OrbitingBody,
                _ => p::DiskEffect::Disabled })),
            "evol" => q.set_evolution(evolution(e)),
            _ => {}
        }
    }
    if let Some(i) = b.get("ref").and_then(|x| x.as_i64()) { if i >= 0 { q.reference = serde_json::from_value(json!({"Particle": i})).unwrap(); } }
    q
}

fn dump_body(q: &Particle) -> Value {
    let (k2t, _kd) = match &q.tides.effect {
        p::TidesEffect::CentralBody(m) | p::TidesEffect::OrbitingBody(m) => match m {
            p::TidalModel::ConstantTimeLag(c) => (c.love_number, c.dissipation_factor), _ => (0., 0.) },
        _ => (0., 0.) };
    json!({
        "m": bits(q.mass), "mg": bits(q.mass_g), "r": bits(q.radius), "rg2": bits(q.radius_of_gyration_2), "I": bits(q.moment_of_inertia),
        "x": ax(&q.inertial_position), "v": ax(&q.inertial_velocity), "a": ax(&q.inertial_acceleration), "ad": ax(&q.inertial_additional_acceleration),
        "hx": ax(&q.heliocentric_position), "hv": ax(&q.heliocentric_velocity), "hd": bits(q.heliocentric_distance),
        "hrv": bits(q.heliocentric_radial_velocity), "hn": bits(q.heliocentric_norm_velocity_vector), "hn2": bits(q.heliocentric_norm_velocity_vector_2),
        "s": ax(&q.spin), "s2": bits(q.norm_spin_vector_2), "L": ax(&q.angular_momentum), "dL": ax(&q.dangular_momentum_dt),
        "k2": bits(k2t), "sig": bits(q.tides.parameters.internal.scaled_dissipation_factor),
        "lag": bits(q.tides.parameters.internal.lag_angle), "de": bits(q.tides.parameters.internal.denergy_dt),
        "mig": bits(q.disk.parameters.internal.migration_timescale),
        "id": q.id,
    })
}
fn num(v: Option<&Value>) -> i64 { v.and_then(|x| x.as_i64()).unwrap_or(-1) }
fn dump_u(u: &Universe) -> Value {
    let h = serde_json::to_value(&u.hosts).unwrap_or(Value::Null);
    let e = &u.consider_effects;
    json!({
        "n": u.n_particles, "tl": bits(u.time_limit), "t0": bits(u.initial_time),
        "b": u.particles[..u.n_particles].iter().map(dump_body).collect::<Vec<_>>(),
        "host": { "mm": num(h["index"].get("most_massive")), "tides": num(h["index"].get("tides")), "flat": num(h["index"].get("rotational_flattening")),
                  "gr": num(h["index"].get("general_relativity")), "disk": num(h["index"].get("disk")) },
        "eff": { "tides": e.tides, "flat": e.rotational_flattening, "gr": e.general_relativity, "disk": e.disk, "wind": e.wind, "evol": e.evolution },
        "gri": match u.general_relativity_implementation {
            p::GeneralRelativityImplementation::Kidder1995 => "kidder", p::GeneralRelativityImplementation::Anderson1975 => "anderson",
            p::GeneralRelativityImplementation::Newhall1983 => "newhall", _ => "none" },
    })
}

enum Sys { U(Box<Universe>), Lf(Box<p::LeapFrog>), Wh(Box<p::WHFast>), Ia(Box<p::Ias15>), No }
impl Sys {
    fn u(&mut self) -> &mut Universe {
        match self { Sys::U(u) => u, Sys::Lf(i) => &mut i.universe, Sys::Wh(i) => &mut i.universe, Sys::Ia(i) => &mut i.universe, Sys::No => panic!("no universe") }
    }
    fn i(&mut self) -> &mut dyn Integrator {
        match self { Sys::Lf(i) => &mut **i, Sys::Wh(i) => &mut **i, Sys::Ia(i) => &mut **i, _ => panic!("no integrator") }
    }
    fn value(&self) -> Value {
        match self { Sys::Lf(i) => serde_json::to_value(&**i).unwrap(), Sys::Wh(i) => serde_json::to_value(&**i).unwrap(), Sys::Ia(i) => serde_json::to_value(&**i).unwrap(), _ => Value::Null }
    }
    fn bin(&self) -> Vec<u8> {
        match self { Sys::Lf(i) => bincode::serialize(&**i).unwrap(), Sys::Wh(i) => bincode::serialize(&**i).unwrap(), Sys::Ia(i) => bincode::serialize(&**i).unwrap(), _ => vec![] }
    }
    fn kind(&self) -> &'static str { match self { Sys::Lf(_) => "leapfrog", Sys::Wh(_) => "whfast", Sys::Ia(_) => "ias15", Sys::U(_) => "universe", Sys::No => "none" } }
}
fn take(b: Box<dyn Integrator>) -> Sys {
    let a = b.as_any();
    if let Some(i) = a.downcast_ref::<p::WHFast>() { let by = bincode::serialize(i).unwrap(); return Sys::Wh(Box::new(bincode::deserialize(&by).unwrap())); }
    if let Some(i) = a.downcast_ref::<p::Ias15>() { let by = bincode::serialize(i).unwrap(); return Sys::Ia(Box::new(bincode::deserialize(&by).unwrap())); }
    if let Some(i) = a.downcast_ref::<p::LeapFrog>() { let by = bincode::serialize(i).unwrap(); return Sys::Lf(Box::new(bincode::deserialize(&by).unwrap())); }
    Sys::No
}
/// FNV-1a fingerprint of a byte string, as the pair of its 32-bit halves.
fn fp(b: &[u8]) -> Value {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b { h ^= *x as u64; h = h.wrapping_mul(0x100000001b3); }
    json!([(h >> 32) as u32 as i32, h as u32 as i32])
}
fn scalar(v: &Value, k: &str) -> Value { bits(v.get(k).and_then(|x| x.as_f64()).unwrap_or(f64::NAN)) }
/// Canonical form of a serialised simulation: maps sorted, numbers as bit patterns.
fn canon(v: &Value, out: &mut Vec<u8>) {
    match v {
        Value::Null => out.push(0), Value::Bool(b) => out.push(1 + *b as u8),
        Value::Number(n) => { out.push(3); out.extend_from_slice(&if let Some(f) = n.as_f64() { if n.is_f64() { f.to_bits().to_le_bytes() } else { n.as_i64().map(|x| x as u64).or(n.as_u64()).unwrap_or(0).to_le_bytes() } } else { [0; 8] }); }
        Value::String(t) => { out.push(4); out.extend_from_slice(t.as_bytes()); out.push(0); }
        Value::Array(a) => { out.push(5); for x in a { canon(x, out); } out.push(6); }
        Value::Object(o) => { out.push(7); let mut k: Vec<_> = o.keys().collect(); k.sort(); for x in k { out.extend_from_slice(x.as_bytes()); out.push(0); canon(&o[x], out); } out.push(8); }
    }
}
/// Leaves in which two serialised simulations differ.  Numbers within 4 units in the last place are the same number:
/// the JSON reader does not always return the nearest one.
fn differ(a: &Value, b: &Value, path: &mut Vec<String>, out: &mut Vec<Value>, n: &mut usize) {
    let mut push = |path: &Vec<String>, k: &str, x: Value, y: Value| { *n += 1; if out.len() < 300 { out.push(json!({"p": path, "kind": k, "a": x, "b": y})); } };
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x { path.push(k.clone()); match y.get(k) { Some(w) => differ(v, w, path, out, n), None => { *n += 1; out.push(json!({"p": path, "kind": "missing", "a": "", "b": ""})) } } path.pop(); }
            for k in y.keys() { if !x.contains_key(k) { path.push(k.clone()); *n += 1; out.push(json!({"p": path, "kind": "extra", "a": "", "b": ""})); path.pop(); } } }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() { push(path, "length", json!(x.len().to_string()), json!(y.len().to_string())); return; }
            for (i, (v, w)) in x.iter().zip(y.iter()).enumerate() { path.push(i.to_string()); differ(v, w, path, out, n); path.pop(); } }
        (Value::Number(x), Value::Number(y)) => { let (f, g) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            if !(f == g || (f - g).abs() <= 4. * f64::EPSILON * f.abs().max(g.abs())) { push(path, "number", bits(f), bits(g)); } }
        _ => if a != b { push(path, "value", json!(a.to_string()), json!(b.to_string())) }
    }
}
fn dump_i(sys: &mut Sys) -> Value {
    let kind = sys.kind();
    if kind == "universe" || kind == "none" { return json!({"kind": kind}); }
    let mut v = sys.value();
    // everything but the stored hash of the debug form
    if let Some(o) = v.as_object_mut() { o.insert("hash".into(), json!(0)); }
    let mut by = vec![]; canon(&v, &mut by);
    // the physical state: what a user sees of the simulation
    let t = sys.i().get_current_time();
    let mut ph = vec![];
    { let u = sys.u(); let n = u.n_particles;
      for q in u.particles[..n].iter() { for x in [q.mass, q.radius, q.radius_of_gyration_2, q.inertial_position.x, q.inertial_position.y, q.inertial_position.z, q.inertial_velocity.x, q.inertial_velocity.y, q.inertial_velocity.z,
          q.angular_momentum.x, q.angular_momentum.y, q.angular_momentum.z] { ph.extend_from_slice(&x.to_bits().to_le_bytes()); } } }
    ph.extend_from_slice(&t.to_bits().to_le_bytes());
    json!({"kind": kind, "dt": scalar(&v, "time_step"), "t": bits(t), "lh": scalar(&v, "last_historic_snapshot_time"),
        "lr": scalar(&v, "last_recovery_snapshot_time"), "hp": scalar(&v, "historic_snapshot_period"), "rp": scalar(&v, "recovery_snapshot_period"),
        "nh": sys.i().get_n_historic_snapshots(), "fp": fp(&by), "pfp": fp(&ph)})
}

fn ignore(k: &str) -> p::IgnoreGravityTerms {
    match k { "one" => p::IgnoreGravityTerms::WHFastOne, "two" => p::IgnoreGravityTerms::WHFastTwo, _ => p::IgnoreGravityTerms::None }
}
fn record(by: &[u8]) -> Value {
    // 2 f64, i32, 17 f64 little endian per body
    let mut out = vec![];
    let n = p::output::n_bytes_per_particle_in_historic_snapshot() as usize;
    let mut o = 0;
    while n > 0 && o + n <= by.len() {
        let c = &by[o..o + n];
        let g = |k: usize| -> Value { if k + 8 <= c.len() { bits(f64::from_le_bytes(c[k..k + 8].try_into().unwrap())) } else { json!([0, 0]) } };
        let mut l = vec![g(0), g(8)];
        let id = if c.len() >= 20 { i32::from_le_bytes(c[16..20].try_into().unwrap()) } else { -1 };
        let mut k = 20;
        while k + 8 <= c.len() { l.push(g(k)); k += 8; }
        out.push(json!({"id": id, "f": l}));
        o += n;
    }
    // the file itself, as little-endian 32-bit words
    let words: Vec<i32> = by.chunks_exact(4).map(|c| i32::from_le_bytes(c.try_into().unwrap())).collect();
    json!({"recs": out, "bytes": by.len(), "per": n, "words": words})
}

struct Ctx { dir: PathBuf, hist: Option<BufWriter<File>>, histpath: PathBuf, nsave: usize, kept: Value }

fn build(sc: &Value, perm: &Value) -> Universe {
    // {"perm": order or selection of the bodies, "off": effects not declared for any body}
    let off: Vec<String> = perm.get("off").and_then(|o| o.as_array()).map(|o| o.iter().map(|k| k.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let mut ps: Vec<Particle> = sc["bodies"].as_array().unwrap().iter().map(|b| { let mut b = b.clone(); for k in &off { b.as_object_mut().unwrap().remove(k); } particle(&b) }).collect();
    let perm = if perm.is_object() { &perm["perm"] } else { perm };
    if let Some(p) = perm.as_array() { ps = p.iter().map(|i| ps[i.as_u64().unwrap() as usize]).collect(); }
    let e = &sc["effects"];
    let ce = p::ConsiderEffects { tides: bl(e, "tides"), rotational_flattening: bl(e, "flat"), general_relativity: bl(e, "gr"),
        disk: bl(e, "disk"), wind: bl(e, "wind"), evolution: bl(e, "evol") };
    let tl = sc.get("tlimit").and_then(|x| x.as_f64()).unwrap_or(1.0e9);
    Universe::new(f(sc, "t0"), tl, ps, ce)
}

fn run_op(sys: &mut Sys, cx: &mut Ctx, sc: &Value, op: &Value) -> Value {
    let name = op[0].as_str().unwrap();
    let mut extra = Map::new();
    match name {
        "new" => { *sys = Sys::U(Box::new(build(sc, &op[1]))); }
        "particles" => { let _ : Vec<Particle> = sc["bodies"].as_array().unwrap().iter().map(particle).collect(); }
        "integ" => {
            let g = &op[1];
            let u = match std::mem::replace(sys, Sys::No) { Sys::U(u) => *u, _ => panic!("no universe") };
            let (dt, rp, hp) = (f(g, "dt"), f(g, "rp"), f(g, "hp"));
            *sys = match s(g, "kind") {
                "leapfrog" => Sys::Lf(Box::new(p::LeapFrog::new(dt, rp, hp, u))),
                "ias15" => Sys::Ia(Box::new(p::Ias15::new(dt, rp, hp, u))),
                "whfast" => Sys::Wh(Box::new(p::WHFast::new(dt, rp, hp, u, match s(g, "coord") {
                    "jacobi" => p::whfast::CoordinatesType::Jacobi, "whds" => p::whfast::CoordinatesType::WHDS,
                    _ => p::whfast::CoordinatesType::DemocraticHeliocentric }))),
                k => panic!("bad integrator {}", k) };
        }
        "iinit" => sys.i().initialize_physical_values(),
        "hist" => {
            // -1: as the program does when it resumes; the previous writer's process was killed
            let n = match op[1].as_i64().unwrap_or(0) { -1 => (sys.i().get_n_historic_snapshots() * sys.i().get_n_particles()) as u64 * p::output::n_bytes_per_particle_in_historic_snapshot(), x => x as u64 };
            if let Some(w) = cx.hist.take() { std::mem::forget(w); } cx.hist = Some(p::output::get_universe_history_writer(&cx.histpath, n));
            extra.insert("hlen".into(), json!(std::fs::metadata(&cx.histpath).map(|m| m.len()).unwrap_or(0))); }
        "iterate" => {
            let n = op[1].as_u64().unwrap_or(1);
            if cx.hist.is_none() { cx.hist = Some(p::output::get_universe_history_writer(&cx.histpath, 0)); }
            let mut r = json!("none"); let mut k = 0; let mut saved = 0;
            for _ in 0..n {
                let w = cx.hist.as_mut().unwrap();
                let e = sys.i().iterate(w, true); k += 1;
                // with a file name: write the recovery snapshots the step asks for, as the program does
                match e { Ok(t) => { r = json!(if t { "snap" } else { "go" });
                        if t && op[2].is_string() { cx.nsave += 1; let path = cx.dir.join(op[2].as_str().unwrap().replace('#', &cx.nsave.to_string())); sys.i().write_recovery_snapshot(&path, cx.hist.as_mut().unwrap()); saved += 1; } },
                    Err(_) => { r = json!("done"); break; } }
            }
            extra.insert("ret".into(), r); extra.insert("steps".into(), json!(k)); extra.insert("saved".into(), json!(saved));
            if bl(sc, "hist") { // what the history file holds after this step
                cx.hist.as_mut().unwrap().flush().unwrap();
                let by = std::fs::read(&cx.histpath).unwrap_or_default();
                let per = p::output::n_bytes_per_particle_in_historic_snapshot() as usize * sys.i().get_n_particles();
                extra.insert("hlen".into(), json!(by.len())); extra.insert("per".into(), json!(per));
                let last = if per > 0 && by.len() >= per { record(&by[by.len() - per..]) } else { json!({"recs": []}) };
                extra.insert("hlast".into(), last["recs"].clone()); extra.insert("hwords".into(), if last["words"].is_array() { last["words"].clone() } else { json!([]) });
            }
        }
        "reset" => { *sys = Sys::No; cx.hist = None; let _ = std::fs::remove_file(&cx.histpath); }
        "case" => { std::fs::write(cx.dir.join(op[1].as_str().unwrap()), serde_json::to_string_pretty(&sys.value()).unwrap()).unwrap(); }
        "save" => {
            let path = cx.dir.join(op[1].as_str().unwrap());
            if cx.hist.is_none() { cx.hist = Some(p::output::get_universe_history_writer(&cx.histpath, 0)); }
            sys.i().write_recovery_snapshot(&path, cx.hist.as_mut().unwrap());
            extra.insert("size".into(), json!(std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0)));
        }
        "trunc" => { let path = cx.dir.join(op[1].as_str().unwrap()); let by = std::fs::read(&path).unwrap();
            let k = op[3].as_u64().unwrap() as usize; std::fs::write(cx.dir.join(op[2].as_str().unwrap()), &by[..k.min(by.len())]).unwrap();
            extra.insert("size".into(), json!(by.len())); extra.insert("kept".into(), json!(k.min(by.len()))); }
        "truncall" => {
            // every prefix length in the given list (or stride) must be rejected
            let path = cx.dir.join(op[1].as_str().unwrap()); let by = std::fs::read(&path).unwrap();
            let stride = op[2].as_u64().unwrap() as usize; let o3 = op[3].as_i64().unwrap_or(0); let off = if o3 < 0 { by.len().saturating_sub((-o3) as usize * 64) } else { o3 as usize };
            let ext = path.extension().unwrap().to_str().unwrap().to_string();
            let q = cx.dir.join(format!("prefix.{}", ext));
            let (mut acc, mut tried) = (vec![], 0);
            // the length a LeapFrog snapshot of the same universe would have
            let lf = bincode::serialize(sys.u()).unwrap().len() + 76; extra.insert("lf".into(), json!(lf));
            let mut ks: Vec<usize> = (off..by.len()).step_by(stride).collect();
            if ext == "bin" && stride == 1 { for d in 0..9 { if lf + d >= 4 && lf + d - 4 < by.len() { ks.push(lf + d - 4); } } }
            for k in ks {
                std::fs::write(&q, &by[..k]).unwrap(); tried += 1;
                let r = catch_unwind(AssertUnwindSafe(|| p::output::restore_snapshot(&q).is_ok()));
                if let Ok(true) = r { acc.push(k as u64); }
            }
            extra.insert("accepted".into(), json!(acc)); extra.insert("tried".into(), json!(tried)); extra.insert("size".into(), json!(by.len()));
        }
        "restore" => {
            let path = cx.dir.join(op[1].as_str().unwrap());
            *sys = Sys::No;
            match p::output::restore_snapshot(&path) { Ok(i) => { *sys = take(i); extra.insert("ret".into(), json!("ok")); } Err(_) => { extra.insert("ret".into(), json!("err")); } }
        }
        // a remark of the driver in the trace
        "note" => { extra.insert("note".into(), enc(&op[1])); }
        // the simulation as it is now, to compare another one with it
        "keep" => { cx.kept = sys.value(); }
        "differ" => { let mut d = vec![]; let mut n = 0; differ(&cx.kept, &sys.value(), &mut vec![], &mut d, &mut n); extra.insert("diffs".into(), Value::Array(d)); extra.insert("ndiffs".into(), json!(n)); }
        "flush" => { if let Some(h) = cx.hist.as_mut() { h.flush().unwrap(); } }
        "histfp" => { if let Some(h) = cx.hist.as_mut() { h.flush().unwrap(); } let by = std::fs::read(&cx.histpath).unwrap_or_default();
            extra.insert("hfp".into(), fp(&by)); extra.insert("hlen".into(), json!(by.len())); }
        "histrecs" => { if let Some(h) = cx.hist.as_mut() { h.flush().unwrap(); } let by = std::fs::read(&cx.histpath).unwrap_or_default();
            extra.insert("rec".into(), record(&by)); }
        "limits" => sys.i().set_time_limit(fi(op, 1)),
        "periods" => sys.i().set_snapshot_periods(fi(op, 1), fi(op, 2)),
        "spin" => sys.u().calculate_spin_and_evolving_quantities(fi(op, 1), op[2].as_bool().unwrap()),
        "roche" => sys.u().calculate_roche_radiuses(),
        "helio" => sys.u().inertial_to_heliocentric(),
        "gravity" => sys.u().gravity_calculate_acceleration(ignore(op[1].as_str().unwrap())),
        "effects" => sys.u().calculate_additional_effects(fi(op, 1), op[2].as_bool().unwrap(), op[3].as_bool().unwrap(), op[4].as_bool().unwrap(), ignore(op[5].as_str().unwrap())),
        // the torques on the bodies at the current time, computed on a copy
        "torques" => { let t = if let Sys::U(_) = sys { 0. } else { sys.i().get_current_time() }; let mut u = sys.u().clone(); u.inertial_to_heliocentric();
            u.calculate_additional_effects(t, true, true, false, ignore("none"));
            extra.insert("q".into(), Value::Array(u.particles[..u.n_particles].iter().map(|q| ax(&q.dangular_momentum_dt)).collect())); }
        "apply" => sys.u().apply_acceleration_corrections(),
        "denergy" => sys.u().calculate_denergy_dt(),
        "energy" => { let (e, l) = { let u = sys.u(); (u.compute_total_energy(), u.compute_total_angular_momentum()) };
            extra.insert("e".into(), bits(e)); extra.insert("l".into(), bits(l)); }
        "record" => {
            let mut w = BufWriter::new(Vec::<u8>::new());
            p::output::write_historic_snapshot(&mut w, sys.u(), fi(op, 1), fi(op, 2));
            let by = w.into_inner().unwrap();
            extra.insert("rec".into(), record(&by));
        }
        "set" => {
            let i = op[1].as_u64().unwrap() as usize; let o = &op[2]; let q = &mut sys.u().particles[i];
            if o.get("x").is_some() { q.inertial_position = axes(&o["x"]); }
            if o.get("v").is_some() { q.inertial_velocity = axes(&o["v"]); }
            if o.get("L").is_some() { q.angular_momentum = axes(&o["L"]); }
            if o.get("sp").is_some() { let sp = axes(&o["sp"]); let mi = q.moment_of_inertia; q.angular_momentum = Axes { x: sp.x * mi, y: sp.y * mi, z: sp.z * mi };
                if !bl(o, "lazy") { q.spin = sp; q.norm_spin_vector_2 = sp.x * sp.x + sp.y * sp.y + sp.z * sp.z; } }
            if o.get("r").is_some() { q.radius = f(o, "r"); }
        }
        "wreck" => {
            // Overwrites derived quantities that every calculation has to recompute.
            let x = fi(op, 1);
            let u = sys.u(); let n = u.n_particles;
            for q in u.particles[..n].iter_mut() {
                q.inertial_acceleration = Axes { x, y: -x, z: x }; q.inertial_additional_acceleration = Axes { x: -x, y: x, z: x };
                q.dangular_momentum_dt = Axes { x, y: x, z: x };
            }
        }
        "negv" => { let u = sys.u(); let n = u.n_particles; for q in u.particles[..n].iter_mut() {
            let v = q.inertial_velocity; q.inertial_velocity = Axes { x: -v.x, y: -v.y, z: -v.z }; } }
        "table" => { let i = op[1].as_u64().unwrap() as usize; let e = &sys.u().particles_evolvers[i];
            let l = |v: &Vec<f64>| -> Value { Value::Array(v.iter().map(|x| bits(*x)).collect()) };
            extra.insert("table".into(), json!({"time": l(&e.time), "radius": l(&e.radius), "rg2": l(&e.radius_of_gyration_2), "love": l(&e.love_number), "q": l(&e.inverse_tidal_q_factor)})); }
        "query" => { let i = op[1].as_u64().unwrap() as usize; let t = fi(op, 2); let cur = fi(op, 3);
            let e = &mut sys.u().particles_evolvers[i];
            let v = match op[4].as_str().unwrap() { "r" => e.radius(t, cur), "rg2" => e.radius_of_gyration_2(t, cur), "love" => e.love_number(t, cur), _ => e.inverse_tidal_q_factor(t, cur) };
            extra.insert("val".into(), bits(v)); }
        "tocart" => { let o = &op[1];
            let (x, y, z, u, v, w) = tools::calculate_cartesian_coordinates(f(o, "gm"), f(o, "q"), f(o, "e"), f(o, "i"), f(o, "p"), f(o, "n"), f(o, "l"));
            extra.insert("xv".into(), json!([bits(x), bits(y), bits(z), bits(u), bits(v), bits(w)])); }
        "tokep" => { let o = &op[1];
            let (a, q, e, i, pp, n, l, pr) = tools::calculate_keplerian_orbital_elements(f(o, "gm"), axes(&o["x"]), axes(&o["v"]));
            extra.insert("el".into(), json!({"a": bits(a), "q": bits(q), "e": bits(e), "i": bits(i), "p": bits(pp), "n": bits(n), "l": bits(l), "per": bits(pr)})); }
        "roundtrip" => { let o = &op[1];
            let (x, y, z, u, v, w) = tools::calculate_cartesian_coordinates(f(o, "gm"), f(o, "q"), f(o, "e"), f(o, "i"), f(o, "p"), f(o, "n"), f(o, "l"));
            let (a, q, e, i, pp, n, l, pr) = tools::calculate_keplerian_orbital_elements(f(o, "gm"), Axes { x, y, z }, Axes { x: u, y: v, z: w });
            extra.insert("xv".into(), json!([bits(x), bits(y), bits(z), bits(u), bits(v), bits(w)]));
            extra.insert("el".into(), json!({"a": bits(a), "q": bits(q), "e": bits(e), "i": bits(i), "p": bits(pp), "n": bits(n), "l": bits(l), "per": bits(pr)})); }
        "tool" => { let o = &op[2];
            let r = match op[1].as_str().unwrap() {
                "qe" => { let (a, b) = tools::calculate_perihelion_distance_and_eccentricity(f(o, "gm"), axes(&o["x"]), axes(&o["v"])); vec![a, b] }
                "evec" => { let a = tools::calculate_eccentricity_vector(f(o, "gm"), axes(&o["x"]), axes(&o["v"])); vec![a.x, a.y, a.z] }
                "inc" => vec![tools::calculate_inclination_orbital_equatorial_plane(axes(&o["x"]), axes(&o["v"]), axes(&o["s"]))],
                "spin" => { let a = tools::calculate_spin(f(o, "w"), f(o, "i"), f(o, "ob"), f(o, "n")); vec![a.x, a.y, a.z] }
                "pseudo" => vec![tools::calculate_pseudo_synchronization_period(f(o, "a"), f(o, "e"), f(o, "ms"), f(o, "mp"))],
                "lin" => { let (y, l) = tools::linear_interpolation(f(o, "t"), &fv(&o["xs"]), &fv(&o["ys"])); vec![y, l as f64] }
                k => panic!("bad tool {}", k) };
            extra.insert("out".into(), Value::Array(r.iter().map(|x| bits(*x)).collect())); }
        k => panic!("harness: bad op {}", k),
    }
    Value::Object(extra)
}
fn fv(v: &Value) -> Vec<f64> { v.as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect() }

fn panic_class(e: &(dyn std::any::Any + Send)) -> String {
    let m = if let Some(m) = e.downcast_ref::<String>() { m.clone() } else if let Some(m) = e.downcast_ref::<&str>() { m.to_string() } else { "?".into() };
    if m.starts_with("harness:") { return m; }
    let l = m.to_lowercase();
    if l.contains("destroyed") { "destroyed".into() } else if l.contains("collision") { "collision".into() } else if l.contains("ejected") { "ejected".into() }
    else { m.chars().take(160).collect() }
}

fn scenario(sc: &Value, out: &mut dyn Write, dir: &PathBuf) {
    let mut sys = Sys::No;
    let mut cx = Ctx { dir: dir.clone(), hist: None, histpath: match sc["histfile"].as_str() { Some(h) => dir.join(h), None => dir.join(format!("hist_{}.bin", sc["id"])) }, nsave: 0, kept: Value::Null };
    let _ = std::fs::remove_file(&cx.histpath);
    let mut evs = vec![];
    let level = s(sc, "dump").to_string();
    for op in sc["ops"].as_array().unwrap() {
        let r = catch_unwind(AssertUnwindSafe(|| run_op(&mut sys, &mut cx, sc, op)));
        let mut ev = Map::new();
        ev.insert("op".into(), op[0].clone());
        ev.insert("args".into(), enc(&Value::Array(op.as_array().unwrap()[1..].to_vec())));
        match r {
            Ok(x) => { ev.insert("res".into(), json!("ok")); ev.insert("out".into(), x);
                if level != "none" { if let Sys::No = sys {} else { if level != "it" { ev.insert("st".into(), dump_u(sys.u())); } if level != "universe" { ev.insert("it".into(), dump_i(&mut sys)); } } }
                evs.push(Value::Object(ev)); }
            Err(e) => { let c = panic_class(&*e); if c.starts_with("harness:") { eprintln!("{}", c); std::process::exit(3); }
                ev.insert("res".into(), json!("panic")); ev.insert("why".into(), json!(c)); evs.push(Value::Object(ev));
                if bl(sc, "keepgoing") { continue; } break; }
        }
    }
    cx.hist = None;
    if !sc["histfile"].is_string() { let _ = std::fs::remove_file(&cx.histpath); }
    let mut cfg = sc.clone();
    cfg.as_object_mut().unwrap().remove("ops");
    writeln!(out, "{}", json!({"cfg": enc(&cfg), "ev": evs})).unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 2 && a[1] == "constants" {
        use p::constants as c;
        for (k, v) in [("G", c::G), ("K2", c::K2), ("R_SUN", c::R_SUN), ("M2AU", c::M2AU), ("C2", c::SPEED_OF_LIGHT_2), ("MAXD", c::MAX_DISTANCE)] { println!("{} {:e} {}", k, v, bits(v)); }
        return;
    }
    // pvh INPUT OUTPUT SCRATCHDIR ; the scratch directory is the working directory (input/ tables)
    std::panic::set_hook(Box::new(|_| {}));
    let (inp, outp, dir) = (a[1].clone(), a[2].clone(), PathBuf::from(&a[3]));
    std::env::set_current_dir(&dir).unwrap();
    let h = std::thread::Builder::new().stack_size(1 << 29).spawn(move || {
        let rd = BufReader::new(File::open(&inp).unwrap());
        let mut out = BufWriter::new(File::create(&outp).unwrap());
        for l in rd.lines() { let l = l.unwrap(); if l.trim().is_empty() { continue; }
            let sc: Value = serde_json::from_str(&l).unwrap(); scenario(&sc, &mut out, &dir); out.flush().unwrap(); }
        out.flush().unwrap();
    }).unwrap();
    if h.join().is_err() { eprintln!("harness thread failed"); std::process::exit(3); }
}
