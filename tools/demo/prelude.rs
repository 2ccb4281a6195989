#![allow(dead_code, unused_imports)]
use posidonius as p;
use posidonius::{Axes, Particle, Universe, ConsiderEffects};
fn ax(x: f64, y: f64, z: f64) -> Axes { Axes { x, y, z } }
fn none() -> ConsiderEffects { ConsiderEffects { tides: false, rotational_flattening: false, general_relativity: false, disk: false, wind: false, evolution: false } }
fn star(m: f64) -> Particle { Particle::new(m, 0.004, 0.3, ax(0., 0., 0.), ax(0., 0., 0.), ax(0., 0., 2.)) }
fn planet(m: f64, d: f64) -> Particle {
    let v = (2.959122082855911e-4 / d).sqrt();
    Particle::new(m, 4.5e-5, 0.5, ax(d * 0.6, d * 0.8, 0.02 * d), ax(-0.8 * v, 0.6 * v, 0.01 * v), ax(0.3, 0.2, 4.))
}
fn close(a: f64, b: f64, s: f64) -> bool { (a - b).abs() <= 1e-9 * s.abs() }
fn main() { let h = std::thread::Builder::new().stack_size(1 << 28).spawn(|| demo()).unwrap(); if h.join().is_err() { std::process::exit(1); } }
