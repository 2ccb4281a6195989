#!/usr/bin/env python3
"""benign.py MODES SEED [CHECK...]: rewrites every numeric source of a copy of /repo without changing its meaning (tools/reassoc) and
runs the quick checks on it; each must stay quiet. BEN_BASE: scratch folder, BEN_FILES: regex of the files, BEN_WORKERS."""
import sys, os, re, subprocess, glob
args = sys.argv[1:]
T = os.path.dirname(os.path.abspath(__file__)); B = os.environ.get("BEN_BASE", "/tmp/ben"); os.environ["MUT_BASE"] = B
sys.path.insert(0, T); import mutate as m
r, v = m.setup(0)
env = dict(os.environ, CARGO_TARGET_DIR=B + "/reassoc")
subprocess.run(["cargo", "build", "-q", "--offline", "--release", "--manifest-path", T + "/reassoc/Cargo.toml"], env=env, check=True)
subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
fs = [f for f in glob.glob(r + "/src/**/*.rs", recursive=True) if not re.search(r"main\.rs$|output\.rs$|lib\.rs$|mod\.rs$", f) and re.search(os.environ.get("BEN_FILES", "."), f)]
subprocess.run([B + "/reassoc/release/reassoc", args[0], args[1]] + sorted(fs), check=True)
ids = args[2:] or ["C%02d" % i for i in range(1, 27)]
for i in ids:
    o = m.run(r, v, [i])[0]; print("alarm " if o["rc"] else "quiet ", i, o["rc"], "%ds" % o["s"], o["why"], flush=True)
