#!/usr/bin/env python3
"""seed.py FILE: FILE is a python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(path, old, new)], DEMO (rust body), optional DEMO_SH.
Plants the bug in a scratch copy, writes /verif/seeded/ID and verifies it."""
import sys, os, subprocess, json, shutil
g = {}; exec(open(sys.argv[1]).read(), g)
T = "/verif/tools/"; W = "/tmp/seedwt"; d = "/verif/seeded/" + g["ID"]; os.makedirs(d, exist_ok=True)
subprocess.run([T + "newwt.sh"], check=True)
for path, old, new in g["EDITS"]:
    f = os.path.join(W, path); s = open(f).read()
    assert s.count(old) == 1, (path, s.count(old), old)
    open(f, "w").write(s.replace(old, new))
if "DEMO_SH" in g:
    open(d + "/demo.sh", "w").write(g["DEMO_SH"])
else:
    shutil.copy(T + "demo/demo.sh", d + "/demo.sh")
    open(d + "/demo.rs", "w").write(open(T + "demo/prelude.rs").read() + g["DEMO"])
for n, c in g.get("FILES", {}).items(): open(os.path.join(d, n), "w").write(c)
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
sys.exit(subprocess.run([T + "mkseed.sh", g["ID"]]).returncode)
