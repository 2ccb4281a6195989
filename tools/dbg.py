"""step a scenario file one iterate at a time and show where it hangs or blows up: dbg.py SCENARIO.json [STEPS]"""
import sys, json, subprocess, os, struct, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "py"))
import lib, checks
c = lib.Check("C01", "quick", 1); checks.short_tables(c)
s = json.load(open(sys.argv[1])); N = int(sys.argv[2]) if len(sys.argv) > 2 else 30
exe = lib.build_harness(); d = "/tmp/dbg/d"; os.makedirs(d, exist_ok=True)
shutil.copytree(os.path.join(c.work, "input"), d + "/input", dirs_exist_ok=True)
f = lambda b: struct.unpack(">d", struct.pack(">II", *(x & 0xffffffff for x in b)))[0]
head = [o for o in s["ops"][:4] if o[0] in ("new", "integ", "iinit")]
for k in range(1, N):
    s["ops"] = head + [["iterate", 1]] * k; s["dump"] = "st"
    open("/tmp/dbg/in", "w").write(json.dumps(s) + "\n")
    try: subprocess.run([exe, "/tmp/dbg/in", "/tmp/dbg/out", d], timeout=5, stderr=subprocess.DEVNULL, stdout=subprocess.DEVNULL)
    except subprocess.TimeoutExpired: print("hang at", k); break
    e = json.loads(open("/tmp/dbg/out").read())["ev"][-1]
    print(k, e["res"], e.get("why"), *(["%.6g" % f(x) for x in b["x"] + b["v"] + b["s"]] for b in e.get("st", {"b": []})["b"]), sep="\n   ")
