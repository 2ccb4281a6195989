#!/usr/bin/env python3
"""Runs quick checks against mutants of the code, on copies of /repo and /verif (never the originals).
  mutate.py auto N SEED OUT [file-regex]     N random small changes; checks of the file in turn until one detects
  mutate.py list FILE OUT                    FILE defines M = [(name, property or "C01,C02", path, old, new), ...]
Prints one line per mutant; OUT gets JSON lines."""
import sys, os, re, json, random, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import threading, queue
W = int(os.environ.get("MUT_WORKERS", "3")); BASE = os.environ.get("MUT_BASE", "/tmp/mu")
MAP = [(r"src/main.rs", "C04 C05 C02"), (r"integrator/output.rs", "C06 C05 C07 C02 C04"), (r"leapfrog.rs", "C21 C03 C04 C20 C01 C02 C09"), (r"whfast.rs", "C22 C03 C04 C20 C01 C09 C10"),
       (r"ias15.rs", "C23 C03 C04 C20 C01 C07"), (r"universe.rs", "C11 C12 C08 C09 C10 C20 C21 C25 C06"), (r"particle.rs|axes.rs|particles/common.rs", "C08 C09 C11 C25 C20"), (r"effects/disk.rs", "C18 C09 C10 C06 C08"), (r"effects/wind.rs", "C18 C09 C20"),
       (r"effects/evolution.rs", "C19 C13 C25 C09"), (r"general_relativity.rs", "C17 C09 C10 C08"), (r"flattening/creep|tides/creep", "C15 C09 C10"), (r"flattening/oblate", "C16 C09"),
       (r"flattening/common.rs", "C16 C15 C08 C09 C10"), (r"constant_time_lag.rs", "C13 C09 C10 C06"), (r"kaula.rs", "C14 C09"), (r"tides/common.rs", "C13 C15 C14 C08 C09 C10 C06"), (r"src/tools.rs", "C24 C19 C14 C15"),
       (r"posidonius/tools.py", "C24 C25"), (r"history.py", "C06"), (r"\.py$", "C25"), (r"constants.rs", "C11 C13 C19 C14 C15 C12 C06")]
def checks_of(p):
    for r, c in MAP:
        if re.search(r, p): return c.split()
    return []
def setup(i):
    d = "%s/%d" % (BASE, i); r, v = d + "/r", d + "/v"
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.run(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("target", ".git"), symlinks=True)
        subprocess.run("cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % r, shell=True, check=True)
        os.makedirs(v)
        subprocess.run(["cp", "-a", "/verif/.build", v + "/.build"], check=True); shutil.rmtree(v + "/.build/work", ignore_errors=True)
    for x in ("py", "spec", "harness", "java", "shim", "bin", "known_findings.json", "properties.jsonl"):
        shutil.rmtree(v + "/" + x, ignore_errors=True)
        if os.path.isdir("/verif/" + x): shutil.copytree("/verif/" + x, v + "/" + x)
        else: shutil.copy("/verif/" + x, v + "/" + x)
    for f in (v + "/py/lib.py", v + "/harness/Cargo.toml"):
        s = open(f).read().replace('"/repo"', '"%s"' % r); open(f, "w").write(s)
    return r, v
def run(r, v, checks, all_=False, seed="1"):
    out = []
    for c in checks:
        e = dict(os.environ, VERIF_SEED=seed, VERIF_TIER="quick", PYTHONDONTWRITEBYTECODE="1"); t = time.time()
        try:
            p = subprocess.run([v + "/bin/check", c], cwd=v, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=1200)
            rc, o = p.returncode, p.stdout
        except subprocess.TimeoutExpired: rc, o = "timeout", ""
        why = "; ".join(sorted(set(re.findall(r"^rejected: (.*?) event=", o, re.M)))[:3])
        if rc not in (0, 1):
            k = o.find("error["); k = k if k >= 0 else o.find("error:"); why = o[max(k, 0):][:400] if k >= 0 else o[-400:]
            if "error" in why and ("could not compile" in o or "error[" in o): rc = "nobuild"
        out.append({"check": c, "rc": rc, "why": why, "s": round(time.time() - t)})
        if rc == "nobuild": break
        if rc == 1 and not all_: break
    return out
SWAPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r" \* ", " / "), (r" / ", " * "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
         (r"\.abs\(\)", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.x\b", ".y"), (r"\.y\b", ".z"), (r"\.z\b", ".x"), (r"\bhost_particle\b", "particle"), (r"\bparticle\b", "host_particle"), (r"\btidal_host_particle\b", "particle"),
         (r"powi\((\d+)\)", lambda m: "powi(%d)" % (int(m.group(1)) + 1)), (r"\bsin\(\)", "cos()"), (r"\bcos\(\)", "sin()"), (r"\binertial_", "heliocentric_"), (r"\bheliocentric_", "inertial_"), (r"\.max\(", ".min("), (r"\.min\(", ".max("),
         (r"(?<![\w.])(\d+\.\d*)", lambda m: str(float(m.group(1)) + 1.0)), (r"(?<![\w.])(\d+\.\d*)", lambda m: repr(float(m.group(1)) * 1.01 + 1e-3)), (r"\[(\d+)\]", lambda m: "[%d]" % (int(m.group(1)) ^ 1)), (r"(?<![\w.])(\d+)(?![\w.\d])", lambda m: str(int(m.group(1)) + 1)),
         (r"\bpi\b", "2*pi"), (r"\bif ", "if not "), (r"radial", "orthogonal"), (r"orthogonal", "radial"), (r"velocity", "position"), (r"\bleft\b", "right")]
def mutants(rng, files, n):
    out = []
    while len(out) < n:
        f = rng.choice(files); L = open("/repo/" + f).read().split("\n")
        end = next((i for i, l in enumerate(L) if "#[cfg(test)]" in l), len(L)); i = rng.randrange(end); l = L[i]; s = l.strip()
        if not s or s.startswith(("//", "#", "use ", "pub use", "println", "import", "from", "fn ", "pub fn", "impl", "pub struct", "}", "mod ", "eprintln", "panic", "assert")) or "println" in l or "expect(" in l: continue
        if rng.random() < 0.15 and re.match(r"[\w.\[\]&*]+ [-+*/]?= .*;$|[\w.]+\(.*\);$", s): new = re.match(r"\s*", l).group(0) + ("// removed" if f.endswith(".rs") else "pass")
        else:
            a, b = rng.choice(SWAPS); ms = list(re.finditer(a, l))
            if not ms: continue
            if "not " in str(b) and f.endswith(".rs"): continue
            m = rng.choice(ms); new = l[:m.start()] + (b(m) if callable(b) else b) + l[m.end():]
        code = l.split("//")[0]
        if new == l or new.split("//")[0] == code: continue
        out.append(("%s:%d" % (f, i + 1), " ".join(checks_of(f)), f, i, l, new))
    return out
def main():
    mode = sys.argv[1]
    if mode == "auto":
        n, seed, outp = int(sys.argv[2]), sys.argv[3], sys.argv[4]; pat = sys.argv[5] if len(sys.argv) > 5 else r"^src/(?!lib|constants)|^posidonius/(?!tests|analysis/(res|comp))"
        fs = [f for f in subprocess.run(["git", "-C", "/repo", "ls-files"], stdout=subprocess.PIPE, text=True).stdout.split() if re.search(pat, f) and f.endswith((".rs", ".py")) and "/tests" not in f and checks_of(f)]
        wts = []
        for f in fs: wts += [f] * max(1, int(len(open("/repo/" + f).read().split("\n")) ** 0.6))
        todo = mutants(random.Random(seed), wts, n); allc = False
    else:
        g = {}; exec(open(sys.argv[2]).read(), g); outp = sys.argv[3]; allc = os.environ.get("MUT_ALL", "1") == "1"
        only = os.environ.get("MUT_ONLY")
        todo = [m for m in g["M"] if not only or re.search(only, m[0])]
    q = queue.Queue(); [q.put(t) for t in todo]; lock = threading.Lock(); of = open(outp, "a")
    def work(i):
        r, v = setup(i)
        while True:
            try: t = q.get_nowait()
            except queue.Empty: return
            subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
            if mode == "auto":
                name, ch, f, k, old, new = t; L = open(r + "/" + f).read().split("\n"); assert L[k] == old; L[k] = new; open(r + "/" + f, "w").write("\n".join(L)); desc = "- %s\n    + %s" % (old.strip(), new.strip())
            else:
                name, ch, f, old, new = t[:5]; edits = [(f, old, new)] + list(t[5] if len(t) > 5 else []); bad = False; desc = ""
                for f, old, new in edits:
                    s = open(r + "/" + f).read()
                    if s.count(old) != 1: print("BAD", name, f, s.count(old), flush=True); bad = True; break
                    open(r + "/" + f, "w").write(s.replace(old, new))
                if bad: continue
            res = run(r, v, re.split(r"[ ,]+", ch), all_=allc)
            st = "nobuild" if any(x["rc"] == "nobuild" for x in res) else "caught" if any(x["rc"] == 1 for x in res) else "MISSED" if all(x["rc"] == 0 for x in res) else "error"
            with lock:
                print("%-7s %s %s\n    %s" % (st, name, " ".join("%s:%s(%ss)%s" % (x["check"], x["rc"], x["s"], " [" + x["why"][:110] + "]" if x["why"] else "") for x in res), desc), flush=True)
                of.write(json.dumps({"name": name, "status": st, "res": res, "desc": desc}) + "\n"); of.flush()
    ts = [threading.Thread(target=work, args=(i,)) for i in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
if __name__ == "__main__": main()
