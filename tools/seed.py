#!/usr/bin/env python3
"""seed.py ID... [--checks A,B | --checks all | --nochecks] [--notests]: confirms planted bugs of /verif/seeded in a scratch copy of /repo
(applies, builds, stable tests pass, demo fails there and passes on /repo) and runs checks against the copy."""
import sys, os, json, subprocess, shutil, time
V = "/verif"; S = "/tmp/seed"
def sh(c, cwd=None, env=None, timeout=1200):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
opts = [a for a in sys.argv[1:] if a.startswith("--")]
checks = None
for o in opts:
    if o.startswith("--checks=") and o[9:]: checks = o[9:].split(",")
if checks == ["all"]: checks = [c["property_id"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
os.makedirs(S, exist_ok=True)
for i in ids:
    d = "%s/seeded/%s" % (V, i); r = "%s/%s" % (S, i); t0 = time.time()
    meta = json.load(open(d + "/meta.json")); out = []
    shutil.rmtree(r, ignore_errors=True)
    sh("cp -a /repo %s" % r)
    a = sh("git apply %s/patch.diff" % d, r)
    if a.returncode: print(i, "DOES NOT APPLY", a.stdout); continue
    # keep demo away from its patch as the final check does
    dd = "%s/demo-%s" % (S, i); shutil.rmtree(dd, ignore_errors=True); shutil.copytree(d, dd)
    for f in os.listdir(dd):
        if f.endswith((".diff", ".patch")) or f == "meta.json": os.remove(dd + "/" + f)
    b = sh("export AUTOHEADER=true CC=gcc CXX=g++; make -C _build -j8 AUTOHEADER=true all", r)
    if b.returncode: print(i, "DOES NOT BUILD", b.stdout[-1500:]); continue
    m = sh("grep -E '^(abs_top_srcdir|top_srcdir|abs_srcdir) ' _build/Makefile; ls -la --time-sort _build/.libs/libm4rie.a", r)
    p = sh("bash %s/demo.sh" % dd, r); out.append("demo patched %d" % p.returncode)
    q = sh("bash %s/demo.sh" % dd, "/repo"); out.append("demo clean %d" % q.returncode)
    if p.returncode == 0 or q.returncode: out.append("DEMO WRONG: " + p.stdout[-300:] + q.stdout[-300:])
    if "--notests" not in opts:
        sh("rm -f _build/tests/*.log _build/tests/*.trs; make -C _build -j8 -k AUTOHEADER=true LOG_COMPILER='bash /opt/vp/run_one.sh' check", r)
        c = sh("python3 /opt/vp/m4rie_cases.py _build/tests", r).stdout.splitlines()
        ok = set(l[5:] for l in c if l.startswith("PASS ")); bad = sorted(stable - ok)
        out.append("tests %d/%d" % (len(stable & ok), len(stable)))
        if bad: out.append("TESTS FAIL " + ", ".join(bad[:4]))
    res = {}
    if "--nochecks" not in opts:
        for c in checks or [meta["property"]]:
            k = sh("%s/check %s" % (V, c), V, dict(os.environ, M4RIE_REPO=r))
            res[c] = k.returncode
            if k.returncode not in (0, 1): out.append(c + ": " + k.stdout[-300:])
        out.append("CAUGHT by " + ",".join(c for c in res if res[c] == 1) if any(v == 1 for v in res.values()) else "MISSED by " + ",".join(res))
    print(i, "[%s]" % meta["property"], "; ".join(out), "%.0fs" % (time.time() - t0), flush=True)
    shutil.rmtree(r, ignore_errors=True); shutil.rmtree(dd, ignore_errors=True)
