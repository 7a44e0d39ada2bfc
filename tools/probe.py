#!/usr/bin/env python3
"""probe.py FILE [NAME...]: small changes without demonstration, to see which ones the checks notice. FILE defines PROBES =
[(name, property, [(file, old, new)...])...]. Each is applied to a scratch copy; if it builds and the stable tests pass, the
property's quick check runs against it."""
import json, os, subprocess, sys, shutil, time
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
g = {}; exec(open(sys.argv[1]).read(), g)
want = sys.argv[2:]
def sh(c, cwd=None, env=None, t=1500):
    try: return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 99, "TIMEOUT")
w = "/tmp/proberepo.%d" % os.getpid()
for name, prop, edits in g["PROBES"]:
    if want and name not in want: continue
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", w])
    bad = None
    for f, old, new in edits:
        t = open(w + "/" + f).read()
        if t.count(old) != 1: bad = "%s: %d occurrences of %r" % (f, t.count(old), old[:60]); break
        open(w + "/" + f, "w").write(t.replace(old, new))
    if bad: print(name, prop, "BADEDIT", bad, flush=True); continue
    r = sh(". /opt/vp/env.sh; go build ./...", cwd=w)
    if r.returncode: print(name, prop, "NOBUILD", r.stdout[-300:], flush=True); continue
    J = "/tmp/probe.%d.json" % os.getpid(); r = sh(". /opt/vp/env.sh; go test -json -vet=off -count=1 -timeout 10m ./... > %s.go; python3 /opt/vp/results.py %s gojson:%s.go" % (J, J, J), cwd=w)
    o = json.load(open(J)); p = set(o["passed"]); miss = [t for t in base if t not in p]
    if miss: print(name, prop, "TESTED", len(miss), miss[0], flush=True); continue
    t0 = time.time()
    for q in prop.split("+"):
        r = sh("cd /verif && python3 check.py %s" % q, env=dict(os.environ, ZZ_REPO=w))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(name, q, "KILLED" if v and r.returncode == 1 else "SURVIVED rc=%d" % r.returncode, "%.0fs" % (time.time() - t0), flush=True)
        if v: break
        open("/tmp/probe-%s.log" % name, "w").write(r.stdout)
    shutil.rmtree(w, ignore_errors=True)
