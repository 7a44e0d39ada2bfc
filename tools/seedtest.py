#!/usr/bin/env python3
"""seedtest.py ID...: check planted changes in a scratch copy of /repo: patch applies, builds, the stable tests pass,
demo.sh passes without and fails with the patch; then run this property's quick check against it (in a copy)."""
import json, os, subprocess, sys, shutil
S = "/verif/seeded"
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(S))
nocheck = "--nocheck" in sys.argv
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c, cwd=None, env=None, t=1500):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
for i in ids:
    d = S + "/" + i
    if not os.path.exists(d + "/patch.diff"): continue
    meta = json.load(open(d + "/meta.json"))
    w = "/tmp/seedrepo"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["cp","-a","/repo",w])
    res = {}
    r = sh("bash %s/demo.sh" % d, cwd=w); res["demo_clean"] = r.returncode
    if r.returncode: print(r.stdout[-1500:])
    r = sh("git apply %s/patch.diff" % d, cwd=w); res["apply"] = r.returncode
    if r.returncode: print(r.stdout)
    env = dict(os.environ)
    pre = ". /opt/vp/env.sh; "
    r = sh(pre + "go build ./...", cwd=w); res["build"] = r.returncode
    if r.returncode: print(r.stdout[-1500:])
    log = "/tmp/seed.json"
    r = sh(pre + "go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/seedgo.json; python3 /opt/vp/results.py %s gojson:/tmp/seedgo.json" % log, cwd=w)
    o = json.load(open(log)); miss = [t for t in base if t not in set(o["passed"])]
    res["tests_missing"] = len(miss)
    if miss: print(miss[:8])
    r = sh("bash %s/demo.sh" % d, cwd=w); res["demo_patched"] = r.returncode
    good = res["demo_clean"] == 0 and res["apply"] == 0 and res["build"] == 0 and not miss and res["demo_patched"] != 0
    if not nocheck:
        e = dict(os.environ, ZZ_REPO=w)
        r = sh("cd /verif && python3 check.py %s" % meta["property"], env=e)
        res["check"] = r.returncode
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        res["viol"] = bool(v)
        if not v: print(r.stdout[-1500:])
        f = "/verif/tools/caught.json"
        c = json.load(open(f)) if os.path.exists(f) else {}
        c[i] = "%s, quick" % meta["property"] if v and res["check"] == 1 else "missed"
        json.dump(c, open(f, "w"), indent=1, sort_keys=True)
    print(i, meta["property"], "OK" if good else "BAD", res, flush=True)
    shutil.rmtree(w, ignore_errors=True)
