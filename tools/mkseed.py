#!/usr/bin/env python3
"""mkseed.py FILE...: makes /verif/seeded/<id>/ from a description file: python with ID, PROP, NEEDS, BREAKS,
EDITS=[(file, old, new)], DEMO (body of demo_test.go, without the shared part)."""
import os, shutil, subprocess, sys, json
for f in sys.argv[1:]:
    g = {}
    exec(open(f).read(), g)
    for s in g["SEEDS"]:
        d = "/verif/seeded/" + s["id"]
        os.makedirs(d, exist_ok=True)
        w = "/tmp/mkseed"
        shutil.rmtree(w, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", w])
        for file, old, new in s["edits"]:
            p = w + "/" + file
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], file, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        root = subprocess.run(["git", "-C", w, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
        was = {f: subprocess.run(["git", "-C", w, "show", root + ":" + f], capture_output=True, text=True).stdout.split("\n") for f, _, _ in s["edits"]}
        gone = [l[1:] for l in subprocess.run(["git", "-C", w, "diff", "-U0"], capture_output=True, text=True).stdout.split("\n") if l.startswith("-") and not l.startswith("---")]
        if not any(l.strip() and l in o for l in gone for o in was.values()): print(s["id"], "WARNING: changes no original line", gone)
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout)
        shutil.rmtree(w, ignore_errors=True)
        for x in ("demo.sh", "lib_test.go"):
            shutil.copy("/verif/tools/demo/" + x, d + "/" + x)
        open(d + "/demo_test.go", "w").write("package oidfed\n\n" + s["demo"].lstrip())
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("made", s["id"])
