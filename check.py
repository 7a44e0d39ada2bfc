#!/usr/bin/env python3
"""check.py ID [--replay FILE] [--keep]

Builds the harness against /repo's current working tree (through a build
overlay; /repo is not touched), runs the check of one property in parallel
shards, confirms what they report, writes evidence/<ID>.json and prints the
verdict. Exit 0: held on everything explored. Exit 1: VIOLATION."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ZZ_REPO", "/repo")
sys.path.insert(0, HERE)
from specs import SPECS

GOROOT = "/opt/veriftools/go1.26.10"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = min(8, os.cpu_count() or 4)


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOROOT=GOROOT, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("ZZ_GOCACHE", "/root/.cache/go-build"))
    e["PATH"] = GOROOT + "/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.pop("GODEBUG", None)
    return e


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(tmp, instrument=False, race=False):
    rep = {}
    for f in glob.glob(HERE + "/harness/*.go"):
        rep[REPO + "/zzverif/" + os.path.basename(f)] = f
    rep[REPO + "/zzsched/sched.go"] = HERE + "/sched/sched.go"
    env = goenv()
    modfile = tmp + "/go.mod"
    shutil.copy(REPO + "/go.mod", modfile)
    shutil.copy(REPO + "/go.sum", tmp + "/go.sum")
    name = "zz" + ("-instr" if instrument and not race else "") + ("-race" if race else "")
    if instrument:
        out = tmp + "/instr"
        os.makedirs(out, exist_ok=True)
        r = sh([GOROOT + "/bin/go", "run", HERE + "/instr/main.go", REPO, out], env=env, cwd=HERE + "/instr")
        if r.returncode != 0:
            print("instrumentation failed, continuing without it:\n" + r.stdout[-3000:])
        else:
            for f in glob.glob(out + "/*.go"):
                rep[REPO + "/" + os.path.basename(f).replace("@", "/")] = f
    ov = tmp + "/overlay-" + name + ".json"
    json.dump({"Replace": rep}, open(ov, "w"))
    cmd = [GOROOT + "/bin/go", "test", "-vet=off", "-c", "-overlay", ov, "-modfile", modfile, "-o", tmp + "/" + name]
    if race:
        cmd.append("-race")
    r = sh(cmd + ["./zzverif"], env=env, cwd=REPO)
    if r.returncode != 0:
        if instrument:
            print("instrumented build failed, continuing without it:\n" + r.stdout[-2000:])
            for k in [k for k in rep if rep[k].startswith(tmp + "/instr")]:
                del rep[k]
            json.dump({"Replace": rep}, open(ov, "w"))
            r = sh(cmd + ["./zzverif"], env=env, cwd=REPO)
            if r.returncode == 0:
                return tmp + "/" + name
        print(r.stdout[-6000:])
        print("BUILD-ERROR: the harness does not build against " + REPO)
        sys.exit(2)
    return tmp + "/" + name


def known_keys(prop):
    out, descs = [], {}
    try:
        for l in open(HERE + "/known-findings.txt"):
            m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
                descs[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return out, descs


def run_worker(binp, prop, mode, shard, out, budget, extra=None):
    e = goenv()
    e.update(ZZ_PROP=prop, ZZ_TIER=TIER, ZZ_SHARD=shard, ZZ_OUT=out, ZZ_BUDGET=str(budget), ZZ_MODE=mode,
             ZZ_SEED=str(SEED), ZZ_KNOWN="\n".join(known_keys(prop)[0]))
    e["GOMAXPROCS"] = "2" if mode != "race" else "8"
    e["GOGC"] = "400"
    e["GORACE"] = "halt_on_error=0 exitcode=66"
    if extra:
        e.update(extra)
    log = open(out + ".log", "w")
    return subprocess.Popen([binp, "-test.run", "TestZZ$", "-test.timeout", "0"], env=e, cwd=os.path.dirname(out),
                            stdout=log, stderr=subprocess.STDOUT)


def tail(p, n=6000):
    try:
        s = open(p, errors="replace").read()
    except OSError:
        return ""
    return s if len(s) < n else s[:n // 2] + "\n...\n" + s[-n // 2:]


def crash_msg(log):
    s = tail(log, 200000)
    for pat in (r"ZZ-HANG.*", r"fatal error:.*", r"panic:.*", r"WARNING: DATA RACE"):
        m = re.search(pat, s)
        if m:
            i = m.start()
            return s[i:i + 2500]
    return s[-1500:]


def races(log):
    """The race detector's reports that concern the library: at least one of the two accesses is made by code that is not the
    harness's own (which would be a mistake of the harness)."""
    out = []
    for rep in re.findall(r"^WARNING: DATA RACE\n.*?^={10,}", tail(log, 4000000), re.S | re.M):
        access = [b for b in re.split(r"\n\s*\n", rep) if re.search(r"(?:[Rr]ead|[Ww]rite) at 0x", b)]
        for b in access:
            frames = re.findall(r"^  ((?:github\.com|golang\.org|gopkg\.in)/\S+)\(", b, re.M)
            if frames and not re.match(r"github\.com/go-oidfed/lib/zz(verif|sched)\b", frames[0]):
                out.append(rep)
                break
    return out


def main():
    if sys.argv[1] == "--setup":
        tmp = tempfile.mkdtemp(prefix="zzverif.")
        try:
            for m in sorted({m for p in SPECS.values() if p["built"] for m in p["modes"]}):
                print("built", os.path.basename(build(tmp, instrument=(m != "plain"), race=(m == "race"))))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        sys.exit(0)
    prop = sys.argv[1]
    replay = None
    if "--replay" in sys.argv:
        replay = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
    spec = SPECS[prop]
    t_start = time.time()
    tmp = tempfile.mkdtemp(prefix="zzverif.")
    try:
        rc = run(prop, spec, tmp, replay, t_start)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(prop, spec, tmp, replay, t_start):
    modes = spec.get("modes", ["plain"])
    bins = {}
    for m in modes:
        bins[m] = build(tmp, instrument=(m != "plain"), race=(m == "race"))
    if replay:
        v = json.load(open(replay))
        m = v.get("mode", modes[0])
        out = tmp + "/replay.json"
        if v.get("shard"):  # needs the executions before it
            p = run_worker(bins[m], prop, m, v["shard"], out, v["budget"])
        else:
            p = run_worker(bins[m], prop, m, "0/1", out, 600, {"ZZ_REPLAY": replay})
        p.wait()
        print(open(out + ".log", errors="replace").read())
        ok = p.returncode == 0 and not json.load(open(out))["violations"] if os.path.exists(out) else False
        return 0 if ok else 1
    budget = spec.get("budget", {}).get(TIER, 240 if TIER == "quick" else 780)
    build_s = time.time() - t_start
    viols, results, unstable = [], [], []
    end = t_start + (860 if TIER == "quick" else 3400)  # an answer by then, whatever happens

    def left(want):
        return max(5.0, min(want, end - time.time()))

    def wait(p, t):
        try:
            p.wait(timeout=left(t))
            return True
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return False  # it does not count as having failed

    def result(out):
        try:
            return json.load(open(out))
        except (OSError, ValueError):
            return None

    for m in modes:
        n = 1 if m == "race" else spec.get("shards", NPROC)
        ps = []
        b = budget / len(modes)
        for i in range(n):
            out = "%s/%s.%d.json" % (tmp, m, i)
            ps.append((i, out, run_worker(bins[m], prop, m, "%d/%d" % (i, n), out, b)))
        for i, out, p in ps:
            wait(p, b + 400)
        dead = []
        for i, out, p in ps:
            r = result(out)
            log = out + ".log"
            if r:
                results.append(r)
                for v in r["violations"] or []:
                    v["shard"] = "%d/%d" % (i, n)
                    viols.append((m, v))
            rs = races(log) if m == "race" else []
            if rs:
                viols.append((m, dict(explore="race", choices=[], labels=[], key="race", msg=rs[0][:2500], crash=True)))
            elif not (r and r["done"]) and not (r and r["violations"]):
                dead.append((i, out))
        # workers that died: find the execution that killed them
        again = []
        for i, out in dead[:0 if viols else 2 if n > 1 else 1]:
            tf = "%s/trace.%d" % (tmp, i)
            again.append((i, out, out + ".again", tf, run_worker(bins[m], prop, m, "%d/%d" % (i, n), out + ".again", b + 60, {"ZZ_TRACE": tf})))
        for i, out, out2, tf, p2 in again:
            wait(p2, b + 200)
            r = result(out2)
            try:
                last = json.loads(open(tf).read().rstrip("\0"))
            except Exception:
                last = dict(explore="?", choices=[])
            if r and (r["done"] or r["violations"]):
                if r["done"]:
                    unstable.append("worker %d died once (%s), not again" % (i, crash_msg(out + ".log")[:300]))
                results.append(r)
                for v in r["violations"] or []:
                    v["shard"] = "%d/%d" % (i, n)
                    viols.append((m, v))
            else:
                viols.append((m, dict(explore=last["explore"], choices=last["choices"] or [], labels=[], key="crash",
                                      msg="the process died: " + crash_msg(out2 + ".log"), crash=True)))
        if viols:
            break
    # distinct violations, shortest first
    viols.sort(key=lambda mv: (len(mv[1]["choices"]), sum(1 for x in mv[1]["choices"] if x), mv[1]["choices"]))
    seen, uniq = set(), []
    for m, v in viols:
        k = v.get("key") or v["msg"][:60]
        if k not in seen:
            seen.add(k)
            uniq.append((m, v))
    os.makedirs(HERE + "/replays", exist_ok=True)
    confirmed, alone = [], []
    for j, (m, v) in enumerate(uniq[:6]):
        path = "%s/replays/%s-%d.json" % (HERE, prop, j)
        json.dump({"property": prop, "mode": m, "violation": v,
                   "how": "python3 /verif/check.py %s --replay %s" % (prop, path)}, open(path, "w"), indent=1)
        if v["explore"] == "race" and v.get("crash"):
            confirmed.append((path, v, "race detector report"))
            continue
        def attempt(shard, budget, extra):
            out = tmp + "/re.json"
            for f in (out, out + ".log"):
                if os.path.exists(f):
                    os.remove(f)
            p = run_worker(bins[m], prop, m, shard, out, budget, extra)
            return result(out) if wait(p, budget + 80) else False

        # twice is enough: what Go leaves to chance (map order) may decide whether it is seen, and shift a schedule
        hits = tried = 0
        while tried < (5 if hits == 0 else 20):
            tried += 1
            r = attempt("0/1", 120, {"ZZ_REPLAY": path})
            if r is not False and (r is None or not r["done"] or r["violations"]):
                hits += 1
            if hits >= 2 or (hits and v.get("crash")) or time.time() > end:
                break
        if hits >= 2 or (hits and (v.get("crash") or time.time() > end)):
            confirmed.append((path, v, "reproduced %d/%d" % (hits, tried)))
        else:
            unstable.append("reproduced only %d/%d: %s" % (hits, tried, v["msg"][:300]))
            if v.get("shard"):
                alone.append((path, m, v))
        if len(confirmed) >= 3 or (confirmed and time.time() > end - 200):
            break
    # not seen in a process of its own: it may need what the executions before it left behind
    for path, m, v in ([] if confirmed else alone[:2]):
        same = 0
        for _ in range(2):
            r = attempt(v["shard"], budget / len(modes), None)
            if r and any(w["explore"] == v["explore"] and w["key"] == v["key"] for w in r["violations"] or []):
                same += 1
            elif same or time.time() > end:
                break
        if same == 2:
            json.dump({"property": prop, "mode": m, "violation": v, "shard": v["shard"], "budget": budget / len(modes),
                       "how": "python3 /verif/check.py %s --replay %s" % (prop, path)}, open(path, "w"), indent=1)
            confirmed.append((path, v, "reproduced with the executions before it 2/2"))
            break
    # evidence
    states = set()
    for r in results:
        states.update(r.get("states") or [])
    spaces, outcomes, samples, notes, known = {}, {}, [], [], {}
    for r in results:
        for k, n in (r["spaces"] or {}).items():
            spaces[k] = spaces.get(k, 0) + n
        for k, n in (r["outcomes"] or {}).items():
            outcomes[k] = outcomes.get(k, 0) + n
        samples += (r["samples"] or [])[:2]
        notes += r["notes"] or []
        known.update(r.get("known") or {})
    trans = sum(r["transitions"] for r in results)
    traces = sum(r["traces"] for r in results)
    exhaustive = bool(results) and all(r["exhaustive"] and r["done"] for r in results)
    if unstable:
        exhaustive = False
    level = spec["level"]
    cov = {"exhaustive": exhaustive, "bounds": spec.get("bounds", {}).get(TIER, spec.get("bounds", "")),
           "executions_per_space": spaces, "observed_outcomes": dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:40]),
           "notes": sorted(set(notes)) + unstable, "samples": samples[:6]}
    if level in ("exploration", "fault_enumeration"):
        cov.update(evaluations=traces, distinct_nontrivial=len(states), rule=spec["rule"])
    else:
        cov.update(states=len(states), transitions=trans, traces_validated_against_impl=traces, rule=spec["rule"])
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t_start, 1),
          "violations": len(confirmed)}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s tier=%s executions=%d states=%d transitions=%d exhaustive=%s build=%.0fs wall=%.0fs" % (
        prop, TIER, traces, len(states), trans, exhaustive, build_s, time.time() - t_start))
    for k, n in spaces.items():
        print("  space %s: %d executions" % (k, n))
    for u in unstable:
        print("  unstable (not reported): " + u)
    kd = known_keys(prop)[1]
    for k in known:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, kd.get(k, k), k))
    for path, v, how in confirmed:
        print("--- %s [%s] %s" % (v["explore"], v.get("key", ""), how))
        print("    " + " ".join(v.get("labels") or []))
        print("    " + v["msg"][:3000])
    if confirmed:
        print("VIOLATION property=%s replay=%s" % (prop, confirmed[0][0]))
        return 1
    if not results:
        print("no worker gave a result")
        return 2
    return 0


if __name__ == "__main__":
    main()
