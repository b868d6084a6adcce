#!/usr/bin/env python3
"""run.py C04            decide one property (tier and seed from VERIF_TIER / VERIF_SEED)
   run.py --replay FILE  run one recorded case again, with its trace
   run.py --setup        build the engine only"""
import concurrent.futures as cf, hashlib, json, os, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, UNITS, WRAPS, LIBS
BUILD = os.path.join(HERE, "build", "cache")
OUT = os.path.join(HERE, "out")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
CXX = ["g++", "-std=gnu++17", "-g"]
SIMFLAGS = ["-O1", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-Wno-tsan", "-DBOOST_ENABLE_ASSERT_HANDLER"]

def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for base, sub, files in sorted(os.walk(d)):
            sub.sort()
            for f in sorted(files):
                p = os.path.join(base, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def run(cmd, timeout=600):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def fresh(path, make):
    """make(tmp) unless path exists; atomic."""
    if os.path.exists(path): return 0, ""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = "%s.%d.tmp" % (path, os.getpid())
    rc, log = make(tmp)
    if rc == 0: os.replace(tmp, path)
    elif os.path.exists(tmp): os.unlink(tmp)
    return rc, log

def engine():
    path = os.path.join(BUILD, "engine-%s.o" % tree_hash(os.path.join(HERE, "sim"))[:16])
    rc, log = fresh(path, lambda t: run(CXX + ["-O2", "-c", os.path.join(HERE, "sim/engine.cpp"), "-o", t]))
    if rc: print(log); print("run.py: the engine does not build"); sys.exit(2)
    return path

def build(flavors, pool):
    """Builds the binaries of the flavours; returns {name: (path or None, log)}"""
    key = hashlib.sha256((tree_hash(os.path.join(REPO, "include"), os.path.join(REPO, "src")) + tree_hash(os.path.join(HERE, "sim"), os.path.join(HERE, "props"))).encode()).hexdigest()[:16]
    eng = pool.submit(engine)
    jobs = {}
    for f in flavors:
        d = os.path.join(BUILD, "%s-%s-%s" % (f["unit"], f["name"], key)); objs = []
        for k, src in enumerate(UNITS[f["unit"]]):
            o = os.path.join(d, "%d.o" % k)
            path = src["file"]; path = os.path.join(REPO, path[6:]) if path.startswith("@repo/") else os.path.join(HERE, "props", path)
            # the language level of a flavour must not hide behind a cached object: its flags are part of the unit and flavour name
            cmd = CXX + SIMFLAGS + src.get("defs", []) + [x.replace("@verif", HERE) for x in f.get("defs", [])] + ["-I" + os.path.join(HERE, "sim/shim"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-c", path]
            def mk(t, cmd=cmd, src=src):
                rc, log = run(cmd + ["-o", t])
                if rc == 0 and src.get("objcopy"): rc, log = run(["objcopy"] + src["objcopy"] + [t])
                return rc, log
            objs.append((o, pool.submit(fresh, o, mk)))
        jobs[f["name"]] = (d, objs)
    res = {}; e = eng.result(); links = {}
    for name, (d, objs) in jobs.items():
        log = ""
        for o, j in objs:
            rc, l = j.result()
            if rc: log += l
        if log: res[name] = (None, log); continue
        b = os.path.join(d, "harness")
        links[name] = (b, pool.submit(fresh, b, lambda t, objs=objs: run(["g++"] + [o for o, _ in objs] + [e] + ["-Wl,--wrap=" + w for w in WRAPS] + LIBS + ["-o", t])))
    for name, (b, j) in links.items():
        rc, log = j.result(); res[name] = (b, "") if rc == 0 else (None, log)
    return res

STOP = threading.Event()      # a violation is certain: what has not started need not run
DEADLINE = [float("inf")]

def chunk(binary, prop, flavor, seed, a, b, known, wall, samples):
    left = DEADLINE[0] - time.time()
    if STOP.is_set() or left < 5: return {"flavor": flavor, "rc": 0, "js": None, "late": not STOP.is_set()}
    wall = int(max(1, min(wall, left - 5)))
    rp = os.path.join(OUT, "%s.%s.%d-%d.json" % (prop, flavor, a, b)); hp = rp + ".hash"
    for p in (rp, hp):
        if os.path.exists(p): os.unlink(p)
    cmd = [binary, "--prop", prop, "--seed", str(seed), "--flavor", flavor, "--from", str(a), "--to", str(b), "--wall", str(wall), "--samples", str(samples), "--replay-out", rp, "--hashes", hp]
    def once():
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=max(1, min(wall + 120, DEADLINE[0] + 30 - time.time())))
            return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            return 124, "", "timeout"
    rc, out, err = once()
    r = {"flavor": flavor, "from": a, "to": b, "rc": rc, "replay": rp, "hash": hp, "cmd": cmd, "err": err[-400:]}
    try: r["js"] = json.loads(out.strip().splitlines()[-1])
    except Exception: r["js"] = None
    v = (r["js"] or {}).get("violation", "")
    certain = rc == 1 and v and not v.startswith(("UNREPRODUCED", "harness:"))
    if rc not in (0, 1, 2, 124) or v.startswith("UNREPRODUCED"):
        # a crash, a hang or a failure that does not follow from its tape: believe it only if the same cases fail again
        if STOP.is_set(): r["again"] = 0; return r
        again = [once() for _ in range(2)]
        r["again"] = sum(1 for x in again if x[0] not in (0, 2, 124))
        certain = r["again"] == 2
    if certain and not any(k["flavor"] == flavor and k["match"] in v for k in known): STOP.set()
    return r

def main():
    args = sys.argv[1:]
    os.makedirs(OUT, exist_ok=True); os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    pool = cf.ThreadPoolExecutor(JOBS + 1)
    if args and args[0] == "--setup": engine(); return 0
    if args and args[0] == "--replay":
        js = json.load(open(args[1])); c = CHECKS[js["property"]]
        fl = [f for f in c["flavors"] if f["name"] == js["flavor"]]
        b, log = build(fl, pool)[js["flavor"]]
        if not b: print(log); return 1
        return subprocess.call([b, "--prop", js["property"], "--replay", args[1]])
    prop = args[0]; c = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--thorough" in args: tier = "thorough"
    t0 = time.time()
    flavors = c["flavors"]
    for f in os.listdir(OUT):
        if f.startswith(prop + "."): os.unlink(os.path.join(OUT, f))
    built = build(flavors, pool); tb = time.time() - t0
    violations = []; skipped = []; notes = []
    for f in flavors:
        b, log = built[f["name"]]
        if b: continue
        if f.get("required", False):
            p = os.path.join(OUT, "%s.%s.build.txt" % (prop, f["name"])); open(p, "w").write(log)
            violations.append((p, f["name"], "the public interface the property speaks about does not compile any more: " + next((l for l in log.splitlines() if "error" in l), "")[:300]))
        else:
            skipped.append(f["name"]); notes.append("flavour %s does not build on this tree and was left out" % f["name"])
    scale = 1 if tier == "quick" else c.get("thorough", 20)
    if os.environ.get("VERIF_SCALE"): scale = float(os.environ["VERIF_SCALE"])
    wall = 240 if tier == "quick" else 3000
    DEADLINE[0] = t0 + (700 if tier == "quick" else 86400)
    known = []
    try: known = [k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == prop]
    except FileNotFoundError: pass
    futs = []
    for f in flavors:
        b, _ = built[f["name"]]
        if not b: continue
        n = max(JOBS, int(f["cases"] * scale)); parts = JOBS * 2
        for k in range(parts):
            futs.append(pool.submit(chunk, b, prop, f["name"], seed, n * k // parts, n * (k + 1) // parts, known, wall, 2 if k == 0 else 0))
    ev = nt = 0; hashes = {}; labels = {}; samples = []; steps = 0; cut = False; errors = []; per = {}
    for fu in futs:
        r = fu.result(); js = r["js"]
        if js:
            ev += js["evaluations"]; nt += js["nontrivial"]; steps += js["avg_steps"] * js["evaluations"]; cut |= js["cut"]
            p = per.setdefault(r["flavor"], {"cases": 0, "nontrivial": 0}); p["cases"] += js["evaluations"]; p["nontrivial"] += js["nontrivial"]
            for k, v in js["labels"].items(): labels[k] = labels.get(k, 0) + v
            for s in js["samples"]:
                if len(samples) < 6 and s: samples.append({"flavor": r["flavor"], "case": s.splitlines()})
            hashes.setdefault(r["flavor"], []).append(r["hash"])
        if r.get("late"): cut = True
        v = (js or {}).get("violation", "")
        if r["rc"] == 0: continue
        if r["rc"] == 1 and v and not v.startswith("UNREPRODUCED"):
            if v.startswith("harness:"): errors.append(v)
            else: violations.append((r["replay"], r["flavor"], v))
        elif r["rc"] in (2, 124, -9) or not r.get("again"):
            if v.startswith("UNREPRODUCED"): notes.append("a failure did not come back and is not reported: " + v)
            else: errors.append("%s: exit %s, %s" % (r["flavor"], r["rc"], r["err"]))
        elif r["again"] == 2:
            if not os.path.exists(r["replay"]): open(r["replay"], "w").write(json.dumps({"property": prop, "flavor": r["flavor"], "command": r["cmd"], "exit": r["rc"], "p": [], "s": []}))
            violations.append((r["replay"], r["flavor"], v or "the process under test crashed or hung (exit %s)" % r["rc"]))
        else: notes.append("a crash did not come back and is not reported")
    distinct = 0
    for name, files in hashes.items():
        rc, out = run([built[name][0], "--distinct"] + files)
        distinct += int(out) if rc == 0 else 0
        for x in files:
            if os.path.exists(x): os.unlink(x)
    real = []; seen_known = set()
    for rp, fl, msg in violations:
        hit = next((k for k in known if k["flavor"] == fl and k["match"] in msg), None)
        if hit: seen_known.add(hit["what"])
        else: real.append((rp, fl, msg))
    for k in known: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    evd = {"property": prop, "tier": tier, "seed": seed, "level": c.get("level", "exploration"),
           "coverage": {"evaluations": ev, "distinct_nontrivial": distinct,
                        "rule": c["rule"], "samples": samples, "flavours": per, "flavours_left_out": skipped,
                        "labels": dict(sorted(labels.items())), "schedule_points_per_case": round(steps / ev, 1) if ev else 0,
                        "stopped_by_wall_limit": cut, "build_s": round(tb, 1)},
           "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(real)}
    if notes: evd["coverage"]["notes"] = notes
    json.dump(evd, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for n in notes: print("note: " + n)
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s (%.1f s building)%s" % (prop, tier, ev, evd["coverage"]["distinct_nontrivial"], evd["wall_s"], tb, ", wall limit reached" if cut else ""))
    if real:
        for rp, fl, msg in real[:3]: print("  [%s] %s" % (fl, msg[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, real[0][0]))
        return 1
    if errors:
        for e in errors[:3]: print("error: " + e)
        return 2
    return 0

if __name__ == "__main__":
    rc = main(); sys.stdout.flush(); os._exit(rc)
