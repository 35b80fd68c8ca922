#!/usr/bin/env python3
"""runs the check of one property:  run.py <property id> [quick|thorough]

A check consists of
  1. design checks: TLC checks the invariants/properties of a specification module exhaustively (or by
     simulation) for small constants; such a module may also dump the behaviours/cases it explored,
  2. conformance: a harness (built from /repo's working tree) executes the implementation, on cases/behaviours
     generated by TLC and on random ones, and records a trace; TLC validates the trace against the spec.
exit 0: everything accepted, 1: a trace was rejected (VIOLATION line), 2: the machinery itself failed.
"""
import sys, os, json, random, subprocess, time, re, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
TLA = "/opt/veriftools/tla"
sys.path.insert(0, ROOT)
from checks import CHECKS

class ToolError(Exception):
    pass

def sh(cmd, timeout, env=None, cwd=None, stdout=subprocess.PIPE, stderr=subprocess.STDOUT):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, env=e, cwd=cwd, stdout=stdout, stderr=stderr, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out or ""
    except subprocess.TimeoutExpired:
        cpu = 0.0
        try:
            f = open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split()
            cpu = (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except OSError:
            pass
        os.killpg(p.pid, 9)
        p.communicate()
        return None, cpu

def build(bins):
    env = {"RUSTFLAGS": "-Awarnings", "CARGO_TARGET_DIR": os.path.join(ROOT, "target"), "CARGO_NET_OFFLINE": "true"}
    for crate in ("harness", "lock"):
        bs = [b for b in sorted(bins) if os.path.exists(os.path.join(ROOT, crate, "src", "bin", b + ".rs"))]
        if not bs:
            continue
        cmd = ["cargo", "build", "--offline", "-q"]
        for b in bs:
            cmd += ["--bin", b]
        rc, out = sh(cmd, 800, env, os.path.join(ROOT, crate))
        if rc != 0:
            raise ToolError("harness does not build against /repo:\n" + out[-4000:])

def tlc(module, cfg, work, env=None, workers=8, timeout=800, extra=(), heap="6g", tag="", jvm=()):
    meta = os.path.join(work, "meta_%s_%s%s" % (module, os.path.basename(cfg).replace(".cfg", ""), tag))
    cmd = ["java"] + list(jvm) + ["-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss64m", "-Xmx" + heap, "-cp", TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar",
           "tlc2.TLC", "-noGenerateSpecTE", "-config", cfg, "-workers", str(workers), "-metadir", meta] + list(extra) + [module + ".tla"]
    rc, out = sh(cmd, timeout, env, SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out

def stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
    if m:
        return tuple(int(x.replace(",", "")) for x in m[-1])
    m = re.findall(r"Progress: ([\d,]+) states checked", out) or re.findall(r"(\d[\d,]*) states checked", out)
    if m:
        k = int(m[-1].replace(",", ""))
        return (k, k)
    return (0, 0)

def design(d, work, tier, cov):
    """one design check; returns nothing, raises ToolError when the specification itself is broken"""
    env = dict(d.get("env", {}))
    if d.get("out"):
        env["OUT"] = os.path.join(work, d["out"])
    extra = d.get("extra", ())
    cfg = d.get("cfg", d["module"] + ".cfg")
    if "sim" in d:
        num, depth = d["sim"]
        extra = list(extra) + ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(SEED)]
    t0 = time.time()
    rc, out = tlc(d["module"], cfg, work, env, 1 if "sim" in d else d.get("workers", 8), d.get("timeout", 800), extra, d.get("heap", "8g"))
    if rc is None:
        raise ToolError("TLC timeout on %s" % cfg)
    ok = "No error has been found" in out or ("sim" in d and rc == 0 and "Error:" not in out)
    if not ok:
        raise ToolError("TLC rejects the design model %s:\n%s" % (cfg, out[-6000:]))
    g, n = stats(out)
    cov["states"] += n
    cov["transitions"] += g
    cov["design_checks"].append({"module": d["module"], "config": cfg, "states_generated": g, "distinct_states": n, "seconds": round(time.time() - t0, 1)})
    if d.get("grep"):   # behaviours printed by TLC (ToJson) -> file
        seen = []
        with open(os.path.join(work, d["grep"]), "w") as f:
            have = set()
            for line in out.splitlines():
                m = re.match(r'^"?BEHAVIOUR (.*?)"?$', line.strip())
                if m:
                    s = m.group(1)
                    if '\\"' in s:
                        s = s.replace('\\"', '"').replace("\\\\", "\\")
                    if s not in have:
                        have.add(s)
                        seen.append(s)
            seen.sort()
            random.Random(SEED).shuffle(seen)
            f.write("\n".join(seen) + "\n")
            cov["design_checks"][-1]["behaviours"] = len(seen)

def record(r, work, seed, idx):
    """runs the harness; returns list of trace files"""
    path = os.path.join(work, "trace_%d.ndjson" % idx)
    cmd = [os.path.join(ROOT, "target", "debug", r["bin"]), r["mode"], path, str(seed), str(r["n"])]
    if r.get("inp"):
        cmd.append(os.path.join(work, r["inp"]))
    errp = os.path.join(work, "err_%d.txt" % idx)
    env = dict(r.get("env", {}))
    env["RUST_BACKTRACE"] = "0"
    with open(errp, "w") as ef:
        rc, cpu = sh(cmd, r.get("timeout", 600), env, work, subprocess.DEVNULL, ef)
    bad = None
    if rc is None and cpu < r.get("timeout", 600) / 2:   # it was not the code under test which took the time
        raise ToolError("harness did not finish (machine overloaded?): " + " ".join(cmd))
    if rc is None:
        bad = {"op": "hang", "msg": "harness exceeded %d s" % r.get("timeout", 600)}
    elif rc != 0:
        bad = {"op": "died", "rc": rc, "msg": open(errp, errors="replace").read()[-600:]}
    if bad:
        lines = []
        if os.path.exists(path):
            lines = open(path, errors="replace").read().split("\n")
            lines = [l for l in lines[:-1]]  # last line may be incomplete
        with open(path, "w") as f:
            f.write("\n".join(lines + [json.dumps(bad)]) + "\n")
    return path, " ".join(cmd)

def chunks(path, work, idx, n):
    """splits a trace into at most n parts, at the beginnings of runs (events "start") when it has such events"""
    lines = open(path).read().splitlines()
    starts = [i for i, l in enumerate(lines) if '"op":"start"' in l]
    if n <= 1 or len(lines) < 60 or (len(lines) < 400 and not starts):
        return [path]
    k = (len(lines) + n - 1) // n
    cuts = [0]
    if starts:
        for i in starts:
            if i - cuts[-1] >= k:
                cuts.append(i)
    else:
        cuts = list(range(0, len(lines), k))
    res = []
    for a, b in zip(cuts, cuts[1:] + [len(lines)]):
        p = os.path.join(work, "chunk_%d_%d.ndjson" % (idx, a))
        open(p, "w").write("\n".join(lines[a:b]) + "\n")
        res.append(p)
    return res

def validate(module, path, work, tag, env=None, timeout=800, cfg="Trace.cfg", jvm=(), undecided=False):
    e = {"TRACE": path}
    e.update(env or {})
    rc, out = tlc(module, cfg, work, e, 1, timeout, (), "3g", tag, jvm)
    if rc is None and undecided:   # the search for an explanation took too long: no statement about this trace
        return "undecided", 0
    if rc is None:
        raise ToolError("TLC timeout validating " + path)
    g, n = stats(out)
    if "No error has been found" in out and "REJECTED" not in out:
        return None, n
    lines = open(path).read().splitlines()
    m = re.search(r'"REJECTED", (\d+)', out)
    if m:
        k = int(m.group(1))
        why = re.findall(r'<<"WHY".*', out)
        return {"line": k, "event": lines[k - 1][:20000], "prev": lines[k - 2][:4000] if k > 1 else "", "why": why[-3:], "tlc": ""}, n
    # evaluation error while consuming an event, or an invariant violated by the trace
    m = re.findall(r"^/?\\?\s*l = (\d+)", out, re.M) or re.findall(r"l = (\d+)", out)
    if m and "Parsing or semantic analysis failed" not in out and "OutOfMemory" not in out:
        k = max(int(x) for x in m)
        k = min(k + 1, len(lines))
        msg = "\n".join(x for x in out.splitlines() if x.startswith("Error") or "Invariant" in x)[:1500]
        return {"line": k, "event": lines[k - 1][:20000], "prev": lines[k - 2][:4000] if k > 1 else "", "why": [msg], "tlc": out[-1500:]}, n
    raise ToolError("TLC failed on trace %s:\n%s" % (path, out[-3000:]))

def main():
    global SEED
    pid = sys.argv[1]
    if pid == "setup":
        build(sorted(x[:-3] for c in ("harness", "lock") for x in os.listdir(os.path.join(ROOT, c, "src", "bin")) if x.endswith(".rs")))
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    SEED = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[pid]
    t0 = time.time()
    work = os.path.join(ROOT, "work", pid + "_" + tier)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0, "design_checks": [], "events_by_kind": {}, "samples": []}
    violation = None
    try:
        plan = c[tier] if tier in c else c["quick"]
        with ThreadPoolExecutor(4) as ex:   # the build runs beside the design checks
            fb = ex.submit(build, {r["bin"] for r in plan["traces"]})
            pre = [d for d in plan["design"]]
            fs = []
            if plan.get("design_parallel", True) and len(pre) > 1:
                for d in pre:
                    d.setdefault("workers", 4)
                fs = [ex.submit(design, d, work, tier, cov) for d in pre]
            else:
                for d in pre:
                    design(d, work, tier, cov)
            for f in fs:
                f.result()
            fb.result()
        jobs = []
        runs = []
        for r in plan["traces"]:
            for k in range(r.get("runs", 1)):
                runs.append((r, SEED * 1000 + k + r.get("seed0", 0)))
        with ThreadPoolExecutor(plan.get("par_record", 6)) as ex:
            recs = list(ex.map(lambda a: record(a[1][0], work, a[1][1], a[0]), enumerate(runs)))
        for i, ((r, seed), (path, cmd)) in enumerate(zip(runs, recs)):
            n = 0
            seen = set()
            with open(path) as f:
                for line in f:
                    n += 1
                    m = re.search(r'"op":"([^"]*)"', line)
                    op = m.group(1) if m else "?"
                    cov["events_by_kind"][op] = cov["events_by_kind"].get(op, 0) + 1
                    if op not in seen and len(cov["samples"]) < 12 and len(line) < 1500:
                        seen.add(op)
                        if not any(s.get("op") == op for s in cov["samples"] if isinstance(s, dict)):
                            cov["samples"].append(json.loads(line))
            cov["events_validated"] += n
            if n == 0:
                raise ToolError("empty trace from " + cmd)
            for p in chunks(path, work, i, r.get("chunks", 1)):
                jobs.append((r, p, cmd, "_%d" % len(jobs)))
        stop = []
        def job(j):
            if stop:   # already decided
                return j, (None, 0)
            v = validate(j[0]["spec"], j[1], work, j[3], j[0].get("tlc_env"), j[0].get("tlc_timeout", 800), j[0].get("cfg", "Trace.cfg"), j[0].get("jvm", ()), j[0].get("undecided", False))
            if isinstance(v[0], dict):
                stop.append(1)
            return j, v
        with ThreadPoolExecutor(plan.get("par_tlc", 7)) as ex:
            res = list(ex.map(job, jobs))
        und = sum(1 for _, (rej, n) in res if rej == "undecided")
        if und:
            cov["undecided_traces"] = und
            if und * 2 > len(res):
                raise ToolError("most traces could not be decided in time")
        for (r, p, cmd, _), (rej, n) in res:
            if rej == "undecided":
                continue
            cov["traces_validated_against_impl"] += 1
            cov["states"] += n
            cov["transitions"] += max(0, n - 1)
            if rej and not violation:
                violation = {"property": pid, "command": cmd, "spec": r["spec"], "trace": p, **rej}
        need = c.get("need", [])
        for op in need:
            if not violation and cov["events_by_kind"].get(op, 0) == 0:
                raise ToolError("no event of kind %s was recorded; the check would be vacuous" % op)
    except ToolError as e:
        print("ERROR %s: %s" % (pid, e))
        sys.exit(2)
    rp = None
    if violation:
        rp = os.path.join(ROOT, "replays", "%s_%s_seed%d.json" % (pid, tier, SEED))
        tp = rp.replace(".json", ".trace.ndjson")
        shutil.copy(violation["trace"], tp)
        violation["trace"] = tp
        json.dump(violation, open(rp, "w"), indent=1)
    if not cov["samples"]:
        cov["samples"] = ["see design_checks"]
    ev = {"property": pid, "tier": tier, "seed": SEED, "level": "model_checking", "coverage": cov,
          "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0}
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    kf = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r"finding: property=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                print("KNOWN-FINDING: property=%s %s" % (pid, m.group(2).strip()))
    if violation:
        print("rejected event %d of the trace of: %s" % (violation["line"], violation["command"]))
        print("event: " + violation["event"][:1500])
        for w in violation["why"]:
            print("why: " + str(w)[:800])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    print("OK %s %s: %d states in design checks+traces, %d events in %d traces accepted, %.1f s" % (pid, tier, cov["states"], cov["events_validated"], cov["traces_validated_against_impl"], time.time() - t0))

main()
