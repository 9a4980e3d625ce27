#!/usr/bin/env python3
"""Driver of the checks.

  run.py check <property> [--tier quick|thorough]
  run.py replay <file>      re-executes a recorded violation
  run.py setup

A check compiles its exploration harnesses against /repo's current working
tree, runs them on all cores and turns the first violated oracle into a
VIOLATION line (after having re-executed the failing history).
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
import plan

CXX = "g++"
BASE = ["-std=c++17", "-O1", "-w", "-I" + os.path.join(REPO, "include"), "-I" + HARN]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer", "-no-pie"]
ENV = dict(os.environ, ASAN_OPTIONS="handle_abort=1:malloc_context_size=4:detect_stack_use_after_return=0:"
           "quarantine_size_mb=8:detect_leaks=0:allocator_may_return_null=1:new_delete_type_mismatch=1",
           MALLOC_PERTURB_="165")
NCPU = max(2, min(8, os.cpu_count() or 8))
print_lock = threading.Lock()


def say(*a):
    with print_lock:
        print(*a, flush=True)


def compile_cmd(build, out):
    f = list(BASE)
    if build.get("asan"):
        f += ASAN
    for k, v in sorted(build.get("defs", {}).items()):
        f.append("-D%s=%s" % (k, v))
    f += build.get("flags", [])
    return [CXX] + f + [os.path.join(HARN, build["src"]), "-o", out] + build.get("libs", [])


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), HARN):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for n in sorted(fs):
                p = os.path.join(d, n)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def compile_one(build, out, cache_key):
    cmd = compile_cmd(build, out)
    cdir = os.environ.get("VERIF_CACHE")
    cached = None
    if cdir:  # development aid only; keyed by the contents of every source file
        os.makedirs(cdir, exist_ok=True)
        key = hashlib.sha256((cache_key + json.dumps(build, sort_keys=True)).encode()).hexdigest()
        cached = os.path.join(cdir, key)
        if os.path.exists(cached):
            shutil.copy(cached, out)
            return True, ""
    for attempt in (0, 1):
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        except subprocess.TimeoutExpired:
            return None, "compilation timed out"
        if r.returncode == 0:
            if cached:
                shutil.copy(out, cached + ".tmp%d" % os.getpid())
                os.replace(cached + ".tmp%d" % os.getpid(), cached)
            return True, ""
    txt = r.stdout.decode(errors="replace")
    errs = [l for l in txt.splitlines() if "error:" in l]
    if not errs or "internal compiler error" in txt or "Killed" in txt:
        return None, txt[-3000:]
    return False, "\n".join(errs[:12])


def run_one(exe, args, timeout):
    t = time.time()
    try:
        r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout)
        out, err, rc = r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace"), r.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = (e.stdout or b"").decode(errors="replace"), (e.stderr or b"").decode(errors="replace"), "timeout"
    res = {"rc": rc, "stat": None, "fail": None, "out": out, "err": err[-6000:], "wall": time.time() - t}
    for l in out.splitlines():
        if l.startswith("@STAT "):
            res["stat"] = json.loads(l[6:])
        elif l.startswith("@FAIL "):
            try:
                res["fail"] = json.loads(l[6:])
            except ValueError:
                res["fail"] = {"kind": "unparsed", "what": l[:500], "trace": "", "key": ""}
        elif l.startswith("@KNOWN "):
            res.setdefault("known", []).append(l[7:])
    if rc not in (0, "timeout") and not res["fail"]:
        res["fail"] = {"kind": "crash", "what": "harness ended with status %s" % rc, "trace": "", "key": "",
                       "config": " ".join(args)}
    return res


def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    ids = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding:"):
                ids.append(l[len("finding:"):].strip())
    return ids


def check(pid, tier):
    t0 = time.time()
    prop = plan.PROPS[pid]
    builds, jobs = prop["plan"](tier)
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(VERIF, "build"))
    try:
        return _check(pid, tier, prop, builds, jobs, bdir, t0)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def _check(pid, tier, prop, builds, jobs, bdir, t0):
    key = tree_hash()
    deadline = t0 + (870 if tier == "quick" else 24 * 3600)
    exes, violations, errors, stats, known = {}, [], [], [], []
    pool = cf.ThreadPoolExecutor(NCPU)
    stop = threading.Event()

    def build_job(name):
        if stop.is_set():
            return name, None, "stopped"
        ok, msg = compile_one(builds[name], os.path.join(bdir, name), key)
        return name, ok, msg

    def run_job(j):
        if stop.is_set():
            return j, None
        exe = os.path.join(bdir, j["build"])
        limit = max(30, deadline - time.time())
        r = run_one(exe, j["args"], limit)
        if r["fail"]:
            stop.set()
            # replay before reporting
            k = r["fail"].get("key", "")
            again = None
            if k:
                again = run_one(exe, j["args"] + ["--replay", k], 240)
                r["replayed"] = bool(again["fail"])
            if not (again and again["fail"]):
                again = run_one(exe, j["args"], max(30, deadline - time.time()))
                r["rerun"] = bool(again["fail"])
            r["confirmed"] = bool(again and again["fail"])
        return j, r

    # order: builds with the most jobs first
    order = sorted(builds, key=lambda n: (-builds[n].get("cost", 1), n))
    pending = {pool.submit(build_job, n): ("b", n) for n in order}
    njobs = 0
    while pending:
        done, _ = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
        for f in done:
            kind, _n = pending.pop(f)
            if kind == "b":
                name, ok, msg = f.result()
                if ok:
                    for j in jobs:
                        if j["build"] == name:
                            pending[pool.submit(run_job, j)] = ("r", name)
                elif ok is False:
                    stop.set()
                    violations.append({"kind": "interface", "build": builds[name], "args": [],
                                       "what": "the harness, which only uses the documented interface, "
                                               "no longer compiles: " + msg, "trace": "", "key": ""})
                elif msg != "stopped":
                    errors.append("build %s: %s" % (name, msg))
            else:
                j, r = f.result()
                if r is None:
                    continue
                njobs += 1
                if r.get("known"):
                    known += r["known"]
                if r["fail"]:
                    if r["confirmed"]:
                        v = dict(r["fail"])
                        v.update(build=builds[j["build"]], args=j["args"], stderr=r["err"])
                        violations.append(v)
                    else:
                        errors.append("failure not reproduced: %s" % json.dumps(r["fail"])[:600])
                elif r["rc"] == "timeout":
                    errors.append("job timed out: %s %s" % (j["build"], " ".join(j["args"])))
                elif not r["stat"]:
                    errors.append("no statistics from %s" % j["build"])
                else:
                    s = r["stat"]
                    s["build"] = j["build"]
                    s["wall"] = round(r["wall"], 2)
                    stats.append(s)
    pool.shutdown()
    wall = time.time() - t0
    write_evidence(pid, tier, prop, stats, violations, wall)
    listed = known_findings()
    rc = 0
    for k in sorted(set(known)):
        if ("property=%s %s" % (pid, k)) in listed:
            say("KNOWN-FINDING: property=%s %s" % (pid, k))
        else:
            violations.append({"kind": "oracle", "build": None, "args": [], "what": "unlisted finding: " + k,
                               "trace": k, "key": ""})
    if violations:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(violations):
            path = os.path.join(rdir, "%s-%d.json" % (pid, i))
            v["property"] = pid
            with open(path, "w") as fh:
                json.dump(v, fh, indent=1)
            say("  %s: %s" % (v.get("kind"), v.get("what")))
            if v.get("trace"):
                say("  history: %s" % v["trace"][:1500])
            if v.get("config"):
                say("  configuration: %s" % v["config"])
            say("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    elif errors:
        for e in errors:
            say("ERROR", e)
        rc = 2
    say("%s %s: %s, %d jobs, %.1f s" % (pid, tier, {0: "held", 1: "violated", 2: "error"}[rc], njobs, wall))
    if os.environ.get("VERIF_VERBOSE"):
        for s in sorted(stats, key=lambda s: -s["wall"]):
            say(json.dumps({k: v for k, v in s.items() if k != "samples"}))
    return rc


def write_evidence(pid, tier, prop, stats, violations, wall):
    def tot(*ks):
        return sum(int(s.get(k, 0)) for s in stats for k in ks)
    samples = []
    for s in stats:
        for x in s.get("samples", [])[:2]:
            if len(samples) < 8:
                samples.append("%s: %s" % (s["config"].split(" --")[0], x))
    if not samples:
        samples = [s["config"] for s in stats[:5]]
    level = prop["level"]
    cov = {}
    if level == "model_checking":
        cov["states"] = tot("states_expanded")
        cov["transitions"] = tot("transitions")
        cov["traces_validated_against_impl"] = tot("histories")
    else:
        cov["evaluations"] = tot("evaluations", "faults", "transitions")
        cov["distinct_nontrivial"] = tot("distinct_nontrivial", "distinct_fault_sites", "distinct_cases")
        cov["rule"] = prop["rule"]
    cov["samples"] = samples
    cov["exhaustive"] = bool(stats) and not violations and not any("max-states" in s["config"] for s in stats)
    cov["bounds"] = prop.get("bounds", "")
    cov["configurations"] = [
        {k: v for k, v in s.items() if k not in ("samples", "sampled")} for s in stats]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": cov, "assumptions": prop.get("assumptions", plan.ASSUME), "wall_s": round(wall, 2),
          "violations": len(violations)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)


def replay(path):
    v = json.load(open(path))
    if not v.get("build"):
        print("nothing to execute:", v.get("what"))
        return 1
    with tempfile.TemporaryDirectory() as d:
        exe = os.path.join(d, "h")
        ok, msg = compile_one(v["build"], exe, "")
        if not ok:
            print(msg)
            return 1
        args = list(v["args"])
        if v.get("key"):
            args += ["--replay", v["key"]]
        r = run_one(exe, args, 800)
        print(r["out"][-3000:])
        print(r["err"][-3000:])
        return 1 if r["fail"] else 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        for tool in (CXX,):
            if not shutil.which(tool):
                print("missing", tool)
                return 1
        print("ok")
        return 0
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in sys.argv:
            tier = sys.argv[sys.argv.index("--tier") + 1]
        return check(sys.argv[2], tier)
    return 2


if __name__ == "__main__":
    sys.exit(main())
