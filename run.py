#!/usr/bin/env python3
"""Run the check of one property: build DLB from /repo's working tree, run every exploration job of the
property's harnesses over all cores, confirm each violation by replaying it, write the evidence file.
usage: run.py PROPERTY [--tier quick|thorough] [--job REGEX] [--keep DIR]   exit 0: held, 1: VIOLATION, 2: no answer"""
import sys, os, json, time, subprocess, tempfile, shutil, re, hashlib
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + "/engine"); sys.path.insert(0, HERE)
import build
from checks import CHECKS, TIME

def known_findings(prop):
    out = []
    p = HERE + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) sig=(\S+) (.*)", l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    return out

def run_job(exe, job, level, tier, known, deadline, replay=None, out=None):
    cmd = [exe, "--job", job, "--level", str(level)]
    if tier == "thorough": cmd.append("--thorough")
    for k, _ in known: cmd += ["--known", k]
    cmd += ["--deadline", str(deadline), "--out", out]
    if replay is not None: cmd += ["--replay", replay]
    if os.path.exists(out): os.unlink(out)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0")
    try:
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=deadline + 60)
        rc, err = r.returncode, r.stderr[-3000:]
    except subprocess.TimeoutExpired:
        rc, err = "timeout", ""
    try: res = json.load(open(out))
    except Exception: res = None
    return rc, err, res

def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    jobre = sys.argv[sys.argv.index("--job") + 1] if "--job" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time(); chk = CHECKS[prop]; budget = TIME[tier]
    if tier == "thorough": budget = chk.get("thorough_s", budget)
    evdir = sys.argv[sys.argv.index("--evdir") + 1] if "--evdir" in sys.argv else HERE + "/evidence"
    keep = sys.argv[sys.argv.index("--keep") + 1] if "--keep" in sys.argv else None
    work = keep or tempfile.mkdtemp(prefix="dlbmc.%s." % prop)
    os.makedirs(work, exist_ok=True)
    known = known_findings(prop)
    try:
        # ---- build
        objs = {}; progs = []
        for h in chk["harnesses"]:
            variant = tuple(sorted(h.get("dlb", ())))
            if "native" in variant: progs.append((h, build.build_native(work, h["name"], h["name"] + ".cpp"))); continue
            if variant not in objs: objs[variant] = build.build_dlb(work, tsan="tsan" in variant, debug="debug" in variant, mpi="mpi" in variant)
            exe = build.build_prog(work, h["name"], [HERE + "/h/" + h["name"] + ".cpp"], objs[variant], [HERE + "/h/" + s for s in h.get("shims", ())], cxxflags=h.get("cxxflags", ()))
            progs.append((h, exe))
        t_build = time.time() - t0
        # ---- jobs
        def lv(n, h): return (1 if tier == "thorough" else 0) + (1 if re.search(h.get("deep", "."), n) else 0)
        jobs = []
        for h, exe in progs:
            l = subprocess.run([exe, "--list"] + (["--thorough"] if tier == "thorough" else []), stdout=subprocess.PIPE, text=True, check=True).stdout
            for line in l.splitlines():
                w, n = line.split(" ", 1)
                if re.search(h.get("jobs", "."), n) and (not jobre or re.search(jobre, n)): jobs.append((int(w), n, exe, h))
        jobs.sort(key=lambda j: (-lv(j[1], j[3]), -j[0]))
        results = []
        def one(i):
            w, n, exe, h = jobs[i]
            left = max(10, budget - (time.time() - t0))
            return i, run_job(exe, n, lv(n, h), tier, known, left, out="%s/res%d.json" % (work, i))
        with ThreadPoolExecutor(8) as ex:
            for f in as_completed([ex.submit(one, i) for i in range(len(jobs))]): results.append(f.result())
        results.sort()
        # ---- verdict
        rep = evdir + "/replay"; os.makedirs(rep, exist_ok=True)
        violations = []; errors = []; hits = {}; cov = dict(states=0, transitions=0, executions=0, evals=0, nontrivial=0); outcomes = {}; samples = []; bounds = []; trunc = []; per = {}
        for i, (rc, err, res) in results:
            w, n, exe, h = jobs[i]
            if res is None:
                rc2, err2, res2 = run_job(exe, n, lv(n, h), tier, known, 60, out="%s/again%d.json" % (work, i)) if rc != "timeout" else (rc, err, None)
                if res2 is None and rc2 == rc and rc != "timeout":
                    violations.append((h["name"], n, {"sig": "abnormal-end", "msg": "the exploration of the implementation ended abnormally (exit %s): %s" % (rc, err[-400:]), "path": ""}))
                elif res2 is None: errors.append("%s: ended with %s" % (n, rc))
                else: res = res2
                if res is None: continue
            for k in ("states", "transitions", "executions", "evals", "nontrivial"): cov[k] += res[k]
            for k, v in res["outcomes"].items(): outcomes[k] = outcomes.get(k, 0) + v
            for k, v in res["known"].items(): hits[k] = hits.get(k, 0) + v
            samples += ["%s: %s" % (n, s) for s in res["samples"][:2]]
            bounds += ["%s: %s" % (n, b) for b in res["bounds"]]
            if res["truncated"]: trunc.append(n)
            per[n] = dict(level=lv(n, h), states=res["states"], transitions=res["transitions"], depth=res["depth"])
            for v in res["violations"]:
                ok = False
                for _ in range(2):
                    rc2, err2, r2 = run_job(exe, n, lv(n, h), tier, known, 60, replay=v["path"], out="%s/rp%d.json" % (work, i))
                    if r2 is None and rc2 not in (0, "timeout"): ok = True; break
                    if r2 and r2["violations"]: ok = True; break
                if ok: violations.append((h["name"], n, v))
                else:
                    rc3, err3, r3 = run_job(exe, n, lv(n, h), tier, known, budget, out="%s/rr%d.json" % (work, i))
                    if r3 and r3["violations"]: violations.append((h["name"], n, v))
                    else: errors.append("%s: violation %s did not reproduce" % (n, v["sig"]))
        missing = [o for o in chk.get("must_see", []) if not jobre and not any(re.fullmatch(o, k) for k in outcomes)]
        cov["traces_validated_against_impl"] = cov["executions"]
        level = chk["level"]
        c = dict(states=cov["states"], transitions=cov["transitions"], traces_validated_against_impl=cov["executions"], samples=samples[:12], jobs=per, bounds=bounds, outcomes=outcomes, truncated_jobs=trunc, exhaustive=not trunc)
        if cov["evals"]: c.update(evaluations=cov["evals"], distinct_nontrivial=cov["nontrivial"], rule=chk.get("rule", ""))
        c["known_findings_hit"] = hits; c["build_s"] = round(t_build, 1); c["outcomes_expected_but_not_seen"] = missing; c["errors"] = errors
        ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=c, wall_s=round(time.time() - t0, 2), violations=len(violations), assumptions=chk.get("assumptions", []))

        json.dump(ev, open(evdir + "/%s.json" % prop, "w"), indent=1)
        for sig, what in known:
            if hits.get(sig): print("KNOWN-FINDING: property=%s %s" % (prop, what))
        for e in errors: print("note: %s" % e, file=sys.stderr)
        print("%s %s: %d states, %d transitions, %d traces, %d evaluations, %d jobs%s, %.1f s" % (prop, tier, cov["states"], cov["transitions"], cov["executions"], cov["evals"], len(jobs), " (%d cut by time)" % len(trunc) if trunc else "", time.time() - t0))
        if violations:
            for k, (hn, n, v) in enumerate(violations[:5]):
                f = "%s/%s.%s.json" % (rep, prop, hashlib.md5((n + v["sig"]).encode()).hexdigest()[:8])
                json.dump(dict(property=prop, harness=hn, job=n, tier=tier, level=[lv(j[1], j[3]) for j in jobs if j[1] == n][0], violation=v, how="python3 /verif/replay.py " + f), open(f, "w"), indent=1)
                print("  %s/%s [%s] %s\n    history: %s" % (hn, n, v["sig"], v["msg"][:1500], v["path"][-1500:]))
                print("VIOLATION property=%s replay=%s" % (prop, f))
            return 1
        return 2 if errors and not per else 0
    finally:
        if not keep: shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__": sys.exit(main())
