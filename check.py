#!/usr/bin/env python3
"""Decides one property by symbolic execution of the current /repo sources.

usage: check.py PROPERTY [--tier quick|thorough]      (VERIF_TIER / VERIF_SEED are honoured)
       check.py --replay FILE                         re-runs a recorded counterexample natively

Exit 0: held on everything explored.  Exit 1: confirmed violation (VIOLATION line printed).
Exit 2: the check could not decide (build failure, nothing explored, or an entry that is vacuous).
"""
import sys, os, json, subprocess, time, shutil, tempfile, glob, threading, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import jobs as JOBS
REPO = os.environ.get("VERIF_REPO", "/repo")
CORES = os.cpu_count() or 8
BUDGET = int(os.environ.get("VERIF_BUDGET", "600"))  # seconds for the symbolic part of a quick check
CLANGFLAGS = ["-std=gnu++17", "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-DNDEBUG", "-ffp-contract=off", "-w"]
GXXFLAGS = ["-std=gnu++17", "-O1", "-g1", "-DNDEBUG", "-DVH_NATIVE", "-w", "-ffp-contract=off"]
SAN = ["-fsanitize=address,signed-integer-overflow,integer-divide-by-zero,null,unreachable,return", "-fno-sanitize-recover=all"]
INC = ["-I", REPO + "/include", "-I", REPO + "/src", "-I", HERE + "/harness", "-I", REPO + "/examples"]

def run(cmd, timeout=None, cwd=None, env=None, stdin=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env)
        return p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("latin1"), (e.stderr or b"").decode("latin1")

class Fail(Exception):
    pass

class Build:
    """IR and native builds of the current tree, per extension setting."""
    def __init__(self, prop, d, exts):
        self.prop, self.d, self.exts = prop, d, exts
        self.srcs = sorted(glob.glob(REPO + "/src/*.cpp"))
        if not self.srcs: raise Fail("no sources in " + REPO + "/src")
        self.h = os.path.join(HERE, "harness", JOBS.PROPS[prop]["harness"])
        self.native_done = {}
    def defs(self, ext): return (["-DMSHIO_EXT_NANOSPLINE"] if ext else [])
    def dir(self, ext): return os.path.join(self.d, "x%d" % ext)
    def ir(self, pool):
        fut = []
        for ext in self.exts:
            os.makedirs(self.dir(ext), exist_ok=True)
            for f in self.srcs + [self.h]:
                o = os.path.join(self.dir(ext), ("h_" if f == self.h else "") + os.path.basename(f) + ".ll")
                fut.append((f, pool.submit(run, ["clang++-18"] + CLANGFLAGS + self.defs(ext) + INC + ["-S", "-emit-llvm", f, "-o", o], 300)))
        for f, x in fut:
            rc, out, err = x.result()
            if rc != 0: raise Fail("cannot compile %s: %s" % (f, err[-1500:]))
    def irfiles(self, ext): return sorted(glob.glob(self.dir(ext) + "/*.ll"))
    def native(self, pool, ext, san=True):
        key = (ext, san)
        if key in self.native_done: return self.native_done[key]
        d = os.path.join(self.d, "n%d%d" % key); os.makedirs(d, exist_ok=True)
        fl = GXXFLAGS + (SAN if san else []) + self.defs(ext) + INC
        fut = []
        for f in self.srcs + [self.h, os.path.join(HERE, "harness", "vh_native.cpp")]:
            o = os.path.join(d, ("h_" if f.startswith(HERE) else "") + os.path.basename(f) + ".o")
            fut.append((f, pool.submit(run, ["g++"] + fl + ["-c", f, "-o", o], 600)))
        for f, x in fut:
            rc, out, err = x.result()
            if rc != 0: raise Fail("cannot compile natively %s: %s" % (f, err[-1500:]))
        exe = os.path.join(d, "native")
        rc, out, err = run(["g++"] + (SAN if san else []) + sorted(glob.glob(d + "/*.o")) + ["-o", exe], 300)
        if rc != 0: raise Fail("cannot link native harness: " + err[-1500:])
        self.native_done[key] = exe
        return exe

def native_run(exe, job, inputs, d, timeout=60, valgrind=False):
    w = tempfile.mkdtemp(dir=d)
    inp = os.path.join(w, "inputs.txt")
    with open(inp, "w") as f:
        for n, h in inputs: f.write("%s %s\n" % (n, h if h else "-"))
    sub = os.path.join(w, "cwd"); os.mkdir(sub)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=71:abort_on_error=0:detect_odr_violation=0:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=0")
    if "--maxalloc" in job["opts"]: env["VH_MAXALLOC"] = job["opts"][job["opts"].index("--maxalloc") + 1]
    cmd = [exe, job["entry"], str(job["cfg"]), inp]
    if valgrind: cmd = ["valgrind", "-q", "--error-exitcode=71"] + cmd
    rc, out, err = run(cmd, timeout, cwd=sub, env=env)
    shutil.rmtree(w, ignore_errors=True)
    r = dict(rc=rc, obs=[], reach=[], msg="", err=err[-1500:])
    for l in out.splitlines():
        if l.startswith("VH OBS "): r["obs"].append(int(l[7:], 16))
        elif l.startswith("VH REACH "): r["reach"].append(l[9:])
        elif l.startswith("VH "): r["msg"] = l[3:]
    return r

def failed(r):  # does a native run show a failure of the property?
    return r["rc"] == "timeout" or r["rc"] not in (0, 77, 78, 79)

def describe(r):
    if r["rc"] == "timeout": return "does not terminate"
    if r["msg"]: return r["msg"]
    return "exit %s: %s" % (r["rc"], " ".join(l for l in r["err"].splitlines() if "ERROR" in l or "runtime error" in l or "uninitialised" in l)[:300])

def known_findings():
    out = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                kv = {}
                head, _, what = l[6:].partition(" :: ")
                for t in head.split():
                    k, _, v = t.partition("="); kv[k] = v
                kv["what"] = what; out.append(kv)
    return out

class Control:
    """Stops the remaining jobs once a violation is confirmed or the time for the whole check is used up."""
    def __init__(self, deadline): self.deadline, self.stop, self.procs, self.lock = deadline, False, set(), threading.Lock()
    def left(self): return self.deadline - time.time()
    def run(self, cmd, timeout):
        with self.lock:
            if self.stop: return "stopped", ""
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE); self.procs.add(p)
        try:
            _, se = p.communicate(timeout=timeout); rc = p.returncode
        except subprocess.TimeoutExpired: p.kill(); _, se = p.communicate(); rc = "timeout"
        with self.lock: self.procs.discard(p)
        return ("stopped" if self.stop else rc), se.decode("latin1")
    def halt(self):
        with self.lock:
            self.stop = True
            for p in self.procs: p.kill()

def symex(job, b, d, tier, idx, dump, ctl):
    out = os.path.join(d, "out%d.json" % idx)
    left = ctl.left()
    if ctl.stop: return "stopped", None, ""
    if left < 8: return "budget", None, "time for the check used up"
    job["time"] = int(min(job["time"], left - 4))
    cmd = [os.path.join(HERE, "build/symex")] + b.irfiles(job["ext"]) + [os.path.join(HERE, "build/rt.bc"), "--entry", job["entry"], "--arg", str(job["cfg"]), "--out", out, "--time", str(job["time"]), "--samples", str(job["samples"])] + job["opts"]
    if dump:
        dd = os.path.join(d, "dump%d" % idx); os.makedirs(dd, exist_ok=True); cmd += ["--dump", str(dump), dd]
    rc, se = ctl.run(cmd, min(job["time"] + 120, left + 30))
    try: o = json.load(open(out))
    except Exception: o = None
    return rc, o, se

def cross_check(d, pool):
    """Re-decides dumped queries with two other solvers."""
    files = glob.glob(d + "/dump*/*.smt2"); res = dict(files=len(files), agree=0, disagree=[], unknown=0)
    def one(f):
        want = "sat" if f.endswith(".sat.smt2") and not f.endswith(".unsat.smt2") else "unsat"; r = []
        for cmd in (["z3-new", "-T:20", f], ["cvc5", "--tlimit=20000", f]):
            rc, o, e = run(cmd, 40); a = o.strip().splitlines()
            a = a[-1] if a else ""
            r.append(None if "(error" in o or a not in ("sat", "unsat") else a == want)
        return f, r
    for f, r in pool.map(one, files):
        for x in r:
            if x is None: res["unknown"] += 1
            elif x: res["agree"] += 1
            else: res["disagree"].append(os.path.basename(f))
    return res

def replay_file(path):
    v = json.load(open(path)); job = v["job"]
    d = tempfile.mkdtemp(prefix="replay.", dir=os.path.join(HERE, "build"))
    try:
        with cf.ThreadPoolExecutor(CORES) as pool:
            b = Build(v["property"], d, [job["ext"]])
            val = v.get("valgrind", False)
            r = native_run(b.native(pool, job["ext"], not val), job, v["inputs"], d, valgrind=val)
        print(json.dumps(r, indent=1)); print("REPRODUCED: " + describe(r) if failed(r) else "not reproduced")
        return 1 if failed(r) else 0
    finally: shutil.rmtree(d, ignore_errors=True)

def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay": return replay_file(sys.argv[2])
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = JOBS.PROPS[prop]; t0 = time.time()
    rc = subprocess.run([os.path.join(HERE, "setup.sh")], stdout=subprocess.DEVNULL).returncode
    if rc: print("setup failed"); return 2
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    d = tempfile.mkdtemp(prefix="run.%s." % prop, dir=os.path.join(HERE, "build"))
    try: return work(prop, P, tier, seed, d, t0, only)
    except Fail as e:
        print("CANNOT DECIDE property=%s: %s" % (prop, e)); return 2
    finally: shutil.rmtree(d, ignore_errors=True)

def work(prop, P, tier, seed, d, t0, only):
    jobs = [dict(j) for j in JOBS.expand(prop, tier)]
    if only: jobs = [j for j in jobs if j["entry"] == only.split(":")[0] and (":" not in only or str(j["cfg"]) == only.split(":")[1])]
    exts = sorted({j["ext"] for j in jobs})
    dump = 6 if tier == "thorough" else 2
    vlock = threading.Lock()
    with cf.ThreadPoolExecutor(CORES) as pool, cf.ThreadPoolExecutor(CORES) as cpool, cf.ThreadPoolExecutor(CORES) as cpool2, cf.ThreadPoolExecutor(4) as npool:
        b = Build(prop, d, exts)
        b.ir(pool)
        order = sorted(range(len(jobs)), key=lambda i: -jobs[i]["weight"])
        # native objects compile on the same cores as the symbolic jobs
        fut = {}
        nat = {ext: cpool.submit(b.native, pool, ext) for ext in exts}
        ctl = Control(t0 + (BUDGET if tier == "quick" else 40 * BUDGET))
        for i in order: fut[i] = pool.submit(symex, jobs[i], b, d, tier, i, dump if i in order[-3:] or i % 5 == 0 else 0, ctl)
        known = [k for k in known_findings() if k.get("property") == prop]
        def listed(j, v): return next((k for k in known if k.get("entry") == j["entry"] and k.get("cfg", str(j["cfg"])) == str(j["cfg"]) and k["what"] == v["msg"]), None)
        exes, checks, res = {}, [], {}
        # confirm counterexamples on the real code as they come in
        def confirm(jv):
            j, v = jv; r = native_run(nat[j["ext"]].result(), j, v["inputs"], d, timeout=30); val = False
            if not failed(r) and v["kind"] == "uninitialised":
                with vlock: exe = b.native(cpool2, j["ext"], False)
                r2 = native_run(exe, j, v["inputs"], d, timeout=120, valgrind=True)
                if failed(r2): r, val = r2, True
            if failed(r) and not listed(j, v): ctl.halt()
            return j, v, r, val
        index = {fut[i]: i for i in fut}
        for x in cf.as_completed(index):
            i = index[x]; res[i] = x.result(); o = res[i][1]
            if o and len(checks) < 60: checks += [npool.submit(confirm, (jobs[i], v)) for v in o["violations"]]
        exes = {ext: nat[ext].result() for ext in exts}
        ev = dict(paths=0, killed=0, forks=0, steps=0, queries=0, sat=0, unsat=0, asserts=0, assert_queries=0, solver_s=0.0)
        problems, confirmed, unconfirmed, fns, per_job, samples = [], [], [], {}, [], []
        reach_missing, undecided, skipped = [], [], 0
        for i, j in enumerate(jobs):
            rc, o, se = res[i]; name = "%s:%d%s" % (j["entry"], j["cfg"], "+ext" if j["ext"] else "")
            if o is None and rc == "stopped": skipped += 1; continue
            if o is None: problems.append("%s: engine gave no result (%s) %s" % (name, rc, se[-300:])); continue
            for k in ev: ev[k] += o.get(k, 0)
            per_job.append("%s paths=%d steps=%d queries=%d t=%.1fs%s" % (name, o["paths"], o["steps"], o["queries"], o["wall_s"], "" if o["complete"] else " INCOMPLETE"))
            whole = o["complete"] and not o["engine_errors"]
            if not whole: problems.append("%s: incomplete: %s" % (name, "; ".join(map(str, o["engine_errors"]))[:300] or o["killed_why"]))
            miss = [r for r in j["reach"] if r not in o["reached"]]
            if miss and not o["violations"]: (reach_missing if whole else undecided).append("%s: %s" % (name, miss))
            for f, src, n in o["functions"]:
                fns[f] = fns.get(f, 0) + n
        if skipped: problems.append("%d jobs not run to the end: a violation was confirmed first" % skipped)
        traces = 0
        for c in checks:
            j, v, r, val = c.result()
            (confirmed if failed(r) else unconfirmed).append((j, v, r, val)); traces += 1
        # native runs of sampled paths must give the same observations (validates the encoding)
        sj = [(j, s) for i, j in enumerate(jobs) if res[i][1] for s in res[i][1]["samples"]]
        if not ctl.stop:
            for (j, s), r in zip(sj, pool.map(lambda x: native_run(exes[x[0]["ext"]], x[0], x[1]["inputs"], d, timeout=60), sj)):
                traces += 1
                if len(samples) < 6 and s["inputs"]: samples.append(dict(entry=j["entry"], cfg=j["cfg"], inputs=s["inputs"][:40], observed=s["obs"][:8]))
                if failed(r): confirmed.append((j, dict(kind="sampled path", msg="native run of a sampled path fails", where="", trace="", approx=False, inputs=s["inputs"]), r, False))
                elif r["rc"] != 0 or r["obs"] != s["obs"]: problems.append("%s:%d: native run of a sampled path differs (rc %s %s, %s vs %s)" % (j["entry"], j["cfg"], r["rc"], r["msg"], r["obs"][:4], s["obs"][:4]))
        xc = cross_check(d, pool) if not ctl.stop else dict(files=0, agree=0, disagree=[], unknown=0)
    if xc["disagree"]: problems.append("solvers disagree on " + ", ".join(xc["disagree"]))
    code, shown = 0, set()
    rdir = os.path.join(HERE, "build", "replay"); os.makedirs(rdir, exist_ok=True)
    n = 0
    for j, v, r, val in confirmed:
        k = listed(j, v)
        if k:
            line = "KNOWN-FINDING: property=%s %s (%s)" % (prop, k["what"], j["entry"])
        else:
            path = os.path.join(rdir, "%s-%d.json" % (prop, n)); n += 1
            json.dump(dict(property=prop, job=j, valgrind=val, inputs=v["inputs"], kind=v["kind"], msg=v["msg"], where=v["where"], trace=v["trace"], native=describe(r)), open(path, "w"), indent=1)
            print("  %s:%d %s: %s at %s -> native: %s" % (j["entry"], j["cfg"], v["kind"], v["msg"], v["where"], describe(r)))
            line = "VIOLATION property=%s replay=%s" % (prop, path); code = 1
            if n > 5: continue
        if line not in shown: print(line); shown.add(line)
    for j, v, r, val in unconfirmed: print("UNCONFIRMED %s:%d %s: %s at %s%s (native: rc %s %s)" % (j["entry"], j["cfg"], v["kind"], v["msg"], v["where"], " [approx]" if v["approx"] else "", r["rc"], r["msg"]))
    for p in problems: print("INCOMPLETE " + p)
    for p in reach_missing: print("VACUOUS " + p)
    for p in undecided: print("UNDECIDED " + p)
    if code == 0 and (reach_missing or not ev["paths"]): code = 2
    complete = not problems and not unconfirmed and not reach_missing and not undecided
    top = sorted(fns.items(), key=lambda x: -x[1])
    evidence = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 1), violations=n,
        coverage=dict(states=ev["paths"] + ev["killed"] + ev["forks"], transitions=ev["steps"], traces_validated_against_impl=traces,
            samples=samples or [dict(entry=j["entry"], cfg=j["cfg"]) for j in jobs[:3]],
            paths_completed=ev["paths"], paths_ended_by_assumption=ev["killed"], symbolic_forks=ev["forks"], ir_instructions=ev["steps"],
            solver_queries=ev["queries"], sat=ev["sat"], unsat=ev["unsat"], assertions_checked=ev["asserts"], assertions_needing_solver=ev["assert_queries"], solver_seconds=round(ev["solver_s"], 2),
            functions_encoded=[f for f, _ in top][:150], bounds=P["bounds"], jobs=per_job[:120], every_path_within_bounds_explored=complete,
            unexplored=problems[:20], unconfirmed_counterexamples=len(unconfirmed), second_solver=dict(queries=xc["files"], agreeing_answers=xc["agree"], disagreeing=len(xc["disagree"]), no_answer=xc["unknown"])),
        assumptions=P["assumptions"] + JOBS.COMMON_ASSUMPTIONS)
    while len(json.dumps(evidence)) > 60000:
        c = evidence["coverage"]
        if len(c["jobs"]) > 10: c["jobs"] = c["jobs"][:len(c["jobs"]) // 2]
        elif len(c["samples"]) > 1: c["samples"] = c["samples"][:1]
        else: c["functions_encoded"] = c["functions_encoded"][:40]; break
    if not only: json.dump(evidence, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: jobs=%d paths=%d steps=%d queries=%d solver=%.1fs native=%d xsolver=%d/%d wall=%.1fs %s" % (prop, tier, len(jobs), ev["paths"], ev["steps"], ev["queries"], ev["solver_s"], traces, xc["agree"], 2 * xc["files"], time.time() - t0, "complete" if complete else "NOT COMPLETE"))
    return code

if __name__ == "__main__": sys.exit(main())
