#!/usr/bin/env python3
"""Decides one property: compiles its harnesses together with /repo's current sources to LLVM IR, explores them
symbolically with build/vpsym (Z3), validates path witnesses and counterexamples against the natively compiled code.

  check.py --property C01 [--tier quick|thorough] [--only ENTRY] [--keep]
  check.py --replay FILE          run a recorded counterexample against the real code
"""
import argparse, concurrent.futures as cf, fcntl, hashlib, json, os, random, re, resource, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, VERIF)
import registry  # noqa: E402

MEMORY = 7 << 29  # per run of the executor
CLANG = "clang++"
COMMON = ["-std=c++14", "-include", "cstdint", "-I%s/include" % REPO, "-I%s/harness" % VERIF, "-I%s/shim" % VERIF,
          "-I%s/src/hubbard" % REPO, "-isystem", "/usr/include/eigen3", "-DEIGEN_DONT_VECTORIZE", "-fno-rtti", "-ffp-contract=off", "-D_GLIBCXX_ASSERTIONS", "-w"]
IRFLAGS = ["-O1", "-DVP_SYMBOLIC", "-fno-pic", "-g1", "-emit-llvm", "-c", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-fno-discard-value-names", "-fdebug-compilation-dir=/verif"]


def run(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=timeout, **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        o = ex.stdout or ""
        if isinstance(o, bytes):
            o = o.decode(errors="replace")
        return "timeout", o


def ensure_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, out = run(["make", "-s", "-C", os.path.join(VERIF, "engine"), "B=" + BUILD])
        if rc != 0:
            print(out)
            print("ERROR: the symbolic executor could not be built")
            sys.exit(2)


class Work:
    """compiled artefacts of one run, in a scratch directory"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vp.", dir=BUILD)
        self.pool = cf.ThreadPoolExecutor(8)
        self.fut = {}
        self.stop = threading.Event()  # a violation is confirmed: the rest need not be explored

    def close(self):
        self.pool.shutdown(wait=True, cancel_futures=True)
        shutil.rmtree(self.dir, ignore_errors=True)

    def _ir(self, src, omp, defs):
        o = os.path.join(self.dir, hashlib.md5(repr((src, omp, defs)).encode()).hexdigest()[:10] + ".bc")
        cmd = [CLANG] + COMMON + IRFLAGS + (["-fopenmp"] if omp else []) + ["-D" + d for d in defs] + \
              [os.path.join(VERIF, "harness", src), "-o", o]
        rc, out = run(cmd, timeout=300)
        return (o, None) if rc == 0 else (None, out)

    def _native(self, src, omp, defs, kind):
        h = hashlib.md5(repr((src, omp, defs, kind)).encode()).hexdigest()[:10]
        o = os.path.join(self.dir, h + ".exe")
        files = [os.path.join(VERIF, "harness", src), os.path.join(VERIF, "harness", "vp_runtime.cpp")]
        if kind == "tsan" or omp:
            sanf = "-fsanitize=thread" if kind == "tsan" else "-fsanitize=address,undefined" if kind == "asan" else "-O1"
            cc = [CLANG, "-O1", "-g", sanf, "-fopenmp"] + (["-fno-sanitize-recover=all", "-fno-sanitize=vptr"] if kind == "asan" else [])
            # -fopenmp only for compilation: the mini runtime below replaces libomp
            objs = []
            for f in files + [os.path.join(VERIF, "harness", "mini_omp.cpp")]:
                ob = os.path.join(self.dir, h + os.path.basename(f) + ".o")
                rc, out = run(cc + COMMON + ["-D" + d for d in defs] + ["-c", f, "-o", ob], timeout=300)
                if rc != 0:
                    return None, out
                objs.append(ob)
            rc, out = run([CLANG, sanf, "-rdynamic"] + objs + ["-o", o, "-ldl", "-lpthread"], timeout=300)
            return (o, None) if rc == 0 else (None, out)
        san = {"asan": ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"],
               "plain": ["-O1", "-g"]}[kind]
        cmd = ["g++"] + san + COMMON + ["-D" + d for d in defs] + files + ["-rdynamic", "-o", o, "-ldl"]
        rc, out = run(cmd, timeout=300)
        return (o, None) if rc == 0 else (None, out)

    def ir(self, src, omp, defs):
        k = ("ir", src, omp, defs)
        if k not in self.fut:
            self.fut[k] = self.pool.submit(self._ir, src, omp, defs)
        return self.fut[k]

    def native(self, src, omp, defs, kind="asan"):
        k = (kind, src, omp, defs)
        if k not in self.fut:
            self.fut[k] = self.pool.submit(self._native, src, omp, defs, kind)
        return self.fut[k]


def write_inputs(path, job, inputs, header=()):
    with open(path, "w") as f:
        for h in header:
            f.write("# %s\n" % h)
        f.write("# job %s\n" % json.dumps(job.ident()))
        for n, v in inputs:
            f.write("%s %s\n" % (n, v))


def native_run(exe, job, inp, timeout=30, pre=(), concurrent=False):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99", UBSAN_OPTIONS="print_stacktrace=0",
               TSAN_OPTIONS="exitcode=66:report_bugs=1", OMP_NUM_THREADS="2", VP_OMP_THREADS=str(job.threads))
    if not concurrent:
        env["VP_OMP_SERIAL"] = "1"
    with open(inp) as f:
        m = re.search(r"^# tolerance (\S+)$", f.read(), re.M)
    if m:
        env["VP_TOLERANCE"] = m.group(1)
    cmd = list(pre) + [exe, job.entry, "--args=" + ",".join(map(str, job.args)), "--in=" + inp]
    if job.pre:
        cmd.append("--pre=" + job.pre)
    return run(cmd, timeout=timeout, env=env)


def close_enough(a, b):
    try:
        x, y = float.fromhex(a) if "x" in a else float(a), float.fromhex(b) if "x" in b else float(b)
    except ValueError:
        return a == b
    if x == y:
        return True
    return abs(x - y) <= 1e-6 * max(1.0, abs(x), abs(y))


def check_witness(work, job, wit, exe, idx):
    """Returns (ok, text): the native run of the witness agrees with the symbolic one"""
    inp = os.path.join(work.dir, "w_%s_%d.txt" % (hashlib.md5(repr(job.ident()).encode()).hexdigest()[:8], idx))
    write_inputs(inp, job, wit["inputs"])
    rc, out = native_run(exe, job, inp)
    if rc != 0:
        return False, "exit %s: %s" % (rc, out[-400:])
    got = re.findall(r"^OBS (\S+) (\S+)$", out, re.M)
    exp = [tuple(x) for x in wit["obs"]]
    if len(got) < len(exp):
        return False, "observations missing"
    for (n, v), (gn, gv) in zip(exp, got):
        if n != gn or not close_enough(v, gv):
            return False, "observation %s: symbolic %s, native %s=%s" % (n, v, gn, gv)
    m = re.search(r"^DONE (\d+)", out, re.M)
    if not m:
        return False, "native run did not finish"
    return True, ""


def tolerance(r):
    """Single precision in the code under test: the native run has to tell it from double precision"""
    return ["tolerance 1e-9"] if r.get("narrowed") else []


def confirm(work, job, v, path, r):
    """Replay a counterexample on the really compiled code.  Returns (confirmed, text)"""
    kind = v["kind"]
    if kind == "race":
        exe, err = work.native(job.src, True, job.defs, "tsan").result()
        if not exe:
            return False, "native build failed: " + err[-300:]
        rc, out = native_run(exe, job, path, timeout=120, concurrent=True)
        return rc == 66 or "data race" in out, out[-1500:]
    exe, err = work.native(job.src, job.omp, job.defs, "asan").result()
    if not exe:
        return False, "native build failed: " + err[-300:]
    rc, out = native_run(exe, job, path)
    if rc == 20 or rc == 21:
        return False, "replay does not satisfy the assumptions (exit %s)" % rc
    if rc == "timeout":
        return True, "native run does not terminate"
    if rc != 0:
        return True, out[-1500:]
    if kind == "uninit":
        exe, err = work.native(job.src, job.omp, job.defs, "plain").result()
        if exe:
            rc, out = native_run(exe, job, path, timeout=120, pre=["valgrind", "-q", "--error-exitcode=9"])
            return rc == 9, out[-1500:]
    if kind == "assert" and job.fp != "ieee" and any(is_real(x) for _, x in v["inputs"]):
        # rounding is over-approximated: whether it shows for these very numbers is chance, so try neighbours of them
        rnd = random.Random(1)
        near = path + ".near"
        for i in range(200):
            scale = 10. ** -rnd.uniform(0, 9)
            if i % 4 == 3:      # further away
                moved = [(n, repr(rnd.choice((-1, 1)) * 10. ** rnd.uniform(-2, 2)) if is_real(x) else x) for n, x in v["inputs"]]
            else:
                moved = [(n, repr((real_of(x) or rnd.uniform(-1, 1)) * (1 + rnd.uniform(-1, 1) * scale)) if is_real(x) else x)
                         for n, x in v["inputs"]]
            write_inputs(near, job, moved, header=["near a counterexample", "%s: %s" % (kind, v["msg"])] + tolerance(r))
            rc, o = native_run(exe, job, near)
            if rc == 10:
                os.replace(near, path)
                return True, o[-1500:]
        os.remove(near)
    return False, "native run passes: " + out[-300:]


def is_real(x):
    return "x" in str(x) or "." in str(x)


def real_of(x):
    return float.fromhex(x) if "x" in x else float(x)


def load_known():
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) entry=(\S+) args=(\S*) msg=\"(.*?)\" (.*)$", line.strip())
            if m:
                r.append(m.groups())
    return r


def run_engine(work, cmd, timeout):
    with tempfile.TemporaryFile("w+", dir=work.dir, errors="replace") as log:
        p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT,
                             preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY)))
        end = time.time() + timeout
        rc = None
        wait = 0.002
        while rc is None:
            try:
                rc = p.wait(wait)
            except subprocess.TimeoutExpired:
                wait = min(0.2, wait * 1.5)
                if work.stop.is_set() or time.time() > end:
                    p.kill()
                    p.wait()
                    rc = "timeout"
        log.seek(0)
        return rc, log.read()


def run_job(work, job, seed, deadline):
    if work.stop.is_set():
        return None
    t0 = time.time()
    engine_time = max(3, int(deadline - t0))
    bc, err = work.ir(job.src, job.omp, job.defs).result()
    if not bc:
        return {"job": job, "error": "harness does not compile:\n" + err[-3000:]}
    stubs, err = work.ir("stubs.cpp", False, ()).result()
    if not stubs:
        return {"job": job, "error": "stubs do not compile:\n" + err[-3000:]}
    out = os.path.join(work.dir, "r_%s.json" % hashlib.md5(repr(job.ident()).encode()).hexdigest()[:10])
    cmd = [os.path.join(BUILD, "vpsym"), bc, stubs, "--entry=" + job.entry, "--out=" + out, "--fp=" + job.fp,
           "--time=%d" % min(job.time, engine_time), "--seed=%d" % seed, "--threads=%d" % job.threads,
           "--qtime=%d" % job.qtime, "--maxinstr=%d" % job.maxinstr]
    if job.pre:
        cmd.append("--pre=" + job.pre)
    if job.args:
        cmd.append("--args=" + ",".join(map(str, job.args)))
    rc, txt = run_engine(work, cmd, min(job.time, engine_time) + 60)
    if work.stop.is_set():
        return None
    if not os.path.exists(out):
        return {"job": job, "error": "executor failed (exit %s): %s" % (rc, txt[-2000:])}
    res = json.load(open(out))
    res["job"] = job
    res["error"] = None
    # witnesses
    res["validated"], res["wit_bad"] = 0, []
    exe, err = work.native(job.src, job.omp, job.defs, "asan").result()
    if not exe:
        res["error"] = "native build failed:\n" + err[-3000:]
        return res
    for i, w in enumerate(res["witnesses"]):
        ok, why = check_witness(work, job, w, exe, i)
        if ok:
            res["validated"] += 1
        else:
            res["wit_bad"].append((i, why))
    res["total_s"] = time.time() - t0
    return res


def check(prop, tier, seed, only=None, keep=False):
    t0 = time.time()
    ensure_engine()
    spec = registry.PROPS[prop]
    jobs = [j for j in spec.jobs if (tier == "thorough" or j.tier == "quick") and (only is None or j.entry == only)]
    work = Work()
    try:
        return _check(prop, tier, seed, spec, jobs, work, t0, keep)
    finally:
        if not keep:
            work.close()
        else:
            print("kept", work.dir)


def judge(work, prop, r, known, viol, errors, findings, rdir):
    j = r["job"]
    if r.get("error"):
        errors.append("%s: %s" % (j.label(), r["error"]))
        if "violations" not in r:
            return
    for v in r["violations"]:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s_%d.txt" % (j.entry, len(os.listdir(rdir))))
        write_inputs(path, j, v["inputs"], header=["property %s" % prop, "%s: %s" % (v["kind"], v["msg"]),
                                                   "at " + v["stack"][:600]] + tolerance(r))
        ok, text = confirm(work, j, v, path, r)
        kf = [k for k in known if k[0] == prop and k[1] == j.entry and (k[2] in ("", "*", ",".join(map(str, j.args))))
              and k[3] in v["msg"]]
        if kf:
            findings.append((kf[0], v))
        elif ok:
            viol.append((j, v, path, text))
        else:
            errors.append("%s: counterexample not reproduced natively (%s: %s) at %s inputs %s: %s" % (
                j.label(), v["kind"], v["msg"], v["stack"][:300], v["inputs"][:20], text[-300:]))
    for (i, why) in r["wit_bad"]:
        w = r["witnesses"][i]
        if j.fp == "ieee" or not any("x" in str(v) or "." in str(v) for _, v in w["inputs"]):
            # concrete integer inputs: the native run is authoritative
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s_%d.txt" % (j.entry, len(os.listdir(rdir))))
            write_inputs(path, j, w["inputs"], header=["property %s" % prop, "native run of a witness: " + why.split("\n")[0]])
            if re.match(r"exit (10|99|timeout|1|-\d+|134|139):", why):
                v = {"kind": "native", "msg": why, "stack": "", "inputs": w["inputs"]}
                viol.append((j, v, path, why))
            else:
                errors.append("%s: encoding and native execution disagree: %s" % (j.label(), why))
    if r["fatal"]:
        errors.append("%s: %s" % (j.label(), r["fatal"]))
    for u in r["unsupported"]:
        errors.append("%s: not encodable: %s" % (j.label(), u))
    for k, n in r["incomplete"].items():
        errors.append("%s: incomplete: %s (%d)" % (j.label(), k, n))
    if not r["violations"] and not r["unsupported"] and not r["fatal"]:
        if r["completed"] == 0 or r["asserts"] == 0:
            errors.append("%s: vacuous: no path reaches the assertions" % j.label())
        elif r["validated"] == 0 and j.fp == "ieee":
            errors.append("%s: no witness could be validated natively: %s" % (j.label(), r["wit_bad"][:2]))
    for need in j.reach:
        if need not in r["reached"] and not r["violations"] and not r["unsupported"]:
            errors.append("%s: vacuous: '%s' never reached" % (j.label(), need))


def _check(prop, tier, seed, spec, jobs, work, t0, keep):
    limit = 620 if tier == "quick" else 3000
    work.ir("stubs.cpp", False, ())
    for j in jobs:
        work.ir(j.src, j.omp, j.defs)
    for j in jobs:
        work.native(j.src, j.omp, j.defs, "asan")
    results = []
    known = load_known()
    viol, errors, findings = [], [], []
    rdir = os.path.join(VERIF, "replays", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    skipped = 0
    with cf.ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(run_job, work, j, seed, t0 + limit) for j in
                sorted(jobs, key=lambda j: -j.weight)]
        for f in cf.as_completed(futs):
            r = f.result()
            if r is None:
                skipped += 1
                continue
            results.append(r)
            judge(work, prop, r, known, viol, errors, findings, rdir)
            if viol:
                work.stop.set()
    results.sort(key=lambda r: r["job"].label())
    ok = [r for r in results if "completed" in r]
    tot = lambda k: sum(r[k] for r in ok)
    funcs = sorted(set(f for r in ok for f in r["functions"]))
    cov = {
        "states": tot("paths") + tot("forks"),
        "transitions": tot("instructions"),
        "traces_validated_against_impl": tot("validated"),
        "samples": [{"harness": r["job"].label(), "inputs": dict((n, v) for n, v in w["inputs"][:40]), "observed": w["obs"][:12]}
                    for r in ok for w in r["witnesses"][:1]][:8],
        "meaning": "states: symbolic execution states (paths started plus forks); transitions: LLVM IR instructions executed "
                   "symbolically; traces: path witnesses re-run on the natively compiled code with equal observations",
        "paths_completed": tot("completed"), "paths_infeasible": tot("infeasible"),
        "assertions_checked": tot("asserts"), "assertions_proved": tot("asserts_proved"),
        "assertions_trivially_true": tot("asserts_trivial"), "memory_accesses_checked": tot("mem_checks"),
        "solver_queries": tot("queries"), "queries_unsat": tot("q_unsat"), "queries_sat": tot("q_sat"),
        "queries_unknown": tot("q_unknown"), "query_cache_hits": tot("cache_hits"),
        "solver_s": round(tot("solver_s"), 3),
        "witnesses_not_comparable": sum(len(r["wit_bad"]) for r in ok),
        "functions_encoded": funcs,
        "harnesses": [{"harness": r["job"].label(), "fp": r["job"].fp, "paths": r["completed"], "asserts": r["asserts"],
                       "proved": r["asserts_proved"], "queries": r["queries"], "solver_s": round(r["solver_s"], 2),
                       "wall_s": round(r["wall_s"], 2), "bound": r["job"].bound} for r in ok],
        "bounds": spec.bounds,
        "exhaustive": False,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": spec.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if skipped:
        print("(%d harness runs skipped after the violation)" % skipped)
    print("%s [%s]: %d harness runs, %d paths, %d assertions (%d proved), %d queries, solver %.1f s, %d witnesses validated, %.1f s"
          % (prop, tier, len(results), cov["paths_completed"], cov["assertions_checked"], cov["assertions_proved"],
             cov["solver_queries"], cov["solver_s"], cov["traces_validated_against_impl"], time.time() - t0))
    for r in ok:
        for (i, why) in r["wit_bad"]:
            print("note: witness of %s not comparable: %s" % (r["job"].label(), why[:300].replace("\n", " ")))
    for k, v in {(k, v["msg"]): None for k, v in findings}:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[4]))
    for (j, v, path, text) in viol:
        print("violated in %s: %s: %s" % (j.label(), v["kind"], v["msg"]))
        print("   at %s" % v["stack"][:500])
        print("   inputs %s" % ", ".join("%s=%s" % tuple(x) for x in v["inputs"][:30]))
        print("   native replay: %s" % text[-400:].strip().replace("\n", "\n     "))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if viol:
        for e in errors:
            print("note:", e[:1500])
        return 1
    if errors:
        for e in errors:
            print("ERROR:", e[:3000])
        return 2
    return 0


def replay(path):
    ensure_engine()
    ident, inputs = None, []
    for line in open(path):
        if line.startswith("# job "):
            ident = json.loads(line[6:])
        print(line.rstrip())
    job = registry.Job(**ident)
    work = Work()
    try:
        exe, err = work.native(job.src, job.omp, job.defs, "asan").result()
        if not exe:
            print(err)
            return 2
        rc, out = native_run(exe, job, path)
        print(out)
        print("native exit:", rc)
        return 0 if rc == 0 else 1
    finally:
        work.close()


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        ensure_engine()
        sys.exit(0)
    if a.replay:
        sys.exit(replay(a.replay))
    sys.exit(check(a.property, a.tier, int(os.environ.get("VERIF_SEED", "1")), a.only, a.keep))
