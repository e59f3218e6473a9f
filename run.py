#!/usr/bin/env python3
"""Runs the check of one property: builds its harnesses from /repo's working tree, runs them under their monitors,
writes evidence/<id>.json and gives the verdict.  usage: run.py ID [quick|thorough] [--case N]"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
sys.path.insert(0, os.path.join(VERIF, "checks"))
sys.path.insert(0, VERIF)
START = time.time()
STALL = 60        # seconds without progress on one case before it is examined alone
ALONE = 120        # seconds given to such a case run alone
TOTAL = 840        # nothing runs longer than this (quick)
LINGER = float(os.environ.get("VERIF_LINGER", 30))  # seconds of searching for more after the first violation
SCALE = float(os.environ.get("VERIF_SCALE", 1))     # for experiments: fraction of cases to run, minima of counters are then not required
CORES = min(8, os.cpu_count() or 8)

FLAGS = {
    "asan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize=alignment,vptr,null -fno-sanitize-recover=all",
    "tsan": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread",
    "plain": "-O1 -g1",
    "O0": "-O0", "O1": "-O1", "O2": "-O2", "O3": "-O3",
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=0:max_allocation_size_mb=2000:symbolize=1:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4",
}

class CheckError(Exception):
    pass

def repo_hash():
    h = hashlib.sha256()
    for d in ("", "tls", "public_html"):
        p = os.path.join(REPO, d)
        for n in sorted(os.listdir(p)) if os.path.isdir(p) else []:
            if n.endswith((".hpp", ".js", ".h")):
                h.update(n.encode())
                h.update(open(os.path.join(p, n), "rb").read())
    for d in ("lib", "checks", "tools"):
        p = os.path.join(VERIF, d)
        for n in sorted(os.listdir(p)):
            if n.endswith((".hpp", ".h")):
                h.update(open(os.path.join(p, n), "rb").read())
    return h.hexdigest()

class Job:
    """One program and how many cases of it to run"""
    def __init__(self, src, san="asan", quick=1000, thorough=20000, gen=None, defs="", libs="", shards=CORES, name=None, flags=None,
                 compiler="g++", timeout=None, repeat_env=None, stall=None):
        self.src, self.san, self.cases, self.gen, self.defs, self.libs = src, san, {"quick": quick, "thorough": thorough}, gen, defs, libs
        self.shards, self.name, self.flags, self.compiler = shards, name or os.path.basename(src).split(".")[0], flags, compiler
        self.stall = stall or STALL

class Context:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.evaluations = 0
        self.hashes = set()
        self.counters = {}
        self.samples = []
        self.violations = []   # dicts: job, case, key, detail
        self.inconclusive = []
        self.lock = threading.Lock()
        self.first_violation = None
        self.work = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
        os.makedirs(self.work, exist_ok=True)

    def count(self, k, n=1):
        with self.lock:
            if k.startswith("max_"):
                self.counters[k] = max(self.counters.get(k, 0), n)
            else:
                self.counters[k] = self.counters.get(k, 0) + n

    def violation(self, job, case, key, detail):
        with self.lock:
            self.first_violation = self.first_violation or time.time()
            self.violations.append({"job": job, "case": case, "key": key, "detail": detail})

    def case(self, signature, nontrivial=True):
        with self.lock:
            self.evaluations += 1
            if nontrivial:
                self.hashes.add(hashlib.sha1(signature.encode() if isinstance(signature, str) else signature).hexdigest()[:16])

def build(job, ctx, base_hash):
    gen_text = ""
    if job.gen:
        gen_text = job.gen(ctx.seed, ctx.tier)
    src = os.path.join(VERIF, "checks", job.src)
    flags = job.flags or FLAGS[job.san]
    key = hashlib.sha256("\0".join([base_hash, open(src).read(), gen_text, flags, job.defs, job.libs, job.compiler]).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "bin", "%s-%s" % (job.name, key))
    if os.path.exists(exe):
        os.utime(exe)
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    defs = job.defs
    if gen_text:
        gen_file = exe + ".gen.hpp"
        with open(gen_file, "w") as f:
            f.write(gen_text)
        defs += " -DZOO_GENERATED='\"%s\"'" % gen_file
    tmp = exe + ".tmp%d" % os.getpid()
    cmd = "%s -std=c++20 -include cstdint -include algorithm %s -w -I%s/lib -I%s/checks -I%s %s %s -o %s -pthread %s" % (
        job.compiler, flags, VERIF, VERIF, REPO, defs, src, tmp, job.libs)
    r = subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, timeout=600)
    if r.returncode:
        raise CheckError("cannot build %s:\n%s\n%s" % (job.src, cmd, r.stderr[:4000]))
    os.rename(tmp, exe)
    return exe

def classify(returncode, err):
    m = re.search(r"SUMMARY: (\w+): ([^\n]*)", err)
    u = re.search(r"([\w.]+\.hpp|[\w.]+\.cpp|[\w.]+):(\d+):\d+: runtime error: ([^\n]*)", err)
    if u:
        return "undefined-behaviour: %s: %s" % (u.group(1), re.sub(r"0x[0-9a-f]+|\d{3,}", "N", u.group(3))[:100])
    if m:
        return "%s: %s" % (m.group(1), re.sub(r":\d+|0x[0-9a-f]+", "", m.group(2))[:160])
    if "terminate called" in err:
        return "terminate: " + " ".join(err[err.index("terminate called"):].split())[:160]
    if returncode < 0:
        return "signal %d" % -returncode
    return "exit status %d" % returncode

def application_at_fault(err):
    """The innermost meaningful frame is in our own files: what the library gave to the application was not usable"""
    if not ("runtime error" in err or "Sanitizer" in err):
        return False
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in .*? (/[^\s:]+):\d+", err)
    if any(f.startswith(REPO + "/") for f in frames):
        return False
    u = re.search(r"(/[^\s:]+):\d+:\d+: runtime error", err)
    if u:
        return u.group(1).startswith(VERIF)
    for f in frames:
        if f.startswith(VERIF):
            return True
    return False

def run_shard(job, exe, ctx, shard, only=None):
    n = max(min(job.cases[ctx.tier], job.shards), int(job.cases[ctx.tier] * SCALE))
    start, step = shard, job.shards
    if only is not None:
        start, n, step = only, only + 1, 1
    crashes = 0
    while start < n:
        tag = "%s-%d-%d" % (job.name, shard, start)
        out, prog, errf = (os.path.join(ctx.work, tag + x) for x in (".json", ".prog", ".err"))
        env = dict(os.environ, **ENV)
        env["VERIF_WORK"] = os.path.join(ctx.work, tag + ".d")
        env["VERIF_REPO"], env["VERIF_DIR"] = REPO, VERIF
        os.makedirs(env["VERIF_WORK"], exist_ok=True)
        with open(errf, "wb") as ef:
            p = subprocess.Popen([exe, str(ctx.seed), str(start), str(n), str(step), ctx.tier, out, prog], stdout=ef, stderr=ef,
                                 stdin=subprocess.DEVNULL, env=env, start_new_session=True)
            last, last_t, stalled, over, decided = None, time.time(), False, False, False
            while p.poll() is None:
                try:
                    p.wait(0.5)
                except subprocess.TimeoutExpired:
                    pass
                try:
                    cur = open(prog).read()
                except OSError:
                    cur = None
                now = time.time()
                if cur != last:
                    last, last_t = cur, now
                elif now - last_t > (ALONE if only is not None else job.stall):
                    stalled = True
                if ctx.tier == "quick" and now - START > TOTAL:
                    over = True
                if ctx.first_violation and now - ctx.first_violation > LINGER:
                    decided = True
                if stalled or over or decided:
                    if os.environ.get("VERIF_DEBUG_STALL"):
                        subprocess.run(["gdb", "-p", str(p.pid), "-batch", "-ex", "thread apply all bt 12"], stderr=subprocess.DEVNULL)
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
                    break
        shutil.rmtree(env["VERIF_WORK"], ignore_errors=True)
        if decided:
            return
        if over:
            with ctx.lock:
                ctx.inconclusive.append("time limit reached in %s" % job.name)
            return
        if p.returncode == 0 and os.path.exists(out):
            r = json.load(open(out))
            with ctx.lock:
                ctx.evaluations += r["evaluations"]
                ctx.hashes.update("%s/%d" % (job.name, x) for x in r["hashes"])
                for k, v in r["counters"].items():
                    if k.startswith("max_"):
                        ctx.counters[k] = max(ctx.counters.get(k, 0), v)
                    else:
                        ctx.counters[k] = ctx.counters.get(k, 0) + v
                if len(ctx.samples) < 6:
                    ctx.samples += [{"job": job.name, "case": s} for s in r["samples"][:1]]
            for v in r["violations"]:
                if v["key"].startswith("inconclusive"):
                    with ctx.lock:
                        ctx.inconclusive.append("%s case %d: %s" % (job.name, v["case"], v["detail"][:300]))
                    continue
                if v["key"].startswith("harness"):
                    raise CheckError("harness problem in %s case %s: %s" % (job.name, v["case"], v["detail"][:2000]))
                ctx.violation(job.name, v["case"], v["key"], v["detail"])
            return
        case = int((last or "").strip() or start)
        err = open(errf, errors="replace").read()
        if stalled:
            if only is not None:
                ctx.violation(job.name, case, "no-progress", "the case did not finish in %d s even when run alone\n%s" % (ALONE, err[-2000:]))
                return
            before = len(ctx.violations)
            run_shard(job, exe, ctx, shard, only=case)
            if len(ctx.violations) == before:
                with ctx.lock:
                    ctx.inconclusive.append("%s case %d stalled once, but not when run alone" % (job.name, case))
        else:
            if p.returncode == 3:
                raise CheckError("harness %s failed at case %d:\n%s" % (job.name, case, err[-4000:]))
            # The harness is only an application of the library, it doesn't fail by itself
            key = ("fault-in-application: " if application_at_fault(err) else "") + classify(p.returncode, err)
            if p.returncode == -9 and not err.strip():
                raise CheckError("%s was killed at case %d (memory?)" % (job.name, case))
            ctx.violation(job.name, case, key, err[-6000:])
        crashes += 1
        with ctx.lock:
            ctx.evaluations += max(0, (case - start) // step + 1)
        if only is not None or crashes > 5:
            return
        start = case + step

def known_findings():
    result = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=/(.*?)/ (.*)", line.strip())
            if m:
                result.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return result

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    only = int(sys.argv[sys.argv.index("--case") + 1]) if "--case" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import defs
    check = defs.CHECKS[pid]
    ctx = Context(pid, tier, seed)
    code = 2
    try:
        jobs = [j for j in check.get("jobs", [])]
        if tier == "thorough":
            jobs += check.get("thorough_jobs", [])
        base = repo_hash()
        with concurrent.futures.ThreadPoolExecutor(CORES) as pool:
            exes = list(pool.map(lambda j: build(j, ctx, base), jobs))
        build_s = time.time() - START
        for j, e in zip(jobs, exes):
            if "--job" in sys.argv and sys.argv[sys.argv.index("--job") + 1] != j.name:
                continue
            with concurrent.futures.ThreadPoolExecutor(max(1, j.shards)) as pool:
                if only is not None:
                    run_shard(j, e, ctx, 0, only=only)
                else:
                    list(pool.map(lambda s: run_shard(j, e, ctx, s), range(j.shards)))
            if len(ctx.violations) > 20 or ctx.first_violation and time.time() - ctx.first_violation > LINGER:
                break
        for f in check.get("python", []):
            if len(ctx.violations) <= 20:
                f(ctx)
        code = finish(ctx, check, build_s)
    except CheckError as e:
        print("ERROR: %s" % e)
        code = 2
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)
        prune()
    sys.stdout.flush()
    os._exit(code)

def prune():
    d = os.path.join(BUILD, "bin")
    try:
        files = sorted((os.path.join(d, n) for n in os.listdir(d)), key=os.path.getmtime)
        total = sum(os.path.getsize(f) for f in files)
        for f in files:
            if total < 4 << 30:
                break
            total -= os.path.getsize(f)
            os.remove(f)
    except OSError:
        pass

def finish(ctx, check, build_s):
    known = known_findings()
    fresh, old = [], {}
    for v in ctx.violations:
        for p, rx, text in known:
            if p == ctx.pid and rx.search(v["key"] + "\n" + v["detail"]):
                old[text] = old.get(text, 0) + 1
                break
        else:
            fresh.append(v)
    for need, least in check.get("require", {}).items():
        if not fresh and SCALE == 1 and ctx.counters.get(need, 0) < least:
            ctx.inconclusive.append("observed too little: %s = %d, expected at least %d" % (need, ctx.counters.get(need, 0), least))
    evidence = {
        "property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": "exploration",
        "coverage": {
            "evaluations": ctx.evaluations, "distinct_nontrivial": len(ctx.hashes), "rule": check["rule"],
            "samples": ctx.samples[:6] or [{"note": "no sample was taken"}],
            "observed": dict(sorted(ctx.counters.items())),
            "build_s": round(build_s, 1),
            "inconclusive": ctx.inconclusive[:20],
            "known_findings_seen": old,
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(time.time() - START, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for text, n in old.items():
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, text))
    for i in ctx.inconclusive[:10]:
        print("inconclusive: " + i)
    if fresh:
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        seen = {}
        for v in fresh:
            seen.setdefault(v["key"], v)
        for n, v in enumerate(list(seen.values())[:5]):
            path = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (ctx.pid, n))
            with open(path, "w") as f:
                json.dump(dict(v, property=ctx.pid, seed=ctx.seed, tier=ctx.tier,
                               command="VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s --job %s --case %s" % (ctx.seed, ctx.tier, ctx.pid, v["job"], v["case"])), f, indent=1)
            print("%s case %s: %s: %s" % (v["job"], v["case"], v["key"], v["detail"][:1500]))
            print("VIOLATION property=%s replay=%s" % (ctx.pid, path))
        return 1
    if ctx.evaluations == 0 or any(i.startswith(("time limit", "observed too little")) for i in ctx.inconclusive):
        print("no verdict")
        return 2
    print("%s held on %d executions (%d distinct), %.0f s" % (ctx.pid, ctx.evaluations, len(ctx.hashes), time.time() - START))
    return 0

main()
