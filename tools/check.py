#!/usr/bin/env python3
"""Rebuilds /repo with monitors, runs the workloads of one property, judges them and writes the evidence.
usage: check.py C01            (tier from VERIF_TIER or --tier, seed from VERIF_SEED)
       check.py --setup        build all flavours and harnesses once
       check.py C01 --replay F re-run the case recorded in a replay file
"""
import sys, os, re, json, subprocess, time, hashlib, fcntl, shutil, signal, tempfile, resource
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("IOX_REPO", "/repo")
EVIDENCE = os.environ.get("IOX_VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
BUILD = os.environ.get("IOX_VERIF_BUILD_DIR", os.path.join(VERIF, ".build"))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import specs  # noqa: E402

NCPU = min(8, os.cpu_count() or 8)
HOOK = "-DIOX_VERIF_HOOKS -I%s/harness/hooks" % VERIF
FLAVOURS = {
    "asan": {"c": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all " + HOOK,
             "l": "-fsanitize=address,undefined"},
    "tsan": {"c": "-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread " + HOOK, "l": "-fsanitize=thread"},
    "plain": {"c": "-O1 -g1 -fno-omit-frame-pointer " + HOOK, "l": ""},
}
WRAPS = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "sem_wait", "sem_trywait",
         "sem_timedwait", "sem_post", "sched_yield", "nanosleep", "pthread_create", "pthread_join",
         "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", "_ZNSt6thread4joinEv"]
LIBS = ["iceoryx_binding_c/libiceoryx_binding_c.a", "posh/roudi_env/libiceoryx_posh_roudi_env.a",
        "posh/libiceoryx_posh_config.a", "posh/libiceoryx_posh_roudi.a", "posh/libiceoryx_posh_gateway.a",
        "posh/libiceoryx_posh.a", "hoofs/libiceoryx_hoofs.a", "platform/libiceoryx_platform.a"]
TARGETS = ["iceoryx_platform", "iceoryx_hoofs", "iceoryx_posh", "iceoryx_posh_gateway", "iceoryx_posh_roudi",
           "iceoryx_posh_config", "iceoryx_posh_roudi_env", "iceoryx_binding_c", "iox-roudi"]
SRCDIRS = ["iceoryx_platform", "iceoryx_hoofs", "iceoryx_posh", "iceoryx_binding_c", "iceoryx_meta"]


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def env_ccache():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_MAXSIZE"] = "3G"
    e["CCACHE_BASEDIR"] = ""
    e["GIT_DIR"] = "/nonexistent"
    e["CCACHE_COMPILERCHECK"] = "content"
    e.pop("CCACHE_DISABLE", None)
    return e


def tree_hashes():
    """content hash of every source file of /repo that can enter our builds"""
    h = {}
    for d in SRCDIRS + ["cmake", "VERSION"]:
        top = os.path.join(REPO, d)
        if os.path.isfile(top):
            h[d] = hashlib.sha1(open(top, "rb").read()).hexdigest()
            continue
        for r, ds, fs in os.walk(top):
            ds[:] = [x for x in ds if x not in ("test", "_build", ".git", "doc")]
            for f in fs:
                p = os.path.join(r, f)
                try:
                    h[os.path.relpath(p, REPO)] = hashlib.sha1(open(p, "rb").read()).hexdigest()
                except OSError:
                    pass
    return h


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build_libs(fl):
    bdir = os.path.join(BUILD, fl)
    man = os.path.join(bdir, "verif_manifest.json")
    key = {"tree": tree_hashes(), "flags": FLAVOURS[fl],
           "hook": hashlib.sha1(open(VERIF + "/harness/hooks/iox_verif_atomic.hpp", "rb").read()).hexdigest()}
    old = None
    try:
        old = json.load(open(man))
    except Exception:
        pass
    if old == key and all(os.path.exists(os.path.join(bdir, l)) for l in LIBS):
        return bdir
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    e = env_ccache()
    c = FLAVOURS[fl]
    t = time.time()
    r = run(["cmake", "-S", REPO + "/iceoryx_meta", "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
             "-DCMAKE_C_COMPILER=clang", "-DCMAKE_CXX_COMPILER=clang++",
             "-DCMAKE_C_COMPILER_LAUNCHER=ccache", "-DCMAKE_CXX_COMPILER_LAUNCHER=ccache",
             "-DCMAKE_CXX_FLAGS=" + c["c"], "-DCMAKE_C_FLAGS=" + c["c"], "-DCMAKE_EXE_LINKER_FLAGS=" + c["l"],
             "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DBUILD_SHARED_LIBS=OFF", "-DBUILD_TEST=OFF", "-DEXAMPLES=OFF",
             "-DINTROSPECTION=OFF", "-DBINDING_C=ON", "-DROUDI_ENVIRONMENT=ON", "-DDOWNLOAD_TOML_LIB=OFF",
             "-DTOML_CONFIG=ON", "-DBUILD_STRICT=OFF", "-DCCACHE=OFF"], env=e, cwd=BUILD)
    if r.returncode != 0:
        raise HarnessError("cmake failed:\n" + r.stdout[-3000:])
    r = run(["ninja", "-C", bdir, "-j%d" % NCPU] + TARGETS, env=e)
    if r.returncode != 0:
        raise HarnessError("build of /repo (%s) failed:\n%s" % (fl, r.stdout[-6000:]))
    json.dump(key, open(man, "w"))
    log("built %s libraries in %.1f s" % (fl, time.time() - t))
    return bdir


def includes(bdir):
    inc = []
    for d in ["iceoryx_posh/include", "iceoryx_posh/experimental/include", "iceoryx_binding_c/include",
              "iceoryx_posh/roudi_env/include", "iceoryx_posh/testing/include"]:
        inc += ["-I", os.path.join(REPO, d)]
    hoofs = os.path.join(REPO, "iceoryx_hoofs")
    for r, ds, fs in os.walk(hoofs):
        if "/test" in r or "/testing" in r:
            continue
        if os.path.basename(r) == "include":
            inc += ["-I", r]
            ds[:] = []
    inc += ["-I", hoofs + "/testing/include"]
    inc += ["-I", REPO + "/iceoryx_platform/linux/include", "-I", REPO + "/iceoryx_platform/generic/include"]
    for g in ["platform/generated", "hoofs/generated", "posh/generated", "generated", "platform", "hoofs", "posh"]:
        for sub in ["include", ""]:
            p = os.path.join(bdir, g, sub)
            if os.path.isdir(p):
                inc += ["-I", p]
    for r, ds, fs in os.walk(bdir):
        if os.path.basename(r) in ("include",) and "CMakeFiles" not in r:
            inc += ["-I", r]
            ds[:] = []
    return inc


def build_harness(fl, bdir, name, srcs=None, wraps=True, extra=()):
    out = os.path.join(BUILD, "bin-" + fl)
    os.makedirs(out, exist_ok=True)
    e = env_ccache()
    objs = []
    srcs = list(srcs or [name + ".cpp"]) + ["sched.cpp"]
    c = FLAVOURS[fl]
    for s in srcs:
        o = os.path.join(out, "%s__%s.o" % (name, s.replace("/", "_")))
        cmd = ["ccache", "clang++", "-std=c++17"] + c["c"].split() + list(extra) + ["-Wno-deprecated-declarations",
               "-I", VERIF + "/harness"] + includes(bdir) + ["-c", os.path.join(VERIF, "harness", s), "-o", o]
        r = run(cmd, env=e)
        if r.returncode != 0:
            raise HarnessError("harness %s does not compile:\n%s" % (s, r.stdout[-6000:]))
        objs.append(o)
    exe = os.path.join(out, name)
    cmd = ["clang++"] + c["l"].split() + objs + ["-o", exe, "-Wl,--start-group"] + \
        [os.path.join(bdir, l) for l in LIBS] + ["-Wl,--end-group", "-lacl", "-lrt", "-lpthread", "-latomic"]
    if wraps:
        cmd += ["-Wl,--wrap=" + w for w in WRAPS]
    r = run(cmd, env=e)
    if r.returncode != 0:
        raise HarnessError("harness %s does not link:\n%s" % (name, r.stdout[-6000:]))
    return exe


SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=%d:handle_abort=0:detect_stack_use_after_return=0:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:history_size=4:second_deadlock_stack=1:suppressions=%s/tools/tsan.supp" % VERIF,
}


def crash_key(text, rc):
    """stable key and message out of the output of a process that died"""
    m = re.search(r"SUMMARY: (\w+): (\S+)(?: \S+)?(?: in (.*))?", text)
    ub = re.search(r"^(.*?): runtime error: (.*)$", text, re.M)
    if ub:
        f = re.sub(r":\d+:\d+$", "", ub.group(1)).split("/")[-1]
        return "ubsan:%s" % f, ub.group(0)[:400]
    if m and m.group(1) == "AddressSanitizer":
        return "asan:%s" % m.group(2), m.group(0)[:400] + " " + " <- ".join(re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", text)[:6])
    if m:
        return "san:%s:%s" % (m.group(1), m.group(2)), "rc %d " % rc + m.group(0)[:400]
    pan = re.findall(r"(?:Panic|Condition|Invoked|ICEORYX error|terminate called|error\b.*occur).*", text)
    sig = ""
    if rc < 0:
        try:
            sig = signal.Signals(-rc).name
        except ValueError:
            sig = str(rc)
    return "died:%s" % (sig or "exit%d" % rc), (" | ".join(pan[-3:]) or text[-400:].replace("\n", " | "))


def tsan_reports(text):
    """list of (key, report) of all ThreadSanitizer reports, keyed by the pair of top repo frames"""
    res = []
    for blk in re.split(r"(?m)^==================\n", text):
        if "WARNING: ThreadSanitizer" not in blk:
            continue
        kind = re.search(r"ThreadSanitizer: (.*?) \(", blk)
        kind = kind.group(1) if kind else "?"
        tops = []
        for part in re.split(r"\n\s*\n", blk):
            if not re.search(r"(?i)(write|read|atomic|mutex).* (of size|by|acquired)", part.split("\n")[0] + (part.split("\n")[1] if "\n" in part else "") + (part.split("\n")[2] if part.count("\n") > 1 else "")):
                continue
            fr = re.findall(r"#\d+ (.*?) (/\S+?):\d+", part)
            top = None
            for fn, fi in fr:
                if "/repo/" in fi or REPO in fi:
                    top = re.sub(r"<.*>", "<>", fn.split("(")[0])
                    break
            tops.append(top or (fr[0][0].split("(")[0] if fr else "?"))
        res.append(("tsan:%s:%s" % (kind.replace(" ", "_"), "|".join(sorted(set(tops[:2])))), blk[:6000]))
    return res


def limit_child(pin):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if pin is not None:
            try:
                cpus = sorted(os.sched_getaffinity(0))
                os.sched_setaffinity(0, {cpus[pin % len(cpus)]})
            except OSError:
                pass
    return f


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


class Shard:
    def __init__(self, job, exe, shard, nshards, seed, tier, cases, scratch, only=None):
        self.job, self.exe, self.shard = job, exe, shard
        self.tag = "%s-%s-%d" % (job["harness"], job.get("mode", "x") or "x", shard)
        self.out = os.path.join(scratch, self.tag + ".json")
        self.cur = os.path.join(scratch, self.tag + ".cur")
        self.logf = os.path.join(scratch, self.tag + ".log")
        self.scr = os.path.join(scratch, self.tag + ".d")
        self.args = [exe, "--seed", str(seed), "--shard", str(shard), "--nshards", str(nshards), "--cases", str(cases),
                     "--mode", job.get("mode", ""), "--out", self.out, "--cur", self.cur, "--scratch", self.scr,
                     "--tier", tier, "--budget", str(job.get("budget", {}).get(tier, 40 if tier == "quick" else 900))]
        if only is not None:
            self.args += ["--only", str(only)]

    def go(self):
        job = self.job
        e = dict(os.environ)
        for k, v in SAN_ENV.items():
            e[k] = (v % (1 if job.get("leaks") else 0)) if k == "ASAN_OPTIONS" else v
        if job.get("flavour") == "tsan":
            e.pop("UBSAN_OPTIONS", None)   # its exit code would be taken by the thread sanitizer, too
        e.update(job.get("env", {}))
        e["ASAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""
        e["TSAN_OPTIONS"] += ":external_symbolizer_path=" + e["ASAN_SYMBOLIZER_PATH"]
        e["IOX_VERIF_BUILD"] = BUILD
        for f in (self.out, self.cur):
            if os.path.exists(f):
                os.unlink(f)
        os.makedirs(self.scr, exist_ok=True)
        to = job.get("timeout", 220)
        if e.get("VERIF_TIER") == "thorough" or "thorough" in self.args:
            to = job.get("timeout_thorough", 1800)
        self.timeout = False
        with open(self.logf, "wb") as lf:
            p = subprocess.Popen(self.args, stdout=lf, stderr=subprocess.STDOUT, env=e, cwd=self.scr, stdin=subprocess.DEVNULL,
                                 preexec_fn=limit_child(self.shard if job.get("pin", True) else None))
            try:
                p.wait(timeout=to)
            except subprocess.TimeoutExpired:
                self.timeout = True
            kill_group(p)
            p.wait()
        self.rc = p.returncode
        self.text = open(self.logf, "rb").read().decode("utf-8", "replace")
        self.res = None
        try:
            self.res = json.load(open(self.out))
        except Exception:
            pass
        try:
            self.case = int.from_bytes(open(self.cur, "rb").read(8), "little")
        except Exception:
            self.case = None
        shutil.rmtree(self.scr, ignore_errors=True)
        return self


def known_findings(prop):
    try:
        d = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except FileNotFoundError:
        return []
    return [x for x in d.get("findings", []) if x["property"] == prop and x.get("status") == "known"]


def main():
    args = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    if args and args[0] == "--setup":
        with open(os.path.join(BUILD, "lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            need = set()
            for p in specs.SPECS.values():
                for j in p["jobs"]:
                    need.add((j.get("flavour", "asan"), j["harness"], j.get("wraps", True), tuple(j.get("extra", ())), tuple(j.get("srcs", ()))))
            dirs = {}
            for fl in sorted({n[0] for n in need}):
                dirs[fl] = build_libs(fl)
            with ThreadPoolExecutor(NCPU) as ex:
                for x in [ex.submit(build_harness, n[0], dirs[n[0]], n[1], n[4] or None, n[2], n[3]) for n in sorted(need)]:
                    x.result()
        log("setup complete")
        return 0

    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--replay" in args:
        replay = json.load(open(args[args.index("--replay") + 1]))
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = specs.SPECS[prop]
    t0 = time.time()
    exes = {}
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        dirs = {}
        for j in spec["jobs"]:
            fl = j.get("flavour", "asan")
            if fl not in dirs:
                dirs[fl] = build_libs(fl)
        todo = {}
        for j in spec["jobs"]:
            todo[(j.get("flavour", "asan"), j["harness"])] = j
        with ThreadPoolExecutor(NCPU) as ex:
            fut = {k: ex.submit(build_harness, k[0], dirs[k[0]], k[1], j.get("srcs"), j.get("wraps", True), j.get("extra", ())) for k, j in todo.items()}
            for k, f in fut.items():
                exes[k] = f.result()
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
    replays = os.path.join(EVIDENCE, "replay")
    os.makedirs(replays, exist_ok=True)
    violations = []   # (key, msg, replaydict)
    stats = []
    inconclusive = []
    errors = []
    hung = False
    try:
        for j in spec["jobs"]:
            if hung:
                break
            if replay and (replay["harness"], replay["mode"]) != (j["harness"], j.get("mode", "")):
                continue
            n = j.get("shards", NCPU)
            cases = j["cases"][tier]
            exe = exes[(j.get("flavour", "asan"), j["harness"])]
            if replay:
                sh = [Shard(j, exe, replay["shard"], replay["nshards"], replay["seed"], replay["tier"], replay["cases"], scratch, replay["case"])]
            else:
                sh = [Shard(j, exe, i, n, seed, tier, cases, scratch) for i in range(n)]
            with ThreadPoolExecutor(min(n, j.get("parallel", NCPU))) as ex:
                sh = list(ex.map(lambda s: s.go(), sh))
            # watchdog: once more before it is called a hang
            late = [s for s in sh if s.timeout]
            definite = [s for s in sh if not s.timeout and s.res and "violation" in s.res]
            if late and not definite:
                log("watchdog: %s rerun" % late[0].tag)
                late[0].go()
                if late[0].timeout:   # a hang, confirmed; the others need not be tried
                    hung = True
                elif len(late) > 1:
                    with ThreadPoolExecutor(min(n, j.get("parallel", NCPU))) as ex:
                        list(ex.map(lambda s: s.go(), late[1:]))
            elif late:                # decided by the other shards
                sh = [s for s in sh if not s.timeout]
            jstat = {"harness": j["harness"], "mode": j.get("mode", ""), "evaluations": 0, "distinct": 0, "counters": {}, "samples": []}
            for s in sh:
                def rep(key, msg):
                    return (key, msg, {"property": prop, "harness": j["harness"], "mode": j.get("mode", ""), "seed": seed if not replay else replay["seed"],
                                       "shard": s.shard, "nshards": n, "tier": tier, "cases": cases, "case": s.case, "key": key,
                                       "message": msg, "cmd": s.args, "log": s.text[-6000:]})
                r = s.res
                if r:
                    jstat["evaluations"] += r["evaluations"]
                    jstat["distinct"] += r["distinct"]
                    for k, v in r["counters"].items():
                        jstat["counters"][k] = max(jstat["counters"].get(k, 0), v) if k.startswith("max_") else jstat["counters"].get(k, 0) + v
                    if len(jstat["samples"]) < 3:
                        jstat["samples"] += r["samples"][:3 - len(jstat["samples"])]
                    jstat["rule"] = r["rule"]
                    for k, m in r.get("findings", {}).items():
                        violations.append(rep(j["harness"] + ":" + k, m))
                if s.timeout:
                    violations.append(rep(j["harness"] + ":hang", "watchdog fired twice at case %s" % s.case))
                elif r and "violation" in r:
                    violations.append(rep(j["harness"] + ":" + r["violation"], r["message"]))
                elif s.rc == 2 or s.rc == 97:
                    errors.append("%s: harness error: %s" % (s.tag, s.text[-2000:]))
                elif s.rc == 75:   # inconclusive, said by the harness itself
                    inconclusive.append(s.tag + ": " + s.text[-300:])
                elif s.rc != 0 or not r or not r.get("complete"):
                    k, m = crash_key(s.text, s.rc)
                    violations.append(rep(j["harness"] + ":" + k, m))
                if j.get("flavour") == "tsan":
                    for k, m in tsan_reports(s.text):
                        violations.append(rep(j["harness"] + ":" + k, m))
            stats.append((j, jstat))
        # verdict
        known = known_findings(prop)
        fresh, seen_known = [], {}
        for v in violations:
            for k in known:
                if re.fullmatch(k["key"], v[0]) and re.search(k.get("match", ""), v[1]):
                    seen_known[k["what"]] = v
                    break
            else:
                fresh.append(v)
        wall = time.time() - t0
        cov = {"evaluations": sum(s["evaluations"] for _, s in stats), "distinct_nontrivial": sum(s["distinct"] for _, s in stats),
               "rule": " || ".join(s.get("rule", "") for _, s in stats)[:3000],
               "samples": [{"harness": s["harness"], "mode": s["mode"], "case": x} for _, s in stats for x in s["samples"]][:8],
               "jobs": [{"harness": s["harness"], "mode": s["mode"], "flavour": j.get("flavour", "asan"), "evaluations": s["evaluations"],
                         "distinct": s["distinct"], "observed": s["counters"]} for j, s in stats],
               "build_s": round(tb, 1)}
        if inconclusive:
            cov["inconclusive"] = inconclusive[:5]
        ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov,
              "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 1), "violations": len(fresh)}
        if not replay:
            with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        for w, v in seen_known.items():
            log("KNOWN-FINDING: property=%s %s" % (prop, w))
        if fresh:
            done = set()
            for key, msg, rd in fresh:
                if key in done:
                    continue
                done.add(key)
                if len(done) > 8:
                    break
                path = os.path.join(replays, "%s-%s.json" % (prop, hashlib.sha1(key.encode()).hexdigest()[:10]))
                with open(path, "w") as f:
                    json.dump(rd, f, indent=1)
                log("VIOLATION property=%s replay=%s" % (prop, path))
                log("  %s: %s" % (key, msg[:900]))
            return 1
        if errors:
            raise HarnessError(errors[0])
        if not replay:
            # a run that saw nothing is an error, not a pass
            for j, s in stats:
                for k, v in j.get("require", {}).items():
                    if s["counters"].get(k, 0) < v:
                        raise HarnessError("%s %s observed too little: %s=%d < %d (%s)" % (s["harness"], s["mode"], k, s["counters"].get(k, 0), v, inconclusive[:2]))
                if s["evaluations"] == 0:
                    raise HarnessError("%s evaluated nothing" % s["harness"])
        log("%s held on %d executions (%d distinct), %.1f s (%.1f s build)" % (prop, cov["evaluations"], cov["distinct_nontrivial"], wall, tb))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as x:
        log("CHECK-ERROR: %s" % x)
        sys.exit(3)
