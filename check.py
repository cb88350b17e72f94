#!/usr/bin/env python3
"""check.py <property> [--thorough]   runs the monitors of one property against /repo's working tree.

Builds /repo's sources (ninja, incremental, in /verif/build/<sanitizer>), runs the workload modules listed in plan.py in
worker processes, collects what the monitors observed and what they found, writes /verif/evidence/<property>.json.
Exit 0: held on everything explored (known findings are printed as KNOWN-FINDING lines). Exit 1: VIOLATION line.
Other exits: the check itself could not decide (build failure, watchdog, nothing observed)."""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import plan  # noqa: E402

REPO = os.environ.get("VMON_REPO", "/repo")
BUILD = os.environ.get("VMON_BUILD", os.path.join(HERE, "build"))
JOBS = int(os.environ.get("VMON_JOBS", str(min(8, os.cpu_count() or 8))))
SAN_OPTS = {
    "ASAN_OPTIONS": "exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:allocator_may_return_null=1:handle_abort=1:strict_init_order=1:max_allocation_size_mb=8000:hard_rss_limit_mb=3600",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:report_signal_unsafe=0:second_deadlock_stack=1:history_size=4",
    "LSAN_OPTIONS": "exitcode=0:print_suppressions=0",
    "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18",
    "TSAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18",
}


def log(*a):
    print(*a, flush=True)


def locales():
    """Compiles named locales with a decimal comma, used by the monitors to judge independence from the global locale."""
    d = os.path.join(BUILD, "locale")
    with open(os.path.join(BUILD, "locale.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for name in ("de_DE", "tr_TR"):
            dst = os.path.join(d, name + ".UTF-8")
            if not os.path.exists(os.path.join(dst, "LC_NUMERIC")):
                os.makedirs(d, exist_ok=True)
                try:
                    subprocess.run(["localedef", "-i", name, "-f", "UTF-8", dst], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                except OSError:
                    pass  # the monitors report that they ran without named locales
    return d


def build(san):
    d = os.path.join(BUILD, san)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(BUILD, san + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ)
        env.setdefault("CCACHE_DIR", os.path.join(BUILD, "ccache"))
        env["CCACHE_SLOPPINESS"] = "pch_defines,time_macros,include_file_mtime,include_file_ctime"
        env.pop("CXXFLAGS", None)
        t0 = time.time()
        src = os.path.join(HERE, "mon")
        out = ""
        if not os.path.exists(os.path.join(d, "build.ninja")):
            cmd = ["cmake", "-S", src, "-B", d, "-G", "Ninja", "-DCMAKE_CXX_COMPILER=/usr/bin/clang++-18", "-DSAN=" + san, "-DREPO=" + REPO, "-DCMAKE_BUILD_TYPE=None"]
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out += r.stdout
            if r.returncode != 0:
                log(r.stdout[-4000:])
                raise SystemExit(2)
        r = subprocess.run(["ninja", "-C", d, "-j", str(JOBS + 2)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            # a stale configuration can make ninja fail: configure once more from scratch
            shutil.rmtree(os.path.join(d, "CMakeFiles"), ignore_errors=True)
            for f in ("CMakeCache.txt", "build.ninja"):
                try:
                    os.unlink(os.path.join(d, f))
                except OSError:
                    pass
            cmd = ["cmake", "-S", src, "-B", d, "-G", "Ninja", "-DCMAKE_CXX_COMPILER=/usr/bin/clang++-18", "-DSAN=" + san, "-DREPO=" + REPO, "-DCMAKE_BUILD_TYPE=None"]
            subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            r = subprocess.run(["ninja", "-C", d, "-j", str(JOBS + 2)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                errs = [l for l in r.stdout.splitlines() if "error" in l]
                log("\n".join(errs[:20]) or r.stdout[-3000:])
                log("BUILD FAILED (%s)" % san)
                raise SystemExit(2)
        log("build %s: %.1f s" % (san, time.time() - t0))
    return d


FRAME = re.compile(r"^\s+#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):(\d+)", re.M)
FRAME2 = re.compile(r"^\s+#\d+ (?:0x[0-9a-f]+ in )?(\S.*?) \(", re.M)


def repo_frames(text):
    out = []
    for m in FRAME.finditer(text):
        fn, path = m.group(1), m.group(2)
        if path.startswith(REPO + "/") or "/repo/" in path:
            fn = re.sub(r"<.*>", "", re.sub(r"\(.*", "", fn))
            out.append(fn)
    return out


def crash_key(err, rc):
    """stable identification of a crash or sanitizer report, and the text of the report"""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    kind = None
    if m:
        kind = "asan:" + m.group(1)
    else:
        m = re.search(r"runtime error: (.*)", err)
        if m:
            kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))[:80]
        elif "WARNING: ThreadSanitizer" in err:
            m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]+)", err)
            kind = "tsan:" + m.group(1).strip().replace(" ", "-")
        elif "Assertion" in err and "failed" in err:
            m = re.search(r"Assertion [`'](.*?)' failed", err)
            kind = "assert:" + (m.group(1)[:80] if m else "?")
        elif "terminate called" in err:
            kind = "terminate"
        elif rc == -signal.SIGALRM:
            kind = "timeout"
        else:
            kind = "exit:%d" % rc
    fr = repo_frames(err)
    return kind + (":" + fr[0] if fr else ""), err


def tsan_reports(err):
    """key per race report: the pair of innermost repository frames"""
    res = []
    for blk in re.split(r"={18,}", err):
        m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]+)", blk)
        if not m:
            continue
        parts = re.split(r"\n\s*Previous |\n\s*As if synchronized|\n\s*Location is|\n\s*Thread T", blk)
        a = repo_frames(parts[0])[:1]
        b = repo_frames(parts[1])[:1] if len(parts) > 1 else []
        names = sorted(set(a + b)) or ["?"]
        if names == ["?"] :
            # races entirely inside uninstrumented libraries are not reports about the repository
            if "viidm" not in blk:
                continue
        res.append(("tsan:" + m.group(1).strip().replace(" ", "-") + ":" + "+".join(names), blk[:6000]))
    return res


def valgrind_reports(err):
    """key per memcheck error whose stack crosses the repository"""
    res = []
    for blk in re.split(r"\n==\d+== \n", "\n" + err):
        m = re.search(r"==\d+== ((?:Conditional jump|Use of uninit|Invalid (?:read|write|free)|Mismatched free|Syscall param|Source and destination overlap|Jump to the invalid)[^\n]*)", blk)
        if not m:
            continue
        names = []
        for f in re.finditer(r"==\d+==\s+(?:at|by) 0x[0-9A-F]+: (.+?) \((?:in )?([^)]*)\)$", blk, re.M):
            if "libviidm" in f.group(2) or re.match(r"[A-Z][A-Za-z0-9]*\.(?:cpp|hpp|hxx):\d+$", f.group(2)):
                names.append(re.sub(r"<.*>", "", re.sub(r"\(.*", "", f.group(1))))
        if not names:
            continue
        res.append(("memcheck:" + re.sub(r"\d+", "N", m.group(1)).strip().replace(" ", "-")[:60] + ":" + names[0], blk[:4000]))
    return res


class Runner:
    def __init__(self, prop, tier, seed, workdir):
        self.prop, self.tier, self.seed, self.workdir = prop, tier, seed, workdir
        self.locpath = locales()
        self.lock = threading.Lock()
        self.counts, self.distinct, self.samples = {}, {}, {}
        self.viol = []           # dicts: key, detail, module, case, ops, san
        self.inconclusive = []
        self.crashes = 0
        self.runs = []

    def merge(self, rec):
        with self.lock:
            for k, v in rec["counts"].items():
                self.counts[k] = self.counts.get(k, 0) + v
            for k, v in rec["distinct"].items():
                self.distinct.setdefault(k, set()).update(v)
            for k, v in rec["samples"].items():
                s = self.samples.setdefault(k, [])
                s.extend(v[: max(0, 12 - len(s))])

    def worker_cmd(self, exe, spec, frm, to, out):
        cmd = ["valgrind", "-q", "--num-callers=24", "--error-limit=no"] if spec.get("wrap") == "valgrind" else []
        cmd += [exe, spec["module"], "--seed", str(self.seed), "--from", str(frm), "--to", str(to), "--out", out]
        if self.tier == "thorough":
            cmd.append("--thorough")
        for k, v in spec.get("set", {}).items():
            cmd += ["--set", "%s=%s" % (k, v)]
        return cmd

    def run_range(self, exe, spec, frm, to, deadline):
        """one worker over [frm,to), resuming after cases that kill the process"""
        retried = set()
        while frm < to and self.crashes < 40:
            if time.time() > deadline:
                with self.lock:
                    self.inconclusive.append("%s: stopped at case %d, time budget used" % (spec["module"], frm))
                return
            fd, out = tempfile.mkstemp(dir=self.workdir, suffix=".jsonl")
            os.close(fd)
            err = out + ".err"
            env = dict(os.environ)
            env.update(SAN_OPTS)
            for k, v in spec.get("env", {}).items():
                env[k] = env.get(k, "") + (":" if k.endswith("_OPTIONS") else "") + v if k.endswith("_OPTIONS") else v
            env["TMPDIR"] = self.workdir
            env["LOCPATH"] = self.locpath
            with open(err, "wb") as ef:
                p = subprocess.Popen(self.worker_cmd(exe, spec, frm, to, out), stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=self.workdir)
                hung = False
                try:
                    p.wait(timeout=max(10, deadline - time.time() + 60))
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    hung = True
            rc = p.returncode
            last, done = None, False
            with open(out, errors="replace") as f:
                for line in f:
                    try:
                        rec = json.loads(line)
                    except ValueError:
                        continue
                    if rec["t"] == "begin":
                        last = rec["case"]
                    elif rec["t"] == "violation":
                        with self.lock:
                            self.viol.append({"key": rec["key"], "detail": rec["detail"], "case": rec["case"], "module": spec["module"], "ops": rec["ops"], "san": spec.get("san", "asan"), "spec": spec})
                    elif rec["t"] == "end":
                        done = True
                        self.merge(rec)
            with open(err, errors="replace") as f:
                e = f.read(400000)
            if "ThreadSanitizer" in e:
                for key, txt in tsan_reports(e):
                    with self.lock:
                        self.viol.append({"key": key, "detail": txt, "case": last, "module": spec["module"], "ops": [], "san": "tsan", "spec": spec, "range": [frm, to]})
            if spec.get("wrap") == "valgrind":
                for key, txt in valgrind_reports(e):
                    with self.lock:
                        self.viol.append({"key": key, "detail": txt, "case": last, "module": spec["module"], "ops": [], "san": "memcheck", "spec": spec, "range": [frm, to]})
            os.unlink(out)
            os.unlink(err)
            if done and rc in (0, 1, 66):
                return
            if hung:
                with self.lock:
                    self.inconclusive.append("%s: worker killed by the outer watchdog near case %s" % (spec["module"], last))
                return
            if last is None:
                with self.lock:
                    self.inconclusive.append("%s: worker did not start (rc %s): %s" % (spec["module"], rc, e[-500:]))
                return
            if rc == -signal.SIGKILL:
                with self.lock:
                    self.inconclusive.append("%s: worker killed from outside near case %d" % (spec["module"], last))
            elif rc == -signal.SIGALRM and last not in retried:
                # slow machine or endless loop: once more, alone
                retried.add(last)
                frm = last
                continue
            else:
                key, txt = crash_key(e, rc)
                if not (key.startswith("tsan:") or rc == 66):
                    with self.lock:
                        self.crashes += 1
                        self.viol.append({"key": key, "detail": txt[-6000:] if "ERROR:" not in txt else txt[txt.find("ERROR:"):][:6000], "case": last, "module": spec["module"], "ops": [], "san": spec.get("san", "asan"), "spec": spec})
            frm = last + 1

    def run(self, exe, spec, n, deadline):
        t0 = time.time()
        chunks = max(JOBS, min(n, spec.get("chunks", JOBS * 4)))
        jobs = int(spec.get("jobs", JOBS))
        bounds = sorted(set(n * i // chunks for i in range(chunks + 1)))
        todo = list(zip(bounds, bounds[1:]))
        ptr = [0]

        def loop():
            while True:
                with self.lock:
                    if ptr[0] >= len(todo):
                        return
                    a, b = todo[ptr[0]]
                    ptr[0] += 1
                self.run_range(exe, spec, a, b, deadline)

        ths = [threading.Thread(target=loop) for _ in range(jobs)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        self.runs.append({"module": spec["module"], "sanitizer": spec.get("san", "asan"), "cases": n, "wall_s": round(time.time() - t0, 1)})


def load_findings():
    known = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                if m:
                    known.append((m.group(1), m.group(2), m.group(3)))
    return known


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    prop = args[0]
    tier = "thorough" if "--thorough" in args else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if "--seed" in args:
        seed = int(args[args.index("--seed") + 1])
    only = args[args.index("--only") + 1] if "--only" in args else None
    scale = float(os.environ.get("VMON_SCALE", "1"))
    t0 = time.time()
    specs = [s for s in plan.PLAN[prop]["runs"] if only in (None, s["module"])]
    if tier == "quick":
        specs = [s for s in specs if s["quick"] > 0]
    builds = {}
    for s in specs:
        san = s.get("san", "asan")
        if san not in builds:
            builds[san] = build(san)
    workdir = tempfile.mkdtemp(prefix="vmon-", dir=os.environ.get("TMPDIR", "/tmp"))
    r = Runner(prop, tier, seed, workdir)
    total = plan.BUDGET[tier]
    t1 = time.time()
    try:
        for s in specs:
            n = max(1, int(s[tier] * scale))
            r.run(os.path.join(builds[s.get("san", "asan")], "vmon"), s, n, t1 + total)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)

    # verdict
    known = [(k, what) for (p, k, what) in load_findings() if p == prop]
    keys = {}
    for v in r.viol:
        keys.setdefault(v["key"].replace(" ", "_"), []).append(v)
    new, old = {}, {}
    for k, vs in keys.items():
        hit = [w for (kk, w) in known if kk == k]
        (old if hit else new)[k] = vs
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    rep_dir = os.path.join(ev_dir, "replay")
    os.makedirs(rep_dir, exist_ok=True)
    for f in os.listdir(rep_dir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rep_dir, f))
    P = plan.PLAN[prop]
    cover = len(r.distinct.get(P.get("cover", "cover"), ()))
    evals = r.counts.get("checks", 0)
    samples = []
    for k in [P.get("cover", "cover")] + sorted(r.samples):
        samples += ["%s: %s" % (k, x) for x in r.samples.get(k, [])[:3]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": cover, "rule": P["rule"], "samples": samples[:20] or ["none"],
            "cases": r.counts.get("cases", 0),
            "counters": {k: v for k, v in sorted(r.counts.items())},
            "distinct": {k: len(v) for k, v in sorted(r.distinct.items())},
            "runs": r.runs, "inconclusive": r.inconclusive[:20],
            "violation_keys": sorted(new), "known_finding_keys": sorted(old),
        },
        "wall_s": round(time.time() - t0, 1),
    }
    json.dump(ev, open(os.path.join(ev_dir, prop + ".json"), "w"), indent=1)
    log("%s %s seed %d: %d cases, %d checks, %d distinct, %.0f s" % (prop, tier, seed, r.counts.get("cases", 0), evals, cover, time.time() - t0))
    for k, what in known:
        log("KNOWN-FINDING: property=%s %s [%s]%s" % (prop, what, k, "" if k in old else " (not met in this run)"))
    for x in r.inconclusive[:5]:
        log("inconclusive: " + x)
    for i, (k, vs) in enumerate(sorted(new.items())):
        v = vs[0]
        path = os.path.join(rep_dir, "%s-%d.json" % (prop, i))
        exe = ("valgrind " if v["spec"].get("wrap") else "") + os.path.join(builds[v["spec"].get("san", "asan")], "vmon")
        cmd = [exe, v["module"], "--seed", str(seed), "--case", str(v["case"]), "--verbose"] + (["--thorough"] if tier == "thorough" else [])
        for a, b in v["spec"].get("set", {}).items():
            cmd += ["--set", "%s=%s" % (a, b)]
        json.dump({"property": prop, "key": k, "occurrences": len(vs), "module": v["module"], "case": v["case"], "seed": seed, "replay": " ".join(cmd), "detail": v["detail"], "operations": v["ops"],
                   "other_cases": [x["case"] for x in vs[1:10]]}, open(path, "w"), indent=1)
        log("VIOLATION property=%s replay=%s" % (prop, path))
        log("   key: %s (%d times)" % (k, len(vs)))
        log("   " + v["detail"][:700].replace("\n", "\n   "))
    if new:
        return 1
    if evals == 0 or (r.inconclusive and r.counts.get("cases", 0) == 0):
        log("nothing observed")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
