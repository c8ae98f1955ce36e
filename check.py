#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's working tree.

Exit 0: it held on everything observed. Exit 1 with a VIOLATION line: it is
broken. Exit 2: the check itself failed (build failure, harness error,
inconclusive run); nothing is claimed then.
"""
import array, concurrent.futures, fcntl, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CORES = max(2, os.cpu_count() or 8)
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
T0 = time.time()

VARIANTS = {
    # the build type the project is used with
    "plain": dict(type="RelWithDebInfo", flags="", hflags="-O1 -g"),
    "asan": dict(type="", flags="-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS",
                 hflags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS", symbol="__asan_"),
    # also iterators and element accesses of every container, vector<bool> included; not for
    # drivers that load unknown fields, since those containers are shared with libprotobuf
    "debug": dict(type="", flags="-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_DEBUG",
                  hflags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_DEBUG", symbol="__asan_"),
    # counts every basic block executed in the library: a deterministic measure of work
    "steps": dict(type="", flags="-O1 -g -fsanitize-coverage=trace-pc", hflags="-O1 -g -DCOUNT_STEPS", symbol="__sanitizer_cov_trace_pc", steps=True),
    "tsan": dict(type="", flags="-O1 -g -fno-omit-frame-pointer -fsanitize=thread", hflags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread", symbol="__tsan_"),
}


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building
def source_stamp():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        dirs[:] = sorted(d for d in dirs if not d.startswith(("_build", "build", ".")) and not (rel == "." and d in ("test", "docs")))
        for f in sorted(files):
            p = os.path.join(root, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def run_cmd(cmd, what, timeout=800, env=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    if p.returncode != 0:
        sys.stderr.write(p.stdout.decode(errors="replace")[-6000:])
        raise CheckError("%s failed" % what)
    return p.stdout.decode(errors="replace")


def clean_env():
    e = {k: v for k, v in os.environ.items() if k not in ("CXXFLAGS", "CPPFLAGS", "LDFLAGS", "CMAKE_PREFIX_PATH", "DESTDIR", "CFLAGS", "LD_PRELOAD")}
    e["LC_ALL"] = "C.UTF-8"
    return e


class Locked:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


STAMP = None


def build_variant(name):
    """The library of /repo's working tree, by /repo's own CMake build."""
    v = VARIANTS[name]
    d = os.path.join(BUILD, name)
    stamp = hashlib.sha256((STAMP + json.dumps(v)).encode()).hexdigest()
    with Locked(name):
        sf = os.path.join(d, "stamp")
        if os.path.exists(sf) and open(sf).read() == stamp:
            return d
        shutil.rmtree(d, ignore_errors=True)
        cmd = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_CXX_COMPILER=g++", "-DCMAKE_BUILD_TYPE=" + v["type"],
               "-DProtobuf_DIR=" + os.path.join(VERIF, "cmake"), "-DBUILD_BASELINE_METRICS=ON", "-DBUILD_TESTS=OFF", "--no-warn-unused-cli",
               "--compile-no-warning-as-error"]
        if v.get("steps"):
            os.makedirs(d)
            so = os.path.join(d, "libsteps.so")
            run_cmd(["gcc", "-O2", "-shared", "-fPIC", os.path.join(VERIF, "harness", "steps.c"), "-o", so], "compiling the step counter")
            link = "-Wl,--no-as-needed %s -Wl,-rpath,%s" % (so, d)
            cmd += ["-DCMAKE_SHARED_LINKER_FLAGS=" + link, "-DCMAKE_EXE_LINKER_FLAGS=" + link]
        if v["flags"]:
            cmd += ["-DCMAKE_CXX_FLAGS=" + v["flags"], "-DCMAKE_C_FLAGS=" + v["flags"]]
        run_cmd(cmd, "configuring the %s build" % name, env=clean_env())
        run_cmd(["ninja", "-C", d, "--quiet"], "the %s build" % name, env=clean_env())
        lib = find_lib(d)
        if v.get("symbol"):
            syms = run_cmd(["nm", "-D", lib], "nm")
            if v["symbol"] not in syms:
                raise CheckError("the %s library is not instrumented" % name)
        with open(sf, "w") as f:
            f.write(stamp)
    return d


def find_lib(d):
    for root, _, files in os.walk(d):
        if "liblevenshtein.so" in files:
            return os.path.join(root, "liblevenshtein.so")
    raise CheckError("no library was built")


def build_harness(name, variant, extra=""):
    """A driver, compiled against the headers and the library of the variant."""
    d = build_variant(variant)
    lib = find_lib(d)
    src = os.path.join(VERIF, "harness", name + ".cpp")
    h = hashlib.sha256((STAMP + variant + extra + json.dumps(VARIANTS[variant])).encode())
    for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
        if f == name + ".cpp" or f.endswith(".h"):
            h.update(open(os.path.join(VERIF, "harness", f), "rb").read())
    tag = name + ("-" + re.sub(r"\W", "", extra) if extra else "")
    exe = os.path.join(BUILD, "bin", variant, tag)
    with Locked("bin-%s-%s" % (variant, tag)):
        sf = exe + ".stamp"
        if os.path.exists(exe) and os.path.exists(sf) and open(sf).read() == h.hexdigest():
            return exe
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        cmd = ["g++", "-std=c++20", "-w"] + VARIANTS[variant]["hflags"].split() + extra.split() + [
            "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "third-party"), "-I" + os.path.join(d, "generated"), src, "-o", exe,
            "-L" + os.path.dirname(lib), "-llevenshtein", "-lprotobuf", "-pthread", "-Wl,-rpath," + os.path.dirname(lib)]
        if VARIANTS[variant].get("steps"):
            cmd += ["-L" + d, "-lsteps", "-Wl,-rpath," + d]
        run_cmd(cmd, "compiling the %s driver (%s)" % (name, variant), env=clean_env())
        with open(sf, "w") as f:
            f.write(h.hexdigest())
    return exe


def build_demo():
    d = build_variant("plain")
    lib = find_lib(d)
    exe = os.path.join(BUILD, "bin", "plain", "demo")
    with Locked("bin-plain-demo"):
        sf = exe + ".stamp"
        if os.path.exists(exe) and os.path.exists(sf) and open(sf).read() == STAMP:
            return exe
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        srcdir = os.path.join(REPO, "example", "src")
        srcs = sorted(os.path.join(srcdir, f) for f in os.listdir(srcdir) if f.endswith(".cpp"))
        run_cmd(["g++", "-std=c++20", "-w", "-O1", "-g", "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(d, "generated")] + srcs +
                ["-o", exe, "-L" + os.path.dirname(lib), "-llevenshtein", "-lprotobuf", "-pthread", "-Wl,-rpath," + os.path.dirname(lib)],
                "compiling the demo", env=clean_env())
        with open(sf, "w") as f:
            f.write(STAMP)
    return exe


# ------------------------------------------------------------------ running
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:hard_rss_limit_mb=3000:allocator_may_return_null=0:malloc_context_size=12:strict_init_order=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4",
}


CRASH = ("asan:", "ubsan:", "tsan:", "sanitizer:", "valgrind:", "crash:")


class Job:
    """One driver invocation, split into shards."""

    def __init__(self, harness, mode, quick, thorough, variant="plain", opts=(), extra="", valgrind=False, shards=None, scale=(1, 2), timeout=(400, 2400)):
        self.harness, self.mode, self.variant, self.opts, self.extra, self.valgrind = harness, mode, variant, list(opts), extra, valgrind
        self.cases = quick if TIER == "quick" else thorough
        self.scale = scale[0] if TIER == "quick" else scale[1]
        self.timeout = timeout[0] if TIER == "quick" else timeout[1]
        self.shards = shards or CORES

    def label(self):
        return "%s %s%s on %s%s" % (self.harness, self.mode, "".join(" " + o for o in self.opts), self.variant, " under valgrind" if self.valgrind else "")


class Found:
    def __init__(self, key, detail, cmd, output=""):
        self.key, self.detail, self.cmd, self.output = key, detail, cmd, output


NEED_SETARCH = False


def command(job, exe, scratch, shard, only=None):
    global NEED_SETARCH
    cmd = []
    if job.valgrind:
        cmd += ["valgrind", "--quiet", "--error-exitcode=98", "--leak-check=no", "--track-origins=yes", "--num-callers=16"]
    if NEED_SETARCH and job.variant != "plain":
        cmd += ["setarch", "-R"]
    cmd += [exe, job.mode, "--seed", str(SEED), "--cases", str(job.cases), "--scale", str(job.scale), "--scratch", scratch] + job.opts
    if job.variant == "plain" and not job.valgrind:
        cmd += ["--as-mb", "3500"]
    wd = 120 if job.variant != "plain" else 60
    if job.valgrind:
        wd = 400
    cmd += ["--watchdog", str(wd)]
    if only is None:
        cmd += ["--shard", str(shard), "--shards", str(job.shards)]
    else:
        cmd += ["--only", str(only)]
    return cmd


def execute(cmd, timeout):
    env = dict(os.environ)
    env.update(SAN_ENV)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace"), err.decode(errors="replace"), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return -9, out.decode(errors="replace"), err.decode(errors="replace"), True


SAN_RE = [
    (re.compile(r"ERROR: AddressSanitizer: ([\w-]+)"), "asan"),
    (re.compile(r"(?:WARNING|ERROR): ThreadSanitizer: ([\w -]+?)(?: \(| on |\n)"), "tsan"),
    (re.compile(r"ERROR: UndefinedBehaviorSanitizer: ([\w-]+)"), "ubsan"),
    (re.compile(r"==\d+==\s*(?:AddressSanitizer|ThreadSanitizer|LeakSanitizer):? ([^\n]{1,60})"), "sanitizer"),
    (re.compile(r"runtime error: ([^\n]{1,80})"), "ubsan"),
]


def crash_key(rc, err):
    for rx, name in SAN_RE:
        m = rx.search(err)
        if m:
            return name + ":" + re.sub(r"[^\w]+", "-", m.group(1)).strip("-")[:60]
    if rc == 98 and "==" in err:
        m = re.search(r"==\d+== (.*)", err)
        return "valgrind:" + re.sub(r"[^\w]+", "-", m.group(1) if m else "error").strip("-")[:60]
    if rc < 0:
        try:
            return "crash:" + signal.Signals(-rc).name
        except ValueError:
            pass
    return None


def run_shard(job, exe, shard, work):
    """Returns (stats or None, [Found])."""
    global NEED_SETARCH
    scratch = tempfile.mkdtemp(prefix="s%d-" % shard, dir=work)
    progress = os.path.join(scratch, "progress")
    dfile = os.path.join(scratch, "distinct")
    cmd = command(job, exe, scratch, shard) + ["--progress", progress, "--distinct-out", dfile]
    begun = time.time()
    rc, out, err, timed_out = execute(cmd, job.timeout)
    if os.environ.get("VERIF_TIMES"):
        sys.stderr.write("%6.1f s %s shard %d\n" % (time.time() - begun, job.label(), shard))
    if "unexpected memory mapping" in err and not NEED_SETARCH:
        NEED_SETARCH = True
        cmd = command(job, exe, scratch, shard) + ["--progress", progress, "--distinct-out", dfile]
        rc, out, err, timed_out = execute(cmd, job.timeout)
    case = None
    try:
        case = int(open(progress).read().split()[0])
    except (OSError, ValueError, IndexError):
        pass
    found, stats = [], None
    for line in out.splitlines():
        m = re.match(r"VIOL case=(-?\d+) key=(\S+) detail=(.*)", line)
        if m:
            found.append(Found(m.group(2), m.group(3), " ".join(command(job, exe, scratch, shard, only=m.group(1)))))
        elif line.startswith("STATS "):
            stats = json.loads(line[6:], strict=False)
    if stats is not None and os.path.exists(dfile):
        a = array.array("Q")
        with open(dfile, "rb") as f:
            a.frombytes(f.read())
        stats["hashes"] = a
    only = " ".join(command(job, exe, scratch, shard, only=case)) if case is not None else " ".join(cmd)
    if rc in (0, 1) and stats is not None and not timed_out:
        if rc == 1 and not found:
            raise CheckError("%s: violations without a report" % job.label())
        return stats, found
    if rc == 97 or timed_out:
        # no end in sight: once more, that case alone
        if case is None:
            raise CheckError("%s: timed out before the first case" % job.label())
        rc2, out2, err2, to2 = execute(command(job, exe, scratch, shard, only=case), 150)
        if rc2 == 97 or to2:
            found.append(Found("hang", "case %d does not end (twice)" % case, only, out2[-2000:] + err2[-2000:]))
            return stats, found
        if rc2 in (0, 1) and "STATS" in out2:
            for line in out2.splitlines():
                m = re.match(r"VIOL case=(-?\d+) key=(\S+) detail=(.*)", line)
                if m:
                    found.append(Found(m.group(2), m.group(3), only))
            if found:
                return stats, found
            raise CheckError("%s: inconclusive, case %d took too long once" % (job.label(), case))
        rc, err, out = rc2, err2, out2
    if rc == 3 and not found:
        sys.stderr.write(err[-3000:])
        raise CheckError("%s: the driver failed" % job.label())
    key = crash_key(rc, err)
    if key is None and "terminate called" in err:
        key = "crash:exception"
    if key is None and found:
        return stats, found
    if key is None and case is not None and stats is None:
        # the driver itself only ends with a summary, or with 3
        key = "crash:exit-status-%d" % rc
    if key is None:
        sys.stderr.write(out[-1500:] + err[-3000:])
        raise CheckError("%s: unexpected exit status %d" % (job.label(), rc))
    lines = [l for l in err.splitlines() if l.strip()]
    found.append(Found(key, "case %s: %s" % (case, (lines[0] if lines else key)[:300]), only, err[:12000]))
    return stats, found


def run_jobs(jobs, known=(), counts_as=lambda f: True):
    need = sorted({(j.harness, j.variant, j.extra) for j in jobs})
    variants = sorted({n[1] for n in need})
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        list(ex.map(build_variant, variants))
        exes = dict(zip(need, ex.map(lambda n: build_harness(*n), need)))
    log("built %s after %.1f s" % (", ".join("%s/%s" % n[:2] for n in need), time.time() - T0))
    work = tempfile.mkdtemp(prefix="work-", dir=BUILD)
    decided = []

    def one(j, shard):
        # once a violation is known, what has not been started adds nothing
        if decided:
            return None, []
        r = run_shard(j, exes[(j.harness, j.variant, j.extra)], shard, work)
        if any(counts_as(f) and f.key not in known for f in r[1]):
            decided.append(j)
        return r
    total = {"counts": {}, "samples": [], "jobs": {}}
    hashes, found = set(), []
    try:
        tasks = [(j, s) for j in jobs for s in range(min(j.shards, max(1, j.cases)))]
        with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
            res = list(ex.map(lambda t: one(*t), tasks))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for (j, s), (stats, f) in zip(tasks, res):
        found += f
        if stats is None:
            continue
        jb = total["jobs"].setdefault(j.label(), {"cases": j.cases, "counts": {}})
        for k, v in stats["counts"].items():
            for c in (total["counts"], jb["counts"]):
                c[k] = max(c.get(k, 0), v) if k.startswith(("max_", "monitored_")) else c.get(k, 0) + v
        salt = hash((j.harness, j.mode)) if len({(x.harness, x.mode) for x in jobs}) > 1 else 0
        hashes.update((h, salt) for h in stats.get("hashes", ())) if salt else hashes.update(stats.get("hashes", ()))
        if s < 2:
            total["samples"] += [{"job": j.label(), "case": x} for x in stats["samples"][:2]]
    total["distinct"] = len(hashes)
    return total, found


# ------------------------------------------------------------------ verdicts
def known_findings(prop):
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r


def conclude(prop, spec, total, found):
    known = known_findings(prop)
    if spec.get("crashes_only"):
        # wrong answers are for the other checks; here only what the sanitizers saw counts
        total["counts"]["functional_reports_left_to_other_checks"] = sum(1 for f in found if not f.key.startswith(CRASH))
        found = [f for f in found if f.key.startswith(CRASH)]
    new, old = [], {}
    for f in found:
        if f.key in known:
            old[f.key] = f
        else:
            new.append(f)
    for k in sorted(old):
        log("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    missing = [k for k in spec.get("must", []) if not total["counts"].get(k)]
    if missing and not new:
        raise CheckError("the monitors observed nothing of: " + ", ".join(missing))
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": spec["level"],
        "coverage": {
            "evaluations": sum(total["counts"].get(k, 0) for k in spec["evaluations"]),
            "evaluations_are": " + ".join(spec["evaluations"]),
            "distinct_nontrivial": total["distinct"],
            "rule": spec["rule"],
            "samples": total["samples"][:8],
            "observed": total["counts"],
            "jobs": total["jobs"],
            "exhaustive": False,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(new),
    }
    if old:
        ev["coverage"]["known_findings_observed"] = sorted(old)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if not new:
        log("%s held: %d evaluations, %d distinct non-trivial, %.1f s" % (prop, ev["coverage"]["evaluations"], total["distinct"], ev["wall_s"]))
        return 0
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    seen = {}
    for f in new:
        seen.setdefault(f.key, []).append(f)
    path = os.path.join(VERIF, "replay", "%s.txt" % prop)
    with open(path, "w") as o:
        for k, fs in seen.items():
            for f in fs[:3]:
                o.write("property %s, %s\n%s\nreplay: %s\n%s\n" % (prop, k, f.detail, f.cmd, f.output))
    for k, fs in list(seen.items())[:5]:
        log("%s: %s" % (k, fs[0].detail[:600]))
    log("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def main():
    global STAMP
    if len(sys.argv) != 2:
        sys.exit("usage: check.py PROPERTY|--setup")
    sys.path.insert(0, VERIF)
    import specs
    STAMP = source_stamp()
    if sys.argv[1] == "--setup":
        for v in VARIANTS:
            build_variant(v)
        log("built the library in %d variants" % len(VARIANTS))
        return 0
    prop = sys.argv[1]
    spec = specs.make(sys.modules[__name__], prop)
    if "run" in spec:
        total, found = spec["run"]()
    else:
        only_crashes = spec.get("crashes_only")
        total, found = run_jobs(spec["jobs"], known_findings(prop), lambda f: not only_crashes or f.key.startswith(CRASH))
    return conclude(prop, spec, total, found)


if __name__ == "__main__":
    sys.modules["check"] = sys.modules[__name__]
    try:
        rc = main()
    except CheckError as e:
        sys.stderr.write("check error: %s\n" % e)
        rc = 2
    except subprocess.TimeoutExpired as e:
        sys.stderr.write("check error: %s\n" % e)
        rc = 2
    sys.exit(rc)
