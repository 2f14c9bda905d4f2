#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the library from the working tree of the repository with the
instrumentation the property needs, builds the property's harness, runs it in
shards on all cores, and turns what the monitors and sanitizers observed into a
verdict:
  exit 0  the property held on everything that was run
  exit 1  VIOLATION property=<id> replay=<path>
  exit 2  the check itself failed (build error, nothing observed, ...)
`check.py --replay FILE` runs a recorded violation again.
"""
import fcntl, hashlib, importlib, json, os, re, shutil, signal, subprocess, sys, time, mmap, struct, tempfile

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BNL_REPO", "/repo")
BUILD = os.environ.get("BNL_BUILD", os.path.join(V, "build"))
NPROC = min(8, os.cpu_count() or 1)
DEPS = "/opt/vp/deps"
sys.path.insert(0, os.path.join(V, "lib"))
from checks import CHECKS  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class CheckError(Exception):
    pass


# ---------------------------------------------------------------- building
def tree_hash(paths, root):
    h = hashlib.sha256()
    for p in paths:
        full = os.path.join(root, p)
        if os.path.isfile(full):
            files = [full]
        else:
            files = []
            for d, ds, fs in os.walk(full):
                ds[:] = sorted(x for x in ds if x not in ("_build", ".git", "build", "__pycache__"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(os.path.relpath(f, root).encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def prune(prefix, keep):
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(prefix) and os.path.isdir(os.path.join(BUILD, d))]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-keep] if len(ds) > keep else []:
        shutil.rmtree(d, ignore_errors=True)


def build_libs(variant, targets=()):
    key = tree_hash(["CMakeLists.txt", "cmake", "external", "bnl"], REPO)
    key += hashlib.sha256(open(os.path.join(V, "lib/buildlibs.sh"), "rb").read()).hexdigest()[:6]
    d = os.path.join(BUILD, "lib-%s-%s" % (variant, key))
    tl = ["bnl-base", "bnl-log", "bnl-http3"] + list(targets)
    with Lock("lib-" + variant):
        stamp = os.path.join(d, "done-" + "-".join(tl))
        if not os.path.exists(stamp):
            prune("lib-%s-" % variant, 2)
            os.makedirs(d, exist_ok=True)
            r = subprocess.run(["bash", os.path.join(V, "lib/buildlibs.sh"), variant, d] + tl, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise CheckError("building the library (%s) failed:\n%s" % (variant, r.stdout[-4000:]))
            open(stamp, "w").close()
        os.utime(d)
    return d


SAN = {
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "plain": ["-O1", "-g1", "-fno-omit-frame-pointer"],
    "cov": ["-O0", "-g1", "--coverage"],
    "fuzz": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,fuzzer", "-fno-sanitize-recover=all"],
}


def build_harness(variant, source, libdir, extra_flags=(), extra_sources=()):
    hk = tree_hash(["harness"], V)
    flags = [f.replace("$REPO", REPO).replace("$V", V) for f in extra_flags]
    key = hashlib.sha256((hk + libdir + source + " ".join(flags) + " ".join(extra_sources)).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "h-%s-%s" % (variant, os.path.basename(source).split(".")[0]) + "-" + key)
    exe = os.path.join(d, "h")
    with Lock("h-%s-%s" % (variant, os.path.basename(source))):
        if not os.path.exists(exe):
            prune("h-%s-%s-" % (variant, os.path.basename(source).split(".")[0]), 2)
            os.makedirs(d, exist_ok=True)
            cxx = "clang++" if variant == "fuzz" else "g++"
            inc = []
            for r in (REPO, libdir):
                for c in ("base", "http3", "log", "quic"):
                    inc += ["-I%s/bnl/%s/include" % (r, c)]
            cmd = [cxx, "-std=c++17", "-Wall", "-Wno-unknown-pragmas", "-Wno-unused-function"] + SAN[variant] + flags
            cmd += ["-include", DEPS + "/compat/compat.hpp"] + inc + ["-I" + DEPS + "/outcome", "-I" + os.path.join(V, "harness"), "-I" + REPO]
            objs = [os.path.join(V, "harness", source)]
            for src in extra_sources:
                # A directory stands for all sources below it.
                src = src.replace("$REPO", REPO).replace("$V", V)
                if os.path.isdir(src):
                    objs += sorted(os.path.join(r, f) for r, _, fs in os.walk(src) for f in fs if f.endswith(".cpp"))
                else:
                    objs.append(src)
            cmd += objs + ["%s/bnl/%s/lib/libbnl-%s.a" % (libdir, c, c) for c in ("http3", "log", "base")]
            cmd += ["-lfmt", "-lpthread", "-lcrypto", "-lsystemd", "-ldl", "-o", exe + ".tmp"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise CheckError("building harness %s (%s) failed:\n%s" % (source, variant, r.stdout[-4000:]))
            os.rename(exe + ".tmp", exe)
        os.utime(d)
    return exe


# ---------------------------------------------------------------- known findings
def known_findings():
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


# ---------------------------------------------------------------- running
ENV = {
    "ASAN_OPTIONS": "detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:malloc_context_size=12:hard_rss_limit_mb=3500:max_allocation_size_mb=1500:allocator_may_return_null=0:detect_odr_violation=0:abort_on_error=0:exitcode=77:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1",
    "LSAN_OPTIONS": "exitcode=77",
    "LC_ALL": "C.UTF-8",
}


def crash_key(err, rc):
    """A stable name for a crash: kind of report and innermost library function."""
    kind = "exit%d" % rc
    m = re.search(r"ERROR: (\w+Sanitizer): ([\w-]+)", err)
    if m:
        kind = m.group(2)
    m2 = re.search(r"runtime error: (.*)", err)
    if m2:
        kind = "ub:" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|\d+", "", m2.group(1).lower()))[:40].strip("-")
    if "WARNING: ThreadSanitizer" in err:
        kind = "race"
    m3 = re.search(r"Assertion [`'](.*?)' failed", err)
    if m3:
        kind = "assert:" + re.sub(r"\W+", "-", m3.group(1))[:40].strip("-")
    if rc < 0:
        kind += "-sig%d" % -rc
    m4 = re.search(r"in (bnl::[\w:]+)", err)
    return "crash:%s%s" % (kind, ":" + m4.group(1) if m4 else "")


class Shard:
    def __init__(self, exe, args, seed, frm, to, stride, off, tmp, n, wrap, env, hang_s):
        self.exe, self.args, self.seed, self.frm, self.to, self.stride, self.off = exe, args, seed, frm, to, stride, off
        self.tmp, self.n, self.wrap, self.env, self.hang_s = tmp, n, wrap, env, hang_s
        self.hang_retry = None

    def start(self, frm):
        self.cur_from = frm
        self.prog = os.path.join(self.tmp, "p%d" % self.n)
        with open(self.prog, "wb") as f:
            f.write(b"\0" * 16)
        self.out = open(os.path.join(self.tmp, "o%d" % self.n), "w+", errors="replace")
        self.err = open(os.path.join(self.tmp, "e%d" % self.n), "w+", errors="replace")
        self.hashes = os.path.join(self.tmp, "h%d-%d" % (self.n, frm))
        cmd = self.wrap + [self.exe, "--seed", str(self.seed), "--from", str(frm), "--to", str(self.to), "--stride", str(self.stride), "--offset", str(self.off), "--progress", self.prog, "--hashes", self.hashes] + self.args
        self.p = subprocess.Popen(cmd, stdout=self.out, stderr=self.err, env=self.env, start_new_session=True, cwd=self.tmp)
        self.last = (0, 0)
        self.last_t = time.time()

    def progress(self):
        with open(self.prog, "rb") as f:
            return struct.unpack("<QQ", f.read(16).ljust(16, b"\0"))

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()


def run_cases(prop, exe, seed, cases, tier, args=(), wrap=(), env_extra=None, hang_s=120, nproc=None, frm=0, only=None):
    """Runs the harness over [frm, cases). Returns (violations, stats)."""
    tmp = tempfile.mkdtemp(prefix="bnlchk-")
    env = dict(os.environ)
    env.update(ENV)
    env.update(env_extra or {})
    n = nproc or NPROC
    viol, stats, samples, evals, rule = [], {}, [], 0, ""
    distinct = set()
    args = list(args) + (["--thorough"] if tier == "thorough" else [])
    known = [k for k in known_findings() if k[0] == prop]
    try:
        shards = []
        for i in range(n):
            s = Shard(exe, args, seed, frm, cases, n, i, tmp, i, list(wrap), env, hang_s)
            s.start(frm)
            shards.append(s)
        live = list(shards)
        while live:
            time.sleep(0.05)
            for s in list(live):
                rc = s.p.poll()
                now = time.time()
                cur = s.progress()
                hang = False
                if rc is None:
                    if cur != s.last:
                        s.last, s.last_t = cur, now
                        continue
                    elif now - s.last_t > s.hang_s:
                        hang = True
                        s.kill()
                    else:
                        continue
                s.out.seek(0)
                s.err.seek(0)
                out, err = s.out.read(), s.err.read()
                s.out.close()
                s.err.close()
                case = cur[0]
                for line in out.splitlines():
                    if line.startswith("VIOL "):
                        m = re.match(r"VIOL case=(\d+) key=(\S+) msg=(.*)", line)
                        viol.append({"case": int(m.group(1)), "key": m.group(2), "msg": m.group(3)})
                    elif line.startswith("STAT "):
                        _, k, v = line.split()
                        stats[k] = stats.get(k, 0) + int(v)
                    elif line.startswith("EVALS "):
                        evals += int(line.split()[1])
                    elif line.startswith("SAMPLE "):
                        samples.append(line[7:])
                    elif line.startswith("RULE "):
                        rule = line[5:]
                if os.path.exists(s.hashes):
                    b = open(s.hashes, "rb").read()
                    distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))
                done = "\nDONE" in out
                live.remove(s)
                if hang:
                    evals += cur[1]
                    if s.hang_retry == case:
                        viol.append({"case": case, "key": "hang", "msg": "no progress in %d s, twice" % s.hang_s})
                    else:
                        # Once more before calling it a hang.
                        s.hang_retry = case
                        s.start(case)
                        live.append(s)
                elif done and rc == 0:
                    pass
                elif done and rc == 1:
                    pass
                elif done:
                    # All cases ran, the sanitizer objected at exit (leak).
                    viol.append({"case": case, "key": crash_key(err, rc), "msg": "at exit: " + summary(err), "range": [s.cur_from, s.to, s.stride, s.off], "report": err[-6000:]})
                elif rc == 2 and "ERROR" not in err:
                    raise CheckError("harness error: " + err[-2000:])
                else:
                    evals += cur[1]
                    key = crash_key(err, rc)
                    viol.append({"case": case, "key": key, "msg": summary(err) or "exit status %d" % rc, "report": err[-6000:]})
                    if any(k[1] == key for k in known) and case + 1 < cases:
                        s.start(case + 1)
                        live.append(s)
                if len([v for v in viol if not any(k[1] == v["key"] for k in known)]) >= 6:
                    for t in live:
                        t.kill()
                    live = []
                    break
    finally:
        for s in shards:
            if s.p.poll() is None:
                s.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    return {"violations": viol, "stats": stats, "samples": samples, "evals": evals, "distinct": distinct, "rule": rule}


def summary(err):
    for pat in (r"(SUMMARY: .*)", r"(.*runtime error: .*)", r"(.*Assertion .* failed.*)", r"(terminate called.*)"):
        m = re.search(pat, err)
        if m:
            return m.group(1).strip()[:400]
    return err.strip()[-300:].replace("\n", " ")


# ---------------------------------------------------------------- verdict
class Run:
    """What a check's procedure uses and reports to."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.violations, self.stats, self.samples, self.rules = [], {}, [], []
        self.evals = 0
        self.distinct = set()
        self.t0 = time.time()
        self.parts = []
        self.repo = REPO
        self.verif = V
        self.build = BUILD
        self.nproc = NPROC

    thorough = property(lambda s: s.tier == "thorough")

    def libs(self, variant, targets=()):
        return build_libs(variant, targets)

    def executable(self, source, variant="asan", flags=(), sources=()):
        """A program that a harness runs in a process of its own."""
        return build_harness(variant, source, build_libs(variant), flags, sources)

    def harness(self, source, variant="asan", flags=(), sources=(), cases=1000, args=(), wrap=(), env=None, label=None, hang_s=120, nproc=None, frm=0, seeds=None):
        lib = build_libs(variant)
        exe = build_harness(variant, source, lib, flags, sources)
        t = time.time()
        for seed in seeds or [self.seed]:
            r = run_cases(self.prop, exe, seed, cases, self.tier, args, wrap, env, hang_s, nproc, frm)
            for v in r["violations"]:
                v.update(source=source, variant=variant, flags=list(flags), sources=list(sources), seed=seed, args=list(args), wrap=list(wrap), env=env or {})
            self.add(r)
        self.parts.append({"harness": label or source, "variant": variant, "cases": cases, "seeds": seeds or [self.seed], "wall_s": round(time.time() - t, 1)})
        return r

    def add(self, r):
        self.violations += r["violations"]
        for k, n in r["stats"].items():
            self.stats[k] = self.stats.get(k, 0) + n
        self.samples += r["samples"]
        self.evals += r["evals"]
        self.distinct |= r["distinct"]
        if r["rule"] and r["rule"] not in self.rules:
            self.rules.append(r["rule"])

    def violation(self, key, msg, **kw):
        self.violations.append(dict(key=key, msg=msg, case=kw.pop("case", 0), **kw))


def finish(run, cfg):
    known = known_findings()
    new, old = [], {}
    for v in run.violations:
        hit = [k for k in known if k[0] == run.prop and k[1] == v["key"]]
        if hit:
            old[hit[0]] = v
        else:
            new.append(v)
    ev = {
        "property": run.prop,
        "tier": run.tier,
        "seed": run.seed,
        "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": run.evals,
            "distinct_nontrivial": len(run.distinct),
            "rule": "; ".join(run.rules) or cfg.get("rule", ""),
            "samples": run.samples[:6],
            "observed": dict(sorted(run.stats.items())),
            "parts": run.parts,
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - run.t0, 1),
        "violations": len(new),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", run.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, v in old.items():
        print("KNOWN-FINDING: property=%s %s" % (run.prop, k[2]))
    if new:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        seen = set()
        for v in new:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            p = os.path.join(V, "replays", "%s-%s.json" % (run.prop, re.sub(r"[^\w.-]", "_", v["key"])[:80]))
            with open(p, "w") as f:
                json.dump(dict(v, property=run.prop, tier=run.tier), f, indent=1)
            log("%s: case %s key %s: %s" % (run.prop, v.get("case"), v["key"], v["msg"]))
            print("VIOLATION property=%s replay=%s" % (run.prop, p))
        sys.stdout.flush()
        return 1
    # A run that observed nothing decides nothing.
    missing = [k for k, n in cfg.get("expect", {}).items() if run.stats.get(k, 0) < n]
    if missing or run.evals == 0 or len(run.distinct) < cfg.get("min_distinct", 2):
        log("%s: inconclusive: too little was observed: missing %s, %d evaluations, %d distinct" % (run.prop, missing, run.evals, len(run.distinct)))
        return 2
    print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (run.prop, run.evals, len(run.distinct), time.time() - run.t0))
    return 0


def replay(path):
    v = json.load(open(path))
    if "source" not in v:
        print(json.dumps(v, indent=1))
        return 0
    exe = build_harness(v["variant"], v["source"], build_libs(v["variant"]), v["flags"], v["sources"])
    env = dict(os.environ)
    env.update(ENV)
    env.update(v.get("env") or {})
    frm, to, stride, off = v.get("range", [v["case"], v["case"] + 1, 1, 0])
    cmd = v.get("wrap", []) + [exe, "--seed", str(v["seed"]), "--from", str(frm), "--to", str(to), "--stride", str(stride), "--offset", str(off), "--verbose"] + v["args"] + (["--thorough"] if v["tier"] == "thorough" else [])
    print(" ".join(cmd))
    return subprocess.run(cmd, env=env).returncode


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CHECKS[prop]
    run = Run(prop, tier, seed)
    try:
        cfg["run"](run)
        return finish(run, cfg)
    except CheckError as e:
        log("%s: check error: %s" % (prop, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
