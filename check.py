#!/usr/bin/env python3
"""Builds and runs the monitor of one property against /repo's working tree.

  check.py Cxx [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Exit 2: the check itself could not decide (build error, too little observed).
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", min(8, os.cpu_count() or 4)))

sys.path.insert(0, VERIF)
from config import CHECKS  # noqa: E402

COMMON = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-w", "-pthread",
          "-DENABLE_MLPACK=false", "-I" + os.path.join(REPO, "source"),
          "-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(VERIF, "harness")]
FLAVORS = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-fsanitize=float-cast-overflow", "-fno-sanitize=vptr",
             "-ftrivial-auto-var-init=pattern"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O1"],
}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=98:detect_leaks=1:hard_rss_limit_mb=3000:"
                    "allocator_may_return_null=1:detect_stack_use_after_return=0:"
                    "strict_string_checks=1:check_initialization_order=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "LSAN_OPTIONS": "exitcode=95",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:second_deadlock_stack=1:history_size=5",
}


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


# ---- build ----------------------------------------------------------------

def sha(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha1(f.read()).hexdigest()
    except OSError:
        return None


def compile_one(src, flavor, extra):
    flags = COMMON + FLAVORS[flavor] + extra
    key = hashlib.sha1((src + "\0" + "\0".join(flags)).encode()).hexdigest()[:16]
    os.makedirs(os.path.join(BUILD, flavor), exist_ok=True)
    base = os.path.join(BUILD, flavor, os.path.basename(src).replace(".cpp", "") + "-" + key)
    obj, dep, meta = base + ".o", base + ".d", base + ".json"
    try:
        with open(meta) as f:
            deps = json.load(f)
        if os.path.exists(obj) and deps and all(sha(p) == h for p, h in deps.items()):
            return obj, ""
    except (OSError, ValueError):
        pass
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++"] + flags + ["-MD", "-MF", dep, "-c", src, "-o", tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, r.stdout
    os.replace(tmp, obj)
    with open(dep) as f:
        txt = f.read().replace("\\\n", " ")
    files = [p for p in txt.split(":", 1)[1].split()
             if p.startswith((REPO + "/", VERIF + "/"))] + [src]
    with open(meta, "w") as f:
        json.dump({p: sha(p) for p in set(files)}, f)
    return obj, ""


def repo_sources(kind):
    s = os.path.join(REPO, "source")
    out = []
    if kind in ("parser", "dnn", "all"):
        out += glob.glob(s + "/parser/*.cpp")
    if kind in ("dnn", "all"):
        out += glob.glob(s + "/dnn/**/*.cpp", recursive=True)
        out += glob.glob(s + "/data/**/*.cpp", recursive=True)
    if kind == "all":
        out += [p for p in glob.glob(s + "/middleware/*.cpp") if "mlpack" not in p]
    return sorted(out)


def build(driver, flavor, lib, extra):
    srcs = [os.path.join(VERIF, "drivers", driver)] + repo_sources(lib)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda s: compile_one(s, flavor, extra), srcs))
    for (obj, err), s in zip(res, srcs):
        if obj is None:
            die("cannot compile %s:\n%s" % (s, err[-6000:]))
    objs = [r[0] for r in res]
    exe = os.path.join(BUILD, flavor, driver.replace(".cpp", ".exe"))
    tmp = exe + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++"] + COMMON + FLAVORS[flavor] + objs + ["-o", tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        die("cannot link %s:\n%s" % (driver, r.stdout[-6000:]))
    os.replace(tmp, exe)
    return exe


# ---- run ------------------------------------------------------------------

def classify(err):
    """Sanitizer report -> stable key: kind and innermost frame of the code under test."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = "asan:" + m.group(1)
        if m.group(1) == "hard":
            kind = "memory-growth"
    if "hard rss limit exhausted" in err:
        kind = "memory-growth"
    if not kind:
        m = re.search(r"runtime error: ([^\n]*)", err)
        if m:
            kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", m.group(1))[:80]
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]*)", err)
        if m:
            kind = "tsan:" + m.group(1).strip().replace(" ", "-")
    if not kind and "LeakSanitizer" in err and "encountered a fatal error" not in err:
        kind = "leak"
    frame = ""
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.*?) (\S+):\d+", err):
        if (REPO + "/source") in m.group(2):
            f = re.sub(r"<.*", "", m.group(1).split("(")[0])
            frame = f.split()[-1] if f.split() else ""
            break
    return kind, frame


class Shard:
    found = None            # when the first shard came back with a violation
    stall, alone = 75, 100  # seconds without a finished case; the same, run alone
    rss_mb = None           # more memory for the shard that runs the cases numbered 0

    def __init__(self, exe, n, total, args, tmp, tag):
        self.exe, self.n, self.total, self.args = exe, n, total, args
        self.base = os.path.join(tmp, "%s-%d" % (tag, n))
        self.viols, self.errors = [], []
        self.deaths = 0

    def read_status(self):
        try:
            with open(self.base + ".status") as f:
                g, sc, c = f.read().replace("\0", " ").split()[:3]
            return int(g), sc, int(c)
        except (OSError, ValueError):
            return None

    def spawn(self, start, only, stall):
        """Returns (returncode or 'stall', stderr)."""
        scratch = tempfile.mkdtemp(prefix="s", dir=os.path.dirname(self.base))
        cmd = [self.exe, "--out", self.base + ".out", "--status", self.base + ".status",
               "--scratch", scratch, "--shard", str(self.n), "--shards", str(self.total),
               "--start", str(start)] + self.args
        if only:
            cmd += ["--only", only]
        env = dict(os.environ, **ENV)
        if self.rss_mb and (self.n == 0 or only):
            env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("limit_mb=3000", "limit_mb=%d" % self.rss_mb)
        with open(self.base + ".err", "w") as ef:
            p = subprocess.Popen(cmd, stdout=ef, stderr=subprocess.STDOUT,
                                 env=env, cwd=scratch,
                                 start_new_session=True)
            last, since = None, time.time()
            rc = None
            while rc is None:
                try:
                    rc = p.wait(timeout=1 if time.time() - since > 5 else 0.2)
                except subprocess.TimeoutExpired:
                    cur = self.read_status()
                    if Shard.found and time.time() - Shard.found > 60:
                        os.killpg(p.pid, signal.SIGKILL)    # decided already
                        p.wait()
                        rc = "stop"
                    elif cur != last:
                        last, since = cur, time.time()
                    elif time.time() - since > stall:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        rc = "stall"
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
        with open(self.base + ".err", errors="replace") as f:
            err = f.read()
        return rc, err

    def run(self, only=None):
        start = 0
        while True:
            if os.path.exists(self.base + ".status"):
                os.unlink(self.base + ".status")
            if self.viols and not Shard.found:
                Shard.found = time.time()
            rc, err = self.spawn(start, only, self.stall)
            if rc in (0, "stop"):
                return
            st = self.read_status()
            if st is None:
                self.errors.append("driver failed before its first case (rc=%s): %s" % (rc, err[-1500:]))
                return
            g, sc, case = st
            self.deaths += 1
            kind, frame = classify(err)
            if rc in (96, 127):
                self.errors.append("harness error rc=%s: %s" % (rc, err[-1500:]))
                return
            if not kind and "LeakSanitizer has encountered a fatal error" in err:
                return      # leak detection is not possible here; every case has run
            if kind == "leak" or (rc == 95 and not kind):
                # Reported at exit: not attributable to one case, nothing left to run.
                self.viols.append(dict(scenario=sc, case=case, key="leak@" + frame,
                                       msg=err[:3000], whole=True))
                return
            if rc in ("stall", 97):
                rc2, err2 = self.spawn(0, "%s:%d" % (sc, case), self.alone)
                if rc2 == "stop":
                    return
                if rc2 in ("stall", 97):
                    self.viols.append(dict(scenario=sc, case=case, key="hang",
                                           msg="no progress in this case (twice)"))
                    Shard.found = Shard.found or time.time()
                    return
                elif rc2 != 0:
                    k2, f2 = classify(err2)
                    self.viols.append(dict(scenario=sc, case=case, msg=err2[:3000],
                                           key="%s@%s" % (k2 or "death:%s" % rc2, f2)))
                # else: it finished when run alone - slow machine, inconclusive.
            else:
                key = "%s@%s" % (kind, frame) if kind else "death:%s" % rc
                if rc == -9 and not kind:
                    self.errors.append("driver killed from outside in %s:%d" % (sc, case))
                    return
                self.viols.append(dict(scenario=sc, case=case, key=key, msg=err[:3000]))
            if only or self.deaths >= 6:
                Shard.found = Shard.found or (time.time() if self.viols else None)
                return
            start = g + 1


def load_known():
    known = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\w+) scenario=(\S+) key=(\S+) -- (.*)", line)
                if m:
                    known.append(m.groups())
    except OSError:
        pass
    return known


def main():
    a = sys.argv[1:]
    if not a or a[0] not in CHECKS:
        die("usage: check.py " + "|".join(sorted(CHECKS)))
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay, scale = None, None
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--seed":
            seed = int(a[i + 1])
        elif a[i] == "--scale":
            scale = a[i + 1]
        elif a[i] == "--replay":
            with open(a[i + 1]) as f:
                replay = json.load(f)
            tier, seed = replay["tier"], replay["seed"]
        i += 2
    t0 = time.time()
    cfg = CHECKS[prop]
    Shard.rss_mb = cfg.get("rss_mb")
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
    try:
        code = decide(prop, cfg, tier, seed, replay, scale, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def decide(prop, cfg, tier, seed, replay, scale, tmp, t0):
    viols, errors, tags, samples = [], [], {}, []
    if tier != "quick":
        Shard.stall, Shard.alone = 150, 200
    evals = checks = 0
    distinct = set()
    flavors = cfg["flavors"] if not replay else [replay["flavor"]]
    exes = {}
    for fl in flavors:
        exes[fl] = build(cfg["driver"], fl, cfg.get("lib", "none"),
                         [f.replace("{repo}", REPO) for f in cfg.get("flags", [])] +
                         ["-DVERIF_FLAVOR_" + fl.upper()])
    t_build = time.time() - t0
    for fl in flavors:
        shards = 1 if replay else (cfg.get("tsan_shards", 2) if fl == "tsan" else cfg.get("shards", JOBS))
        args = ["--seed", str(seed), "--tier", tier]
        if scale:
            args += ["--scale", scale]
        ss = [Shard(exes[fl], n, shards, args, tmp, fl) for n in range(shards)]
        only = "%s:%d" % (replay["scenario"], replay["case"]) if replay else None
        with cf.ThreadPoolExecutor(shards) as ex:
            list(ex.map(lambda s: s.run(only), ss))
        for s in ss:
            errors += s.errors
            for v in s.viols:
                viols.append(dict(v, flavor=fl))
            if os.path.exists(s.base + ".out"):
                with open(s.base + ".out", errors="replace") as f:
                    for line in f:
                        try:
                            d = json.loads(line)
                        except ValueError:
                            continue
                        if d["t"] == "viol":
                            viols.append(dict(d, flavor=fl))
                        elif d["t"] == "sum":
                            evals += d["evals"]
                            checks += d["checks"]
                            for k, v in d["tags"].items():
                                tags[k] = tags.get(k, 0) + v
                            samples += d["samples"][:2]
            if os.path.exists(s.base + ".out.hashes"):
                with open(s.base + ".out.hashes", "rb") as f:
                    b = f.read()
                distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))

    # Verdict: one entry per (scenario, key); known findings are matched exactly.
    known = load_known()
    groups = {}
    for v in viols:
        groups.setdefault((v["scenario"], v["key"]), v)
    new, old = [], []
    for (sc, key), v in sorted(groups.items()):
        k = [x for x in known if x[0] == prop and x[1] == sc and x[2] == key.replace(" ", "_")]
        (old if k else new).append((v, k))
    print("%s: %d cases, %d oracle comparisons, %d distinct non-trivial, build %.0fs, total %.0fs"
          % (prop, evals, checks, len(distinct), t_build, time.time() - t0))
    for v, k in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[0][3]))
    rdir = os.path.join(VERIF, "replays", prop)
    if new:
        os.makedirs(rdir, exist_ok=True)
    for v, _ in new[:12]:
        name = re.sub(r"[^\w.-]+", "_", "%s-%s-%s" % (v["scenario"], v["case"], v["key"]))[:120]
        path = os.path.join(rdir, name + ".json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, flavor=v["flavor"],
                           scenario=v["scenario"], case=v["case"], key=v["key"], message=v["msg"],
                           replay="python3 %s/check.py %s --replay %s" % (VERIF, prop, path)), f, indent=1)
        print("  %s:%s key=%s: %s" % (v["scenario"], v["case"], v["key"],
                                      v["msg"][:600].replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    missing = []
    if not replay:
        missing = [t for t in cfg.get("require", []) if not tags.get(t)]
        if len(distinct) < cfg.get("min_distinct", 2):
            missing.append("distinct_nontrivial>=%d" % cfg.get("min_distinct", 2))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
                  coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct),
                                rule=cfg["rule"], samples=samples[:12] or ["none"],
                                oracle_comparisons=checks, events_and_coverage=dict(sorted(tags.items())),
                                sanitizer_builds=flavors,
                                known_findings_seen=len(old), exhaustive=False),
                  assumptions=cfg.get("assumptions", []),
                  wall_s=round(time.time() - t0, 2), violations=len(new))
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if new:
        return 1
    if errors:
        print("ERROR: " + "\n".join(errors)[:4000])
        return 2
    if missing:
        print("ERROR: inconclusive, never observed: " + ", ".join(missing))
        return 2
    return 0


if __name__ == "__main__":
    main()
