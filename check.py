#!/usr/bin/env python3
"""Decides one property by running the monitors against the current tree of /repo.

  check.py C07 [--tier quick|thorough] [--seed N]     run the check
  check.py --replay replays/FILE.json                 run the witness of a violation again

Exit 0: held on everything observed. 1: VIOLATION line printed. 2: inconclusive (nothing is claimed).
"""
import fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SHARD_REPO", "/repo")
TARGETS = os.path.join(VERIF, "target")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import plans  # noqa: E402

MIRI_HOME = {"XDG_CACHE_HOME": os.path.join(TARGETS, "miri-home")}
TRIPLE = "x86_64-unknown-linux-gnu"
START = time.time()


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------------------------------ builds

VARIANTS = {
    # name: (cargo prefix, cargo args, RUSTFLAGS, sub-directory of the binaries)
    "dev": (["cargo"], ["build"], "", "debug"),
    "rel": (["cargo"], ["build", "--release"], "", "release"),
    "asan": (["cargo", "+nightly"], ["build", "--target", TRIPLE], "-Zsanitizer=address --cfg plain_alloc", TRIPLE + "/debug"),
    "tsan": (["cargo", "+nightly"], ["build", "-Zbuild-std", "--target", TRIPLE], "-Zsanitizer=thread --cfg plain_alloc", TRIPLE + "/debug"),
    "miri": (["cargo", "+nightly"], ["miri", "run"], "--cfg plain_alloc", None),
}


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(REPO, "shard_ecs_derive"), os.path.join(VERIF, "harness")):
        for d, ds, fs in sorted(os.walk(root)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    for f in ("Cargo.toml",):
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


TREE = tree_hash()


class Inconclusive(Exception):
    pass


class Broken(Exception):
    """The code under test does not satisfy the property in a way that shows at compile time."""


def target_dir(variant):
    """Build outputs are kept per content of the sources, never trusted across different sources."""
    os.makedirs(TARGETS, exist_ok=True)
    want = "%s-%s" % (variant, TREE)
    for d in os.listdir(TARGETS):
        if d.startswith(variant + "-") and d != want:
            shutil.rmtree(os.path.join(TARGETS, d), ignore_errors=True)
    return os.path.join(TARGETS, want)


def cargo_env(variant):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "MIRIFLAGS"):
            del env[k]
    env["CARGO_TARGET_DIR"] = target_dir(variant)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    flags = VARIANTS[variant][2]
    if flags:
        env["RUSTFLAGS"] = flags
    return env


def build(variant, bins):
    if variant == "miri":
        t = time.time()
        env = dict(cargo_env("miri"), **MIRI_HOME)
        for cmd in [["cargo", "+nightly", "miri", "setup", "-q"]] + [binary("miri", b) + ["--count", "0"] for b in bins]:
            env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
            r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            if r.returncode != 0:
                raise Inconclusive("preparing Miri failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
        log("build miri %s: %.1f s" % (",".join(bins), time.time() - t))
        return
    prefix, args, _, _ = VARIANTS[variant]
    cmd = prefix + args[:1] + ["--offline"] + args[1:]
    for b in bins:
        cmd += ["--bin", b]
    lock = open(os.path.join(TARGETS, ".lock-" + variant), "w") if os.path.isdir(TARGETS) else None
    if lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
    t = time.time()
    r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=cargo_env(variant), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=840)
    log("build %s %s: %.1f s" % (variant, ",".join(bins), time.time() - t))
    if r.returncode != 0:
        raise Inconclusive("building the harness (%s) failed:\n%s" % (variant, r.stdout[-4000:]))


# ------------------------------------------------------------------------------------------ running

FOUND = threading.Event()


class Job:
    """One worker process."""

    def __init__(self, spec, index, prop, seed, scale, work):
        self.spec, self.index, self.prop, self.seed, self.scale = spec, index, prop, seed, scale
        self.base = os.path.join(work, "%s-%s-%d-%d" % (spec["bin"], spec["variant"], spec["n"], index))
        self.lines, self.violations, self.summary, self.samples = [], [], None, []
        self.at = None
        self.killed = self.stopped = False
        self.err = ""

    def command(self, extra=None, episode=None):
        s = self.spec
        args = ["--prop", str(self.prop), "--scale", s.get("scale", self.scale)]
        if episode is None:
            args += ["--seed", str(self.seed + 1000003 * s["n"]), "--first", str(self.index), "--stride", str(s["workers"]),
                     "--count", str(s.get("count", 10**9)), "--seconds", str(s["seconds"])]
            if s["variant"] != "miri":
                args += ["--sigs", self.base + ".sigs", "--progress", self.base + ".progress"]
        else:
            args += ["--episode", str(episode)]
            if s["variant"] != "miri":
                args += ["--progress", self.base + ".replay"]
        args += s.get("args", []) + (extra or [])
        return binary(s["variant"], s["bin"]) + args

    def run(self, timeout):
        out = open(self.base + ".out", "w+")
        err = open(self.base + ".err", "w+")
        t = time.time()
        p = subprocess.Popen(self.command(), cwd=os.path.join(VERIF, "harness"), env=run_env(self.spec, self.index + self.seed),
                             stdout=out, stderr=err, start_new_session=True)
        while True:
            try:
                self.rc = p.wait(min(1.0, max(0.1, t + timeout - time.time())))
                break
            except subprocess.TimeoutExpired:
                # One violation is enough, the other workers need not go on then.
                self.stopped = FOUND.is_set()
                if self.stopped or time.time() >= t + timeout:
                    self.killed = not self.stopped
                    os.killpg(p.pid, signal.SIGKILL)
                    self.rc = p.wait()
                    break
        self.took = time.time() - t
        out.seek(0)
        err.seek(0)
        self.err = err.read()[-200000:]
        for line in out.read().splitlines():
            if not line.startswith("{"):
                continue
            try:
                v = json.loads(line)
            except ValueError:
                continue
            if v.get("type") == "violation":
                self.violations.append(v)
            elif v.get("type") == "summary":
                self.summary = v
            elif v.get("type") == "at":
                self.at = v["episode"]
            elif v.get("type") == "sample":
                self.samples.append(v)
        if self.violations:
            FOUND.set()


def binary(variant, name):
    if variant == "miri":
        return ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", name, "--"]
    return [os.path.join(target_dir(variant), VARIANTS[variant][3], name)]


def run_env(spec, seed):
    v = spec["variant"]
    env = cargo_env(v) if v == "miri" else dict(os.environ)
    env["RUST_BACKTRACE"] = "0"
    if v == "asan":
        env["ASAN_OPTIONS"] = "abort_on_error=1:halt_on_error=1:detect_leaks=%d:allocator_may_return_null=1" % spec.get("leaks", 0)
    if v == "tsan":
        env["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=0:exitcode=66:second_deadlock_stack=1"
    if v == "miri":
        env.update(MIRI_HOME)
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-provenance-gc=1000 -Zmiri-seed=%d %s" % (seed % (1 << 31), spec.get("miriflags", ""))
    return env


def words(path):
    try:
        with open(path, "rb") as f:
            b = f.read(64)
        return [int.from_bytes(b[i:i + 8], "little") for i in range(0, len(b), 8)]
    except OSError:
        return [0] * 8


def limits(cpu):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


FATAL = {signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}
SAN = re.compile(r"(error: Undefined Behavior.*|ERROR: AddressSanitizer.*|WARNING: ThreadSanitizer.*|unsafe precondition\(s\) violated.*|error: memory leaked.*|error: the main thread terminated.*|error: deadlock.*)")
HARNESS_TROUBLE = re.compile(r"memory allocation of \d+ bytes failed|error: unsupported operation|error: resource exhausted|out of memory|FATAL: ThreadSanitizer|CHECK failed|could not compile|No space left")


def tag_names(word):
    return ["C%02d" % n for n in range(1, 31) if word >> (n - 1) & 1]


def judge_abnormal(job, prop):
    """A worker that died. Returns (verdict, text, extra) with verdict violation / foreign / inconclusive."""
    spec = job.spec
    m = SAN.search(job.err)
    report = m.group(0).strip() if m else ""
    if spec["variant"] == "miri":
        if "Undefined Behavior" in report or "memory leaked" in report or "unsafe precondition" in job.err:
            tags = spec["san"]
            text = report + " " + " ".join(l.strip() for l in job.err[m.start():].splitlines()[1:12])
            return ("violation" if prop in tags else "foreign", "Miri: " + text[:1500], {"episode": job.at} if job.at else {})
        return ("inconclusive", "miri run ended with %s: %s" % (job.rc, job.err[-1500:]), {})
    w = words(job.base + ".progress")
    tags = set(tag_names(w[2])) | set(spec["san"])
    sig = -job.rc if job.rc < 0 else 0
    if spec["variant"] == "tsan" and job.rc == 66:
        text = report + " | " + " | ".join(l.strip() for l in job.err[m.start():].splitlines()[1:30] if l.strip())
        return ("violation" if prop in spec["san"] else "foreign", text[:3000], {})
    hang = job.killed
    if not hang and sig not in FATAL:
        return ("inconclusive", "worker ended with %s: %s" % (job.rc, job.err[-1500:]), {})
    # Confirm with the same episode alone.
    ep = w[0]
    cpu = spec.get("episode_cpu", 120)
    confirmed = None
    if spec.get("replayable", True):
        r = subprocess.run(job.command(episode=ep), cwd=os.path.join(VERIF, "harness"), env=run_env(spec, job.index + job.seed), stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, text=True, preexec_fn=limits(cpu), errors="replace")
        rs = -r.returncode if r.returncode < 0 else 0
        w2 = words(job.base + ".replay")
        if hang:
            if rs in (signal.SIGXCPU, signal.SIGKILL):
                # Bounded progress, in CPU time of one episode that takes milliseconds otherwise.
                confirmed = "operation %d (code %d) of episode %d does not end within %d s of CPU time" % (w2[1], w2[3], ep, cpu)
                tags = set(tag_names(w2[2]))
        elif rs in FATAL:
            tags |= set(tag_names(w2[2]))
            m2 = SAN.search(r.stderr)
            confirmed = "process died with signal %d in operation %d (code %d) of episode %d: %s" % (rs, w2[1], w2[3], ep, (m2.group(0) if m2 else r.stderr[-300:]).strip())
    if hang and not confirmed:
        return ("inconclusive", "worker exceeded its time", {})
    if not confirmed:
        if HARNESS_TROUBLE.search(job.err):
            return ("inconclusive", "worker ended with signal %d: %s" % (sig, job.err[-800:]), {})
        confirmed = "process died with signal %d in operation %d (code %d) of episode %d: %s" % (sig, w[1], w[3], ep, (report or job.err[-300:]).strip())
    return ("violation" if prop in tags else "foreign", confirmed, {"episode": ep})


def run_jobs(jobs, timeout):
    threads = [threading.Thread(target=j.run, args=(timeout(j),)) for j in jobs]
    for t in threads:
        t.start()
    for t in threads:
        t.join()


# ------------------------------------------------------------------------------------------ verdicts

def findings():
    """Known findings that were recorded instead of repaired: {(property, signature)}."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(C\d\d) signature=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    if a and a[0] == "--setup":
        return setup()
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    plan = plans.plan(prop, tier)
    work = os.path.join(VERIF, "target", "work-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return check(prop, tier, seed, plan, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    """Builds ahead what the checks would build; a failure here is theirs to report."""
    for v, b in (("dev", ["core", "low", "limits"]), ("rel", ["core", "low", "limits", "threads"]), ("asan", ["core", "low"]), ("tsan", ["threads"]), ("miri", ["lean", "threads"])):
        try:
            build(v, b)
        except Exception as e:  # noqa: BLE001
            log(e)
    return 0


def check(prop, tier, seed, plan, work):
    number = int(prop[1:])
    problems, violations, foreign, deaths = [], [], [], []
    evaluations, counts, sigs, samples, runs = 0, {}, set(), [], []
    stages = plan["stages"]
    # Builds run side by side.
    need = {}
    for st in stages:
        for s in st:
            if "fn" not in s:
                need.setdefault(s["variant"], set()).add(s["bin"])
    errors = []

    def do_build(v, b):
        try:
            build(v, sorted(b))
        except Inconclusive as e:
            errors.append(str(e))
        except Exception as e:  # noqa: BLE001
            errors.append("build %s: %r" % (v, e))
    ts = [threading.Thread(target=do_build, args=x) for x in need.items()]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        log("\n".join(errors))
        hit = re.search(r"error.*cannot be (sent|shared) between threads safely.*", "\n".join(errors)) if prop == "C14" else None
        if hit:
            text = "a registry cannot be used by several threads any more, says the compiler: " + hit.group(0)
            print("VIOLATION property=%s replay=%s" % (prop, write_replay(prop, tier, seed, text, None)))
            return 1
        print("INCONCLUSIVE property=%s the harness does not build against the current tree" % prop)
        return 2
    scale = "thorough" if tier == "thorough" else "quick"
    for si, stage in enumerate(stages):
        jobs = []
        for n, s in enumerate(stage):
            s = dict(s)
            s["n"] = si * 16 + n
            if "fn" in s:
                r = getattr(__import__(s["module"]), s["fn"])(prop=prop, tier=tier, seed=seed, work=work, repo=REPO, verif=VERIF, env=cargo_env("dev"), **s.get("kw", {}))
                evaluations += r["evaluations"]
                sigs |= set(r["distinct"])
                samples += r["samples"]
                counts.update(r.get("counts", {}))
                problems += r.get("problems", [])
                violations += [(v, None) for v in r.get("violations", [])]
                continue
            s.setdefault("san", ["C07"])
            for i in range(s["workers"]):
                jobs.append(Job(s, i, number, seed, scale, work))
        run_jobs(jobs, lambda j: j.spec["seconds"] + j.spec.get("grace", 90))
        for j in jobs:
            name = "%s/%s" % (j.spec["bin"], j.spec["variant"])
            for v in j.violations:
                violations.append((v["what"], {"job": j, "v": v}))
            abnormal = j.killed or j.rc < 0 or j.summary is None or (j.rc != 0 and not j.violations)
            if abnormal and not j.violations and not j.stopped:
                verdict, text, extra = judge_abnormal(j, prop)
                if verdict == "violation":
                    violations.append((text, {"job": j, "v": extra}))
                elif verdict == "foreign":
                    foreign.append(text)
                    deaths.append((text, {"job": j, "v": extra}))
                else:
                    problems.append("%s: %s" % (name, text))
            if j.summary:
                evaluations += j.summary.get("evaluations", 0)
                if j.summary.get("foreign"):
                    foreign.append("%d episodes: %s" % (j.summary["foreign"], j.summary.get("foreign_sample", "")))
                for k, v in j.summary.items():
                    if isinstance(v, (int, float)) and k not in ("evaluations", "distinct"):
                        counts[k] = max(counts.get(k, 0), v) if k.startswith("max_") else counts.get(k, 0) + v
                    elif isinstance(v, dict):
                        d = counts.setdefault(k, {})
                        for kk, vv in v.items():
                            d[kk] = d.get(kk, 0) + vv
                runs.append({"monitor": name, "worker": j.index, "wall_s": round(j.took, 1), "evaluations": j.summary.get("evaluations", 0)})
            samples += j.samples
            try:
                with open(j.base + ".sigs") as f:
                    sigs.update(f.read().split())
            except OSError:
                sigs.update(j.summary.get("sig_list", []) if j.summary else [])
        if violations:
            break
    if not violations and not problems and deaths and evaluations < plan.get("min_evaluations", 1):
        # The code under test dies before anything can be observed of this property: no execution bears it out.
        text, src = deaths[0]
        violations.append(("every execution of this property's monitors died: " + text, src))
    known = findings()
    shown, real = set(), []
    for text, src in violations:
        hit = [k for k in known if k[0] == prop and k[1] in text]
        if hit:
            shown.add(hit[0])
        else:
            real.append((text, src))
    for k in sorted(shown):
        print("KNOWN-FINDING: property=%s %s" % (k[0], k[2]))
    counts.pop("foreign", None)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": plan["level"],
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(sigs), "rule": plan["rule"],
            "samples": samples[:12] or ["none"], "observed": counts, "runs": runs[:64],
            "other_divergences": foreign[:5], "inconclusive_parts": problems[:5], "tree": TREE,
        },
        "assumptions": plan["assumptions"], "wall_s": round(time.time() - START, 2), "violations": len(real),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if real:
        text, src = real[0]
        path = write_replay(prop, tier, seed, text, src)
        log(text)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for x in foreign[:5]:
        log("divergence that contradicts other properties only:", x)
    if problems:
        log("\n".join(problems))
        print("INCONCLUSIVE property=%s %s" % (prop, problems[0].splitlines()[0][:300]))
        return 2
    if evaluations < plan.get("min_evaluations", 1) or not sigs:
        print("INCONCLUSIVE property=%s only %d evaluations" % (prop, evaluations))
        return 2
    print("held property=%s evaluations=%d distinct=%d wall=%.1fs" % (prop, evaluations, len(sigs), time.time() - START))
    return 0


def write_replay(prop, tier, seed, text, src):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    rec = {"property": prop, "tier": tier, "seed": seed, "what": text}
    if src:
        j, v = src["job"], src["v"]
        rec["variant"], rec["bin"] = j.spec["variant"], j.spec["bin"]
        if "episode" in v:
            extra = ["--keep", v["keep"]] if v.get("keep") else []
            rec["command"] = j.command(extra, episode=v["episode"])
        else:
            rec["command"] = j.command()
        rec["command"] = [x for x in rec["command"]]
        for flag in ("--progress", "--sigs"):
            if flag in rec["command"]:
                i = rec["command"].index(flag)
                del rec["command"][i:i + 2]
        rec["env_seed"] = j.index + j.seed
        rec["spec"] = {k: v for k, v in j.spec.items()}
    name = "%s-%s-%d-%s.json" % (prop, tier, seed, hashlib.sha256(text.encode()).hexdigest()[:8])
    with open(os.path.join(VERIF, "replays", name), "w") as f:
        json.dump(rec, f, indent=1)
    return "replays/" + name


def replay(path):
    rec = json.load(open(path))
    if "command" not in rec:
        print(rec["what"])
        return 0
    build(rec["variant"], [rec["bin"]])
    cmd = binary(rec["variant"], rec["bin"]) + rec["command"][len(binary(rec["variant"], rec["bin"])):]
    print("+", " ".join(cmd))
    return subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=run_env(rec["spec"], rec["env_seed"])).returncode


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Inconclusive as e:
        log(e)
        sys.exit(2)
