"""C30: what operations cost, in executed instructions, in small and in large worlds.

Valgrind counts the instructions; the count does not depend on the machine or its load. Each measure is the difference
between two runs of the same scenario, one of which does the operations in addition. An operation whose cost is in proportion
to the population would cost many times more in the large world; those that stay within a small multiple are fine."""
import concurrent.futures, json, os, random, re, resource, shutil, signal, subprocess, threading

ROWS = ["create", "create_other", "destroy", "churn", "remove_entity", "remove_entity_refused", "add", "add_refused", "remove", "remove_refused",
        "there_and_back", "get", "get_group", "get_mut", "get_group_mut", "has", "none"]
SETS = ["get", "get_group", "get_mut", "get_group_mut", "has", "destroy", "add_refused", "remove_refused", "remove_entity_refused", "none"]
ASIDE = ["iterate", "iterate_mut", "iterate_entities", "iterate_entities_mut", "iterate_filtered", "iterate_filtered_out", "iterate_exact", "iterate_exact_mut", "iterate_nothing"]


class Stopped(Exception):
    pass


def scenarios():
    out = []
    for world in ("rows", "wide", "graves"):
        for op in ROWS + (["stale"] if world == "graves" else []):
            for pick in "flr":
                if pick == "r" or op not in ("create", "create_other", "none", "stale"):
                    out.append((world + "/" + op, pick))
    out += [("sets/" + op, "r") for op in SETS]
    out += [("aside/" + op, "r") for op in ASIDE]
    out += [("life/" + op, pick) for op in ("grow", "live") for pick in "flr"]
    return out


def run(prop, tier, seed, work, repo, verif, env):
    res = {"evaluations": 0, "distinct": [], "samples": [], "problems": [], "violations": [], "counts": {"runs_counted": 0, "instructions_counted": 0}}
    crate = os.path.join(work, "cost")
    shutil.rmtree(crate, ignore_errors=True)
    os.makedirs(os.path.join(crate, "src"))
    with open(os.path.join(crate, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "cost"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\nshard-ecs = { path = "%s" }\n' % repo)
    shutil.copy(os.path.join(verif, "tools", "cost", "main.rs"), os.path.join(crate, "src", "main.rs"))
    shutil.copy(os.path.join(verif, "harness", "Cargo.lock"), os.path.join(crate, "Cargo.lock"))
    e = dict(env, CARGO_TARGET_DIR=os.path.join(work, "cost-target"))
    o = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=crate, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if o.returncode:
        res["problems"].append("the scenarios do not build: " + o.stdout[-2000:])
        return res
    exe = os.path.join(work, "cost-target", "release", "cost")
    rnd = random.Random(seed)
    found = threading.Event()
    limit = 40 if tier == "quick" else 100

    def count(op, pick, n, k, s):
        c = ["valgrind", "--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null", exe, op, pick, str(n), str(k), str(s)]
        if found.is_set():
            raise Stopped
        # Processor time, a hundred times what such a run needs; the machine's load does not matter.
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (limit, limit + 5)))
        if r.returncode in (-signal.SIGXCPU, 128 + signal.SIGXCPU):
            return None
        m = re.search(r"I\s+refs:\s+([\d,]+)", r.stderr)
        if r.returncode or not m:
            raise RuntimeError("%s with n=%d, k=%d: %s" % (op, n, k, r.stderr[-600:]))
        res["counts"]["runs_counted"] += 1
        v = int(m.group(1).replace(",", ""))
        res["counts"]["instructions_counted"] += v
        return v

    def measure(op, pick, n, k, s):
        if op.startswith("life/"):
            n, k = 0, n
        a, b = count(op, pick, n, 0, s), count(op, pick, n, k, s)
        return None if a is None or b is None else (b - a) / k

    def judge(job):
        op, pick, small, large, k, s = job
        return job, measure(op, pick, small, k, s), measure(op, pick, large, k, s)

    todo = []
    for op, pick in scenarios():
        for _ in range(1 if tier == "quick" else 4):
            small, large = rnd.randint(600, 1000), rnd.randint(40000, 60000) if tier == "quick" else rnd.randint(60000, 160000)
            if op.startswith("graves/"):
                large = large // 3
            if op.startswith("sets/"):
                small, large = rnd.randint(20, 40), rnd.randint(3000, 4000)
            if op.startswith("life/"):
                large = large // 2
            todo.append((op, pick, small, large, rnd.randint(300, 500), rnd.randint(1, 10**6)))
    rnd.shuffle(todo)
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        fs = [pool.submit(judge, j) for j in todo]
        for f in concurrent.futures.as_completed(fs):
            try:
                (op, pick, small, large, k, s), a, b = f.result()
            except Stopped:
                continue
            except RuntimeError as x:
                res["problems"].append(str(x))
                continue
            res["evaluations"] += 1
            res["distinct"].append("%s|%s|%d" % (op, pick, round(b or 0) // 100))
            if a is not None and (b is None or b > 2 * a + 2000):
                found.set()
            if b is None and a is not None:
                res["violations"].append("%s (%s) costs %d instructions in a world of %d and does not end in one of %d (seed %d)" % (op, pick, a, small, large, s))
            elif a is None:
                res["problems"].append("%s does not end in a world of %d" % (op, small))
            else:
                if len(res["samples"]) < 12 or b > 2 * a + 500:
                    res["samples"].append({"operation": op, "entity": pick, "small": [small, round(a)], "large": [large, round(b)]})
                if b > 2 * a + 2000:
                    res["violations"].append("%s (entity %s): one costs %d instructions in a world of %d, %d in one of %d (seed %d, %d operations)" % (op, pick, a, small, b, large, s, k))
    return res


if __name__ == "__main__":
    import sys, tempfile
    w = tempfile.mkdtemp()
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"
    r = run("C30", "quick", int(os.environ.get("SEED", "1")), w, repo, os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env)
    r["distinct"] = len(r["distinct"])
    print(json.dumps(r, indent=1))
    shutil.rmtree(w)
