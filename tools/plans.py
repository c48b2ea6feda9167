"""What each check runs."""

HIST = ("An evaluation is one comparison of an operation's outcome, a read, a presence query, an enumeration or a whole "
        "iteration with the reference model. Distinct: hash of the kind of comparison, component/group, relation of the group to the "
        "entity, size class of the world and outcome, unified over all workers.")
LOW = ("An evaluation is one comparison of an observation with the reference (bit-set algebra, map, vector of rows, reference hash). "
       "Distinct: hash of the operation with its size class, component set, position and outcome, unified over all workers.")
FAULT = ("An evaluation is one comparison with the reference model before, at or after an injected fault. Every fault position of an "
         "episode's operations is enumerated by forking the process there (see observed.faults). Distinct: hash of comparison kind, component/group, "
         "relation, size class and outcome, unified over all workers.")
THREADS = ("An evaluation is one value, row or presence answer that a thread observed and compared with the single-threaded model. Distinct: hash of "
           "scenario, number of threads and state of the registries, unified over all workers; interleavings are added by Miri seeds and the scheduler.")
LIMITS = ("An evaluation is one comparison of a call's outcome, an entity, a row or a presence answer with the model while a world grows to, crosses "
          "and returns from a limit of the crate. Distinct: hash of the kind of comparison, component set, relation to the limit and outcome, "
          "unified over all workers.")
LIFE = ("An evaluation compares the bytes and the number of requests a registry made in its life so far with what its history justifies, every 64 "
        "operations. Distinct: hash of the length of the history, the bytes and the largest population, unified over all workers.")
TWINS = ("An evaluation compares what one operation, and the observation after it if there is one, returns from a registry and from its undisturbed or "
         "disturbed twin. Distinct: hash of the operation, its result's size class and the number of things seen, unified over all workers.")
COST = ("An evaluation compares what an operation costs, in instructions counted by Valgrind (the difference of two runs of which one does the operation some "
        "hundred times more), in a small and in a large world. Distinct: the kind of world, the operation, the choice of entities and the cost in hundreds.")
DERIVE = ("An evaluation is one comparison of a name, identifier, descriptor or registry event of a derived component with the one implemented by hand. "
          "Distinct: text of the generated definition.")
ASSUME = ["Component types have distinct identifiers, at most 65,535 bytes and alignment at most 32,768.",
          "The safe public API is used; low-level modules only within their documented contracts."]

# Histories which are also run over columns of more than 2 and 4 GiB.
GIGABYTES = {1, 3, 4, 7, 17, 22, 25}
HISTORIES = {1, 2, 3, 4, 5, 6, 8, 11, 21, 22, 23, 24, 25, 26, 27}


def jobs(bin, variant, workers, seconds, **kw):
    return dict(bin=bin, variant=variant, workers=workers, seconds=seconds, **kw)


def plan(prop, tier):
    n = int(prop[1:])
    deep = tier == "thorough"
    p = {"level": "exploration", "rule": HIST, "assumptions": ASSUME, "stages": [], "min_evaluations": 1000}
    if n in HISTORIES:
        s = 600 if deep else 40
        stage = [jobs("core", "dev", 5, s), jobs("core", "rel", 3, s)]
        p["stages"].append(stage)
        if n == 27:
            stage += [jobs("limits", "rel", 2, s), jobs("limits", "dev", 1, s)]
    elif n in (12, 13):
        s = 900 if deep else 50
        p["level"] = "fault_enumeration"
        p["rule"] = FAULT
        p["stages"].append([jobs("core", "dev", 5, s), jobs("core", "rel", 3, s)])
    elif n in (15, 16, 17, 18, 19):
        s = 600 if deep else 40
        p["rule"] = LOW
        p["stages"].append([jobs("low", "dev", 4, s), jobs("low", "rel", 4, s)])
    elif n == 7:
        s = 900 if deep else 70
        p["rule"] = HIST + " Under sanitizers each executed operation is also checked by the sanitizer; a report is a violation. The hostile programs count one each: refused by the compiler, or run under Miri."
        p["stages"].append([
            dict(module="hostile", fn="run"),
            jobs("lean", "miri", 3 if not deep else 4, s, scale="tiny", grace=240),
            jobs("core", "asan", 2, s), jobs("low", "asan", 1, s),
            jobs("core", "dev", 1, s), jobs("low", "rel", 1, s),
        ])
        if deep:
            p["stages"].append([
                jobs("core", "miri", 5, s, scale="tiny", grace=600), jobs("low", "miri", 2, s, scale="tiny", grace=600),
                jobs("lean", "asan", 1, s, leaks=1),
            ])
    elif n == 14:
        s = 600 if deep else 50
        p["rule"] = THREADS
        p["stages"].append([
            jobs("threads", "tsan", 2, s, san=["C14"]), jobs("threads", "rel", 1, s, san=["C14"]),
            jobs("threads", "miri", 4, s, scale="tiny", grace=240, san=["C14"]),
        ])
    elif n == 9:
        s = 600 if deep else 60
        p["rule"] = LIMITS
        p["min_evaluations"] = 100
        p["stages"].append([jobs("limits", "dev", 1, s, args=["--mode", str(m)], episode_cpu=400, grace=200) for m in range(4)]
                           + [jobs("limits", "rel", 1, s, args=["--mode", str(m)], episode_cpu=400, grace=200) for m in range(4)])
    elif n == 10:
        s = 600 if deep else 40
        p["rule"] = LIMITS
        p["min_evaluations"] = 100
        p["stages"].append([jobs("limits", v, 2, s, args=["--mode", str(m)]) for v in ("dev", "rel") for m in (0, 1)])
    elif n in (28, 29):
        s = 600 if deep else 40
        p["rule"] = LIFE if n == 28 else TWINS
        p["stages"].append([jobs("limits", "dev", 4, s), jobs("limits", "rel", 4, s)])
    elif n == 30:
        p["rule"] = COST
        p["min_evaluations"] = 100
        p["stages"].append([dict(module="cost", fn="run")])
    elif n == 20:
        p["rule"] = DERIVE
        p["stages"].append([dict(module="derive", fn="run", kw=dict(count=150, batches=40 if deep else 3))])
    if n in GIGABYTES:
        p["stages"][0].append(jobs("limits", "dev" if n in (1, 7, 17) else "rel", 1, s // 2, episode_cpu=400, grace=200))
    return p
