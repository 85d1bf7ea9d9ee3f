import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import core, runner, itertools

def subsets(n, extra=()):
    xs = list(range(1, n + 1)) + list(extra)
    return [s for k in range(len(xs) + 1) for s in itertools.combinations(xs, k)]

def body(c):
    c.model("ParallelDo.tla", c.pick("ParallelDo.cfg", "ParallelDo4.cfg"))
    rng = c.rng; cfg = core.SPEC + "/LoopTrace.cfg"
    yexe, texe = core.drivers("drv_loop_yield", "drv_loop_tsan")
    try: sexe = core.drivers("drv_loop_sched")
    except core.CheckError as e:
        sexe = None; c.log("note: the loop cannot be put under the controlled scheduler: %s" % str(e)[:300]); c.count("uncontrolled")
    def lines(name, confs):
        return (name, ['emit {"ev":"world","name":"%s"}' % name] + ["cfg %d %d %d %d %s %s %d %d %d" % (n, t, st, len(thr), " ".join(map(str, thr)), m, b, pb, seed)
                for n, t, st, thr, m, b, pb, seed in confs])
    # every interleaving of small loops with up to `bound` preemptions; every set of throwing elements; random schedules of larger ones
    sc = []
    if sexe:
        for n in range(0, 5):
            for t in range(1, 4):
                for st in (0, 1):
                    for thr in subsets(n, (100,) if st and n else ()):
                        if n >= 4 and len(thr) not in (0, 1, n) and c.quick: continue
                        big = n * min(t, n)
                        sc.append(lines("dfs%d.%d.%d.%s" % (n, t, st, "_".join(map(str, thr))), [(n, t, st, thr, "dfs", c.pick(2500, 60000), c.pick(2 if big <= 4 else 1, 3 if big <= 6 else 2), 0)]))
        for i in range(c.pick(60, 1500)):
            n = rng.randrange(2, 9); t = rng.randrange(2, 6); st = rng.randrange(2)
            thr = rng.sample(range(1, n + 1), rng.choice((0, 0, 1, 1, 2, n))) + ([100] if st and rng.random() < .15 else [])
            sc.append(lines("rnd%d" % i, [(n, t, st, thr, "random", c.pick(150, 400), 0, rng.randrange(1 << 30))]))
        rng.shuffle(sc)
        c.count("controlled_configurations", len(sc)); c.sample({"script": sc[0][1]})
        class R1(runner.Runner):
            def judge(self, s, o, rc, err):
                try: last = open(o).read().rsplit("\n", 2)[-2]
                except (OSError, IndexError): last = ""
                if last.startswith('{"ev":"end"'):
                    import json; e = json.loads(last); c.count("controlled_runs", e["runs"]); c.count("distinct_behaviours", e["uniq"])
                return super().judge(s, o, rc, err)
        try: R1(c, sexe, "LoopTrace.tla", cfg).run(sc, chunks=c.pick(8, 32))
        except core.CheckError as e:
            if "cannot control" not in str(e): raise
            c.log("note: " + str(e)); c.count("uncontrolled")
    # free-running threads: perturbed, and under the race detector
    for rnd in range(c.pick(1, 6)):
        for exe, k, env in ((yexe, "free", {}), (yexe, "sum", {}), (texe, "sum", core.TSAN_ENV), (yexe, "bulk", {})):
            sc = []
            for i in range(c.pick(40, 120)):
                n = rng.choice((0, 1, 2, 3, 5, 8, 20, 60)) if k == "free" else rng.choice((0, 1, 2, 3, 10, 100, 700)) if k == "sum" else rng.choice((100, 255, 1000, 4096, 10000, 32768, 65535, 100003)) + rng.choice((0, 0, 1, 5, 7))
                t = rng.randrange(1, 9); st = rng.randrange(2)
                thr = rng.sample(range(1, n + 1), min(n, rng.choice((0, 0, 0, 1, 1, 2, 5)))) + ([100] if n and st and k != "bulk" and rng.random() < .1 else [])
                sc.append(lines("%s%d.%d" % (k, rnd, i), [(n, t, st, thr, k, {"free": 6, "sum": 15, "bulk": 2}[k], 0, 0)]))
            c.count("free_configurations", len(sc))
            runner.Runner(c, exe, "LoopTrace.tla", cfg, retries=6, env=dict(env, VH_YIELD=rng.choice(("3000", "20000", "60000")), VH_SEED=str(c.seed + rnd))).run(sc)
        if c.violation or c.elapsed() > 700: break
    c.assumptions = ["the controlled scheduler switches threads at operations on std::thread, std::mutex, std::atomic and std::barrier and at marked points of the bodies (sequentially consistent); unsynchronised accesses are left to the race detector runs"]
core.main("C06", body)
