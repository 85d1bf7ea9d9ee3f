import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import core, runner, json

SIZES = [0, 1, 2, 3, 17, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 2050, 3071, 3072, 3073, 4095, 4096, 4097, 5119, 5121, 6145, 7169, 7170, 8193, 9000]
class R1(runner.Runner):
    hide = ("inp", "out", "ids")
    def judge(self, s, o, rc, err):
        try: last = open(o).read().rsplit("\n", 2)[-2]
        except (OSError, IndexError): last = ""
        if last.startswith('{"ev":"end"'):
            e = json.loads(last); self.c.count("runs", e["runs"]); self.c.count("distinct_results", e["uniq"])
        return super().judge(s, o, rc, err)

def body(c):
    c.model("ParallelSort.tla", c.pick("ParallelSort.cfg", "ParallelSort5.cfg"))
    rng = c.rng; cfg = core.SPEC + "/SortTrace.cfg"
    yexe, texe = core.drivers("drv_sort_yield", "drv_sort_tsan")
    try: sexe = core.drivers("drv_sort_sched")
    except core.CheckError as e:
        sexe = None; c.log("note: the sort cannot be put under the controlled scheduler: %s" % str(e)[:300]); c.count("uncontrolled")
    def scen(i, mode, budget, bound=0, n=None, t=None):
        n = rng.choice(SIZES) + rng.choice((0, 0, 0, 1, 5)) if n is None else n
        t = rng.randrange(1, 9) if t is None else t
        name = "%s%s" % (mode, i)
        return (name, ['emit {"ev":"world","name":"%s"}' % name, "srt %d %d %s %s %s %d %s %d %d" % (n, t,
                rng.choice(("less", "less", "def", "greater", "mod", "same", "rev")), rng.choice(("rand", "rand", "few", "asc", "desc", "organ", "last", "saw")),
                rng.choice(("vector", "deque")), rng.randrange(1 << 30), mode, budget, bound)])
    if sexe:
        sc = [scen("%d.%d" % (n, t), "dfs", c.pick(400, 6000), c.pick(1, 2), n, t) for n in (1500, 2049, 3073, 3500, 4097, 5121, 6150) for t in (2, 3, 4, 5, 6, 8)]
        sc += [scen(i, "random", c.pick(60, 500), n=rng.randrange(1025, 9000), t=rng.randrange(2, 9)) for i in range(c.pick(60, 600))]
        rng.shuffle(sc); c.count("controlled_configurations", len(sc)); c.sample({"script": sc[0][1]})
        try: R1(c, sexe, "SortTrace.tla", cfg).run(sc, chunks=c.pick(8, 32))
        except core.CheckError as e:
            if "cannot control" not in str(e): raise
            c.log("note: " + str(e)); c.count("uncontrolled")
    for rnd in range(c.pick(1, 8)):
        for exe, env, cnt in ((yexe, {}, 120), (texe, core.TSAN_ENV, 60)):
            sc = [scen("%d.%d" % (rnd, i), "free" if exe is yexe else "tsan", 2) for i in range(cnt)]
            if rnd == 0: sc += [scen("s%d.%d" % (n, t), "free" if exe is yexe else "tsan", 1, 0, n, t) for n in SIZES for t in (1, 2, 3, 5, 7, 8)]
            c.count("free_configurations", len(sc))
            R1(c, exe, "SortTrace.tla", cfg, retries=6, env=dict(env, VH_YIELD="20000", VH_SEED=str(c.seed + rnd))).run(sc)
        if c.violation or c.elapsed() > 700: break
    c.assumptions = ["comparators are strict weak orders that do not throw", "std::sort and std::inplace_merge of the standard library are correct on disjoint ranges"]
core.main("C07", body)
