import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import core, geom, region

FACETS = ["kind", "mem", "bnd", "id", "warn", "same", "side"]

def thread_sweep(rng):
    """the same operations under every thread count, on shared operands, in fresh threads and concurrently."""
    o = []
    ops = rng.sample("ABCDEFGHIJKLMX", 3)
    for n in (1, 2, 3, 4, 8):
        o += ["threads %d" % n, "build 1 1 2"]
        for op in ops: o.append("apply 3 1 %s %d" % (op, rng.randrange(2)))
    o += ["newthread 3", "build 1 1 2", "apply 4 1 J 1", "apply 5 1 L 0"]
    for t in (1, 2, 4):
        o.append("par 4 %d 6 1 2 A 1 7 2 1 K 0 8 1 2 J 1 9 1 1 %s 1" % (t, rng.choice("AKLE")))
        o.append("par 3 %d 6 1 3 L 1 7 3 2 A 0 8 2 3 K 1" % t)
    o += ["side 1", "side 3", "build 1 1 2", "apply 3 1 A 1"]
    return o

def body(c):
    c.model("Tagging.tla", "Tagging.cfg")
    c.model("RegionDesign.tla", "RegionDesign.cfg")
    exes = dict(zip(("drv_region_yield", "drv_region_tsan"), core.drivers("drv_region_yield", "drv_region_tsan")))
    progs = core.tlc_generate("RegionGen.tla", "RegionGenThread.cfg", c.pick(120, 1500), 60, c.seed, "PROGRAM")
    mixes = {"tsan": ([("grid", 1, 8), ("open", 1, 3), ("fan", 0, 4), ("poly", 0, 6), ("grid", 2, 2)], "20000"),
             "yield": ([("grid", 1, 12), ("grid", 2, 12), ("open", 1, 6), ("open", 2, 4), ("fan", 0, 8), ("frame", 0, 6), ("poly", 0, 12)], "3000")}
    k = 0
    for rnd in range(c.pick(1, 30)):
        for which, (mix, rate) in mixes.items():
            R = region.Runner(c, FACETS, exe=exes["drv_region_" + which], retries=4,
                              env=dict(core.TSAN_ENV, VH_YIELD=rate, VH_SEED=str(c.seed * 1000 + rnd)))
            sc = []; geom.ORDINARY[0] = 1 if which == "tsan" else .9
            for kind, size, cnt in mix:
                for i in range(cnt):
                    name = "%s.%s%d.%d.%d" % (which, kind, size, rnd, i)
                    w = region.make_world(c.rng, name, kind, size=size)
                    L = region.world_lines(w, c.rng, threads=8)
                    if i % 3 == 0 or which == "tsan": L += thread_sweep(c.rng)
                    if i % 3: L += region.program_lines(progs[k % len(progs)], c.rng); k += 1
                    sc.append((name, L)); c.count("worlds_" + which)
            if rnd == 0: c.sample({"build": which, "world": name, "operands": [len(p.faces) for p in w.prims], "calls": L[-20:]})
            R.run(sc)
            if c.violation: return
        if c.elapsed() > c.pick(420, 780): break
    c.assumptions = ["schedules are sampled: random yields in every basic block, all thread counts, and happens-before race detection (ThreadSanitizer) whose reports are rejected as events the specification does not have",
                     "GMP and MPFR are not instrumented"]
core.main("C05", body)
