import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import core, region, runner, soups

def body(c):
    c.model("SoupLife.tla", "SoupLife.cfg" if c.quick else "SoupLife3.cfg")
    plain, tsan, _ = core.drivers("drv_soup", "drv_soup_tsan", "drv_region")
    cfg = core.SPEC + "/SoupTrace.cfg"
    progs = core.tlc_generate("SoupLife.tla", "SoupGen.cfg", c.pick(400, 6000), 60, c.seed, "PROGRAM")
    regs = core.tlc_generate("RegionGen.tla", "RegionGenValue.cfg", c.pick(60, 900), 60, c.seed, "PROGRAM")
    k = 0
    for rnd in range(c.pick(1, 12)):
        for exe, cnt in ((plain, 300), (tsan, 80)):
            R = runner.Runner(c, exe, "SoupTrace.tla", cfg, retries=4, env=dict(core.TSAN_ENV, VH_YIELD="2000", VH_SEED=str(c.seed + rnd)))
            sc = []
            for i in range(cnt):
                name = "p%d.%d" % (rnd, i)
                L = ['emit {"ev":"world","name":"%s"}' % name, "unit 1"] + soups.axes(c.rng) + ["threads %d" % c.rng.choice((1, 2, 4))]
                if exe is tsan:    # cold caches read by several threads at once
                    L += [soups.make(c.rng, 7, c.rng.randrange(1, 12), 4, "any"), "par 7 4 4 %d 4" % i, "copy 8 7", "par 8 3 3 %d 4" % i]
                L += soups.program(progs[k % len(progs)], c.rng); k += 1
                sc.append((name, L)); c.count("programs")
            if rnd == 0: c.sample({"program": L[:30]})
            R.run(sc)
        # regions as values: copies, assignments, moves, reloads, with operators and point location between
        RR = region.Runner(c, ["kind", "mem", "bnd", "id", "side"])
        sc = []
        for kind, size, cnt in (("grid", 1, 8), ("grid", 2, 6), ("poly", 0, 8), ("open", 1, 4)):
            for i in range(cnt):
                name = "%s%d.%d.%d" % (kind, size, rnd, i)
                w = region.make_world(c.rng, name, kind, size=size)
                L = region.world_lines(w, c.rng)
                for _ in range(2): L += region.program_lines(regs[k % len(regs)], c.rng); k += 1
                sc.append((name, L)); c.count("region_worlds")
        RR.run(sc)
        if c.violation or c.elapsed() > c.pick(420, 780): break
    c.assumptions = ["the content of a moved-from object is not specified; what it shows is what its queries must answer for"]
core.main("C20", body)
