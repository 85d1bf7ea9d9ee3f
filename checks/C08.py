import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import core, runner, soups

def queries(rng, o, R, nb, nr):
    L = []
    for _ in range(nb):
        m = rng.randrange(4)
        a = [rng.randrange(-R - 1, R + 2) for _ in range(3)]
        w = (0, 1, 2, 3 * R)[m]
        L.append("box %d %d %d %d %d %d %d" % tuple([o] + a + [x + rng.randrange(0, w + 1) for x in a]))
    for _ in range(nr):
        p = tuple(rng.randrange(-R - 2, R + 3) for _ in range(3))
        d = (0, 0, 0)
        while d == (0, 0, 0):
            d = tuple(rng.randrange(-3, 4) if rng.random() < .6 else 0 for _ in range(3)) if rng.random() < .5 else tuple(rng.randrange(-R, R + 1) - p[k] for k in range(3))
        L.append("ray %d %d %d %d %d %d %d" % ((o,) + p + d))
    return L

def body(c):
    c.model("AabbTree.tla", "AabbTree.cfg")
    c.model("AabbTree.tla", "AabbTreeWide.cfg" if c.quick else "AabbTreeDeep.cfg")
    plain, tsan = core.drivers("drv_soup", "drv_soup_tsan")
    styles = ["any", "small", "same", "line", "flat", "shared"]
    for rnd in range(c.pick(1, 20)):
        for exe, cnt, big in ((plain, c.pick(220, 300), (40, 120)), (tsan, 24, (20, 60))):
            R = runner.Runner(c, exe, "SoupTrace.tla", core.SPEC + "/SoupTrace.cfg", retries=4, env=dict(core.TSAN_ENV, VH_YIELD="5000", VH_SEED=str(c.seed + rnd)))
            sc = []
            for i in range(cnt):
                name = "t%d.%d" % (rnd, i); st = styles[i % len(styles)]
                n = (i // len(styles)) if exe is plain and i < 24 * len(styles) else c.rng.randrange(*big)
                Rg = c.rng.choice((2, 4, 8)); u = c.rng.choice((1, 1, 3))
                L = ['emit {"ev":"world","name":"%s"}' % name, "unit %d" % u] + soups.axes(c.rng) + ["snap 0", "threads %d" % c.rng.choice((1, 2, 3, 4, 8)), soups.make(c.rng, 1, n, Rg, st)]
                mk = len(L) - 1; L += queries(c.rng, 1, Rg, 10, 12 if n < 60 else 6)
                n2 = c.rng.randrange(0, 14)
                L.append(soups.make(c.rng, 2, n2, Rg, c.rng.choice(styles)))
                nn = [int(x.split()[3]) for x in (L[mk], L[-1])]
                for a, b in ((1, 2), (2, 1)):
                    ks = [c.rng.sample(range(nn[x - 1]), c.rng.randrange(0, nn[x - 1] // 2 + 1)) if c.rng.random() < .5 else [] for x in (a, b)]
                    L.append("pairs %d %d %s" % (a, b, " ".join("%d %s" % (len(q), " ".join(map(str, q))) for q in ks)))
                L += queries(c.rng, 1, Rg, 2, 2)
                sc.append((name, L)); c.count("collections"); c.count("faces", n + n2)
            if rnd == 0: c.sample({"collection": L[mk][:300], "queries": L[mk+1:mk+8]})
            R.run(sc)
        # large collections: deep trees and all fork depths
        R = runner.Runner(c, plain, "SoupTrace.tla", core.SPEC + "/SoupTrace.cfg")
        sc = []
        for i in range(c.pick(8, 16)):
            n = c.rng.randrange(500, 3000); st = ("small", "same", "small", "line")[i % 4]
            L = ['emit {"ev":"world","name":"large%d.%d"}' % (rnd, i), "unit 1"] + soups.axes(c.rng) + ["snap 0", "threads %d" % (1, 2, 4, 8, 3, 5, 7, 6)[i % 8], soups.make(c.rng, 1, n, 12, st)]
            L += queries(c.rng, 1, 12, 8, 5); c.count("collections"); c.count("faces", n)
            sc.append(("large%d.%d" % (rnd, i), L))
        R.run(sc)
        if c.violation or c.elapsed() > c.pick(420, 780): break
    c.assumptions = ["coordinates are small multiples of 1 or 1/3, so the specification's integer geometry is exact; rays must report every non-degenerate face they meet"]
core.main("C08", body)
