import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import core, region

def chain_lines(rng):
    """ids through chains: a result is combined again with an operand, copied, saved and loaded, and used once more."""
    o = ["build 1 1 2"]
    for op, r in (("A", 3), ("L", 4), ("J", 5), ("K", 6)): o.append("apply %d 1 %s %d" % (r, op, rng.randrange(2)))
    o += ["copy 7 3", "reload 8 4", "assign 9 5"]
    for x, y in ((3, 1), (8, 2), (2, 7), (9, 6), (5, 3)):
        o.append("build 1 %d %d" % (x, y))
        for op in rng.sample("ABCDEFGHIJKLMX", 5): o.append("apply 10 1 %s %d" % (op, rng.randrange(2)))
    return o

def body(c):
    c.model("RegionDesign.tla", "RegionDesign.cfg" if c.quick else "RegionDesign4.cfg")
    R = region.Runner(c, ["id", "bnd"])
    mix = [("grid", 1, 16, {}), ("grid", 1, 8, dict(same_p=1, comp_p=.5)), ("grid", 2, 14, {}), ("grid", 2, 8, dict(same_p=1, comp_p=.5)), ("grid", 3, 4, {}),
           ("open", 2, 8, {}), ("open", 1, 8, {}), ("fan", 0, 10, {}), ("frame", 0, 8, {}), ("poly", 0, 14, {})]
    for rnd in range(c.pick(1, 30)):
        sc = []
        for kind, size, cnt, kw in mix:
            for i in range(cnt):
                name = "%s%d.%d.%d.%d" % (kind, size, len(kw), rnd, i)
                w = region.make_world(c.rng, name, kind, size=size, **kw)
                L = region.world_lines(w, c.rng) + region.sweep_lines(c.rng)
                if i % 3 == 0: L += region.sweep_lines(c.rng, x=2, y=1)
                if i % 2 == 0: L += chain_lines(c.rng)
                sc.append((name, L)); c.count("worlds")
        c.sample({"world": name, "operands": [{"faces": len(p.faces), "complemented": p.inv} for p in w.prims], "calls": L[-12:]})
        R.run(sc)
        if c.violation or c.elapsed() > c.pick(420, 800): break
    c.assumptions = ["every operand face has its own data id; boundary samples lie in the interior of operand faces",
                     "the driver's test that a result face lies within the source triangle of its id is exact (kernel predicates)"]
core.main("C03", body)
