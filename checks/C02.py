import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import core, region, geom

def special_lines(rng):
    """every operator with the special operands on either side, and expressions that pass through special values."""
    o = ["special 3 E", "special 4 F"]
    for x, y in ((3, 1), (1, 3), (4, 1), (1, 4), (3, 4), (4, 3), (3, 3), (4, 4)):
        o.append("build 1 %d %d" % (x, y))
        for op in "VABCDEFGHIJKLMXO": o.append("apply 5 1 %s %d" % (op, rng.randrange(2)))
    # A op complement(A) and A op A, through results
    o += ["build 1 1 1", "apply 6 1 F 1"]
    for x, y in ((1, 6), (6, 1), (1, 1), (6, 6)):
        o.append("build 1 %d %d" % (x, y))
        for op in "VABCDEFGHIJKLMXO": o.append("apply 5 1 %s %d" % (op, rng.randrange(2)))
    # a special result used again
    o += ["build 1 1 6", "apply 7 1 K 1", "apply 8 1 A 0", "build 1 7 2", "apply 5 1 A 1", "apply 9 1 C 0", "build 1 9 8",
          "apply 5 1 J 1", "build 1 2 8", "apply 5 1 L 1", "apply 5 1 J 0", "build 1 5 2", "apply 5 1 X 0", "apply 5 1 K 1", "apply 5 1 D 1"]
    return o

def body(c):
    c.model("RegionDesign.tla", "RegionDesign.cfg" if c.quick else "RegionDesign4.cfg")
    R = region.Runner(c, ["kind"])
    progs = core.tlc_generate("RegionGen.tla", "RegionGenExpr.cfg", c.pick(60, 600), 60, c.seed, "PROGRAM")
    for rnd in range(c.pick(1, 30)):
        sc = []
        for kind, size, cnt, kw in (("grid", 1, 12, dict(same_p=1, comp_p=.5)), ("grid", 2, 12, dict(same_p=1, comp_p=.5)), ("grid", 2, 12, {}),
                                ("grid", 3, 6, dict(same_p=1, comp_p=.3)), ("open", 1, 8, {}), ("open", 2, 6, {}), ("fan", 0, 10, {}), ("frame", 0, 6, {}), ("poly", 0, 12, {})):
            for i in range(cnt):
                name = "%s%d.%d.%d.%d" % (kind, size, len(kw), rnd, i)
                w = region.make_world(c.rng, name, kind, size=size, **kw) if kind == "grid" else region.make_world(c.rng, name, kind, size=size)
                L = region.world_lines(w, c.rng) + region.sweep_lines(c.rng)
                if i % 2 == 0: L += special_lines(c.rng)
                else: L += region.program_lines(progs[(rnd * 37 + i) % len(progs)], c.rng)
                sc.append((name, L)); c.count("worlds")
        c.sample({"world": name, "operands": [{"faces": len(p.faces), "complemented": p.inv} for p in w.prims], "calls": L[-40:-20]})
        R.run(sc)
        if c.violation or c.elapsed() > c.pick(420, 800): break
    c.assumptions = ["the kind of a result is determined by exact membership of one sample per cell of the operands' arrangement (grid worlds); in the other worlds by algebra or by samples"]
core.main("C02", body)
