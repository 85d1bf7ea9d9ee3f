import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import core, region

def body(c):
    c.model("RegionDesign.tla", "RegionDesign.cfg" if c.quick else "RegionDesign4.cfg")
    R = region.Runner(c, ["valid", "mem", "bnd", "kind"])
    progs = core.tlc_generate("RegionGen.tla", "RegionGenExpr.cfg", c.pick(150, 2000), 60, c.seed, "PROGRAM")
    c.cov["generated_histories"] = len(progs)
    mix = [("grid", 1, 16), ("grid", 2, 16), ("grid", 3, 4), ("open", 2, 8), ("open", 1, 8), ("fan", 0, 12), ("frame", 0, 10), ("poly", 0, 20)]
    k = 0
    for rnd in range(c.pick(1, 40)):
        sc = []
        for kind, size, cnt in mix:
            for i in range(cnt):
                name = "%s%d.%d.%d" % (kind, size, rnd, i)
                w = region.make_world(c.rng, name, kind, size=size)
                L = region.world_lines(w, c.rng)
                if i % 2: L += region.sweep_lines(c.rng)
                L += region.program_lines(progs[k % len(progs)], c.rng); k += 1
                sc.append((name, L)); c.count("worlds")
        c.sample({"world": name, "operands": [{"faces": len(p.faces), "complemented": p.inv} for p in w.prims], "calls": L[-13:]})
        R.run(sc)
        if c.violation or c.elapsed() > c.pick(420, 800): break
    c.assumptions = ["validity of a result boundary is observed by the driver with exact predicates over all pairs of faces",
                     "operands are valid by construction (lib/geom.py)"]
core.main("C04", body)
