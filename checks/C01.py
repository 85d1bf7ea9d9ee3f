import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import core, region

def body(c):
    c.model("RegionDesign.tla", "RegionDesign.cfg" if c.quick else "RegionDesign4.cfg")
    R = region.Runner(c, ["mem", "bnd"])
    progs = core.tlc_generate("RegionGen.tla", "RegionGenExpr.cfg", c.pick(60, 600), 60, c.seed, "PROGRAM")
    mix = [("grid", 1, 14), ("grid", 2, 12), ("grid", 3, 5), ("open", 2, 10), ("open", 1, 6), ("fan", 0, 14), ("frame", 0, 8), ("poly", 0, 16)]
    for rnd in range(c.pick(2, 30)):
        sc = []
        for kind, size, cnt in mix:
            for i in range(cnt):
                name = "%s%d.%d.%d" % (kind, size, rnd, i)
                w = region.make_world(c.rng, name, kind, size=size)
                L = region.world_lines(w, c.rng)
                L += region.sweep_lines(c.rng)
                if i % 3 == 0: L += region.program_lines(progs[(rnd * 37 + i) % len(progs)], c.rng)
                sc.append((name, L))
                c.count("worlds")
        c.sample({"world": name, "operands": [{"faces": len(p.faces), "complemented": p.inv} for p in w.prims],
                  "membership_samples": len(w.P), "boundary_samples": len(w.Q), "map": str(w.M), "calls": L[-34:-28]})
        R.run(sc)
        if c.violation or c.elapsed() > c.pick(420, 800): break
    c.assumptions = ["operand meshes and exact membership tables come from lib/geom.py (exact rational arithmetic)",
                     "the driver's observation of a result boundary (ray parity with exact predicates, face coverage) is trusted"]
core.main("C01", body)
