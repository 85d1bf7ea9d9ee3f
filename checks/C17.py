import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import core, region

def body(c):
    c.model("Tagging.tla", "Tagging.cfg")
    R = region.Runner(c, ["warn"])
    mix = [("grid", 1, 8), ("grid", 2, 8), ("open", 2, 8), ("open", 1, 6), ("fan", 0, 8), ("frame", 0, 6), ("poly", 0, 12), ("partial", 0, 140)]
    for rnd in range(c.pick(1, 40)):
        sc = []
        for kind, size, cnt in mix:
            for i in range(cnt):
                name = "%s%d.%d.%d" % (kind, size, rnd, i)
                w = region.make_world(c.rng, name, kind, size=size)
                L = region.world_lines(w, c.rng)
                if kind == "partial":
                    for t in c.rng.sample((1, 1, 2, 3, 8, 8), 4): L += ["threads %d" % t, "build 1 1 2", "build 1 2 1", "build 1 1 2"]
                    for t in w.parts: c.count("part_" + t["f"])
                else:
                    L += ["build 1 1 2"]
                    for j, op in enumerate(c.rng.sample("ABCDEFGHIJKLMX", 4)): L.append("apply %d 1 %s 1" % (3 + j, op))
                    L += ["build 1 3 2", "build 1 1 4", "build 1 5 6", "threads 1", "build 1 2 1", "threads 4", "build 1 6 3"]
                sc.append((name, L)); c.count("worlds")
        c.sample({"world": name, "parts": w.parts, "faces": [len(p.faces) for p in w.prims], "calls": L[-12:]})
        R.run(sc)
        if c.violation or c.elapsed() > c.pick(420, 800): break
    c.assumptions = ["whether an operand is separated follows from how the parts of a world are constructed (RegionTrace.tla, Partial intersections)"]
core.main("C17", body)
