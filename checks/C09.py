import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import core, region, geom
from fractions import Fraction as Fr

def ties(w, rng, n):
    """points aligned with vertices, edges and face planes of the operands: rays towards them are ambiguous."""
    vs = [v for p in w.prims for v in p.verts]
    fs = [(p, f) for p in w.prims for f in p.faces]
    for _ in range(n):
        m = rng.randrange(5)
        a, b = rng.choice(vs), rng.choice(vs)
        if m == 0: p = tuple(rng.choice((a, b))[k] for k in range(3)); p = (a[0], b[1], p[2])
        elif m == 1: t = Fr(rng.randrange(-8, 17), 8); p = geom.add(a, geom.mul(geom.sub(b, a), t))
        elif m == 2:
            pr, f = rng.choice(fs); s, t = Fr(rng.randrange(-4, 9), 4), Fr(rng.randrange(-4, 9), 4)
            x, y, z = (pr.verts[v] for v in f)
            p = geom.add(x, geom.add(geom.mul(geom.sub(y, x), s), geom.mul(geom.sub(z, x), t)))
        elif m == 3:
            pr, f = rng.choice(fs); x, y, z = (pr.verts[v] for v in f)
            ctr = geom.mul(geom.add(x, geom.add(y, z)), Fr(1, 3)); t = Fr(rng.randrange(-8, 25), 8)
            p = geom.add(a, geom.mul(geom.sub(ctr, a), t))
        else: p = tuple(Fr(rng.randrange(-9, 10), rng.choice((1, 2, 3, 7))) for _ in range(3))
        if w.clip and not all(w.clip[0][0][k] < p[k] < w.clip[1][0][k] for k in range(3)): continue   # open boundaries: inside the clipping region only
        w.add_point(p)

def body(c):
    c.model("PointSide.tla", "PointSide.cfg")
    R = region.Runner(c, ["side"])
    progs = core.tlc_generate("RegionGen.tla", "RegionGenValue.cfg", c.pick(60, 800), 60, c.seed, "PROGRAM")
    mix = [("grid", 1, 12), ("grid", 2, 14), ("grid", 3, 4), ("open", 2, 8), ("open", 1, 6), ("fan", 0, 8), ("frame", 0, 12), ("poly", 0, 16)]
    k = 0
    for rnd in range(c.pick(1, 40)):
        sc = []
        for kind, size, cnt in mix:
            for i in range(cnt):
                name = "%s%d.%d.%d" % (kind, size, rnd, i)
                w = region.make_world(c.rng, name, kind, size=size)
                ties(w, c.rng, 60)
                c.count("points", len(w.P) + len(w.Q))
                L = region.world_lines(w, c.rng) + ["side 1", "side 2", "build 1 1 2"]
                for j, op in enumerate(c.rng.sample("ABCDEFGHIJKLMXO", 4)): L += ["apply %d 1 %s 1" % (3 + j, op), "side %d" % (3 + j)]
                if i % 3 == 0: L += ["special 8 E", "side 8", "special 8 F", "side 8", "side 1"]
                L += region.program_lines(progs[k % len(progs)], c.rng) + ["side 1"]; k += 1
                sc.append((name, L)); c.count("worlds")
        c.sample({"world": name, "points": len(w.P), "boundary points": len(w.Q), "calls": L[-14:]})
        R.run(sc)
        if c.violation or c.elapsed() > c.pick(420, 800): break
    c.assumptions = ["membership of a sample point comes from its exact side of every operand plane (lib/geom.py)"]
core.main("C09", body)
