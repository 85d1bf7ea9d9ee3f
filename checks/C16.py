import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import core, runner, meshes, json

def case(rng, name, threads, n, F, nq):
    sides = [(f[k], f[(k + 1) % 3]) for f in F for k in range(3) if f[k] != f[(k + 1) % 3]]
    bs = [s if rng.random() < .5 else s[::-1] for s in rng.sample(sides, min(len(sides), rng.choice((0, 0, 1, 2, 5, len(sides) // 3))))]
    qe = [s if rng.random() < .5 else s[::-1] for s in (sides if len(sides) <= nq else rng.sample(sides, nq))]
    qe += [(rng.randrange(n), rng.randrange(n)) for _ in range(nq // 3)] if n else []
    qe = [(a, b) for a, b in qe if a != b]
    if n > 1: qe += [(n - 1, 0), (0, n - 1)]
    qf = list(range(len(F))) if len(F) <= nq else rng.sample(range(len(F)), nq)
    pre = json.dumps({"ev": "topo", "name": name, "fs": F, "bs": bs, "qe": qe, "qf": qf}, separators=(",", ":"))[:-1]
    j = lambda xs: " ".join(" ".join(map(str, x)) for x in xs)
    return (name, ['emit {"ev":"world","name":"%s"}' % name, "threads %d" % threads, "json " + pre,
                   "topo %d %d %s %d %s %d %s %d %s" % (n, len(F), j(F), len(bs), j(bs), len(qe), j(qe), len(qf), " ".join(map(str, qf)))])

def big(rng, nf):
    """many faces: a grid, a few busy vertices, or anything, with unused vertices anywhere."""
    k = rng.randrange(3)
    if k == 0:
        w = int((nf / 2) ** .5) + 1; F = []
        for i in range(w):
            for j in range(w):
                a, b, c, d = i * (w + 1) + j, (i + 1) * (w + 1) + j, (i + 1) * (w + 1) + j + 1, i * (w + 1) + j + 1; F += [(a, b, c), (a, c, d)]
        n = (w + 1) ** 2
    else:
        n = rng.choice((6, 40, nf // 2, nf * 2)); F = [tuple(rng.sample(range(n), 3)) for _ in range(nf)]
    m = n + rng.choice((0, 1, 7)); names = list(range(m)); rng.shuffle(names) if rng.random() < .7 else None
    F = [tuple(names[v] for v in f) for f in F]; rng.shuffle(F)
    return m, F

def body(c):
    c.model("MeshTopologyMC.tla", c.pick("MeshTopology.cfg", "MeshTopology3.cfg"))
    plain, tsan = core.drivers("drv_mesh", "drv_mesh_tsan"); rng = c.rng
    cfg = core.SPEC + "/MeshTopologyTrace.cfg"
    for rnd in range(c.pick(1, 20)):
        sc = []
        for i in range(1500):
            name = "m%d.%d" % (rnd, i)
            if rng.random() < .5: P, F, _, _ = meshes.mesh(rng); n = len(P)
            else:
                n = rng.randrange(1, 9); F = [tuple(rng.randrange(n) for _ in range(3)) for _ in range(rng.randrange(0, 10))]
                if rng.random() < .7: F = [f for f in F if len(set(f)) == 3]
            sc.append(case(rng, name, rng.choice((1, 2, 5)), n, F, 60)); c.count("meshes"); c.count("faces", len(F))
        c.sample({"script": sc[0][1]})
        runner.Runner(c, plain, "MeshTopologyTrace.tla", cfg).run(sc)
        for exe, cnt in ((plain, c.pick(16, 60)), (tsan, 8)):
            sc = [case(rng, "b%d.%d%s" % (rnd, i, "t" if exe is tsan else ""), rng.randrange(2, 9), *big(rng, rng.choice((300, 700, 1100, 1400, 2800, 3500))), 40) for i in range(cnt)]
            c.count("large_meshes", cnt)
            runner.Runner(c, exe, "MeshTopologyTrace.tla", cfg, retries=4, env=dict(core.TSAN_ENV, VH_YIELD="20000", VH_SEED=str(c.seed + rnd))).run(sc)
        if c.violation or c.elapsed() > c.pick(400, 700): break
core.main("C16", body)
