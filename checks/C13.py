import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import core, runner, meshes, json, geom

def lines(name, unit, threads, P, F, valid, closed):
    pre = json.dumps({"ev": "defects", "name": name, "valid": valid, "closed": closed, "pts": P, "fs": F}, separators=(",", ":"))[:-1]
    return ["threads %d" % threads, "json " + pre, "defects %d %d %s %d %s" % (unit, len(P), " ".join("%d %d %d" % tuple(p) for p in P), len(F), " ".join("%d %d %d" % tuple(f) for f in F))]

def body(c):
    for m in c.pick(["DefectsMC", "DefectsStar"], ["DefectsMC", "DefectsStar5"]): c.model("DefectsMC.tla", m + ".cfg")
    plain, tsan = core.drivers("drv_mesh", "drv_mesh_tsan"); rng = c.rng
    for rnd in range(c.pick(1, 30)):
        for exe, cnt in ((plain, 1000), (tsan, 120)):
            sc = []
            while len(sc) < cnt:
                P, F, v, cl = meshes.mesh(rng)
                if len(F) > c.pick(22, 40) or max([0] + [abs(x) for p in P for x in p]) > 20: continue
                name = "m%d.%s%d" % (rnd, "t" if exe is tsan else "", len(sc))
                L = ['emit {"ev":"world","name":"%s"}' % name, geom.map_line(rng, .6, True)] + lines(name, rng.choice((1, 1, 1, 3, 7)), rng.choice((1, 2, 3, 8)), P, F, v, cl)
                sc.append((name, L)); c.count("meshes"); c.count("valid_meshes", v)
            c.sample({"script": sc[0][1]})
            runner.Runner(c, exe, "DefectsTrace.tla", core.SPEC + "/DefectsTrace.cfg", retries=4, env=dict(core.TSAN_ENV, VH_YIELD="5000", VH_SEED=str(c.seed + rnd))).run(sc)
        if c.violation or c.elapsed() > c.pick(400, 700): break
    c.assumptions = ["coordinates are small integers or multiples of 1/3 and 1/7 of them, so that the specification computes exactly"]
core.main("C13", body)
