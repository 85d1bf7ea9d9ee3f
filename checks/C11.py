import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import core, iorun

def body(c):
    c.model("IoFault.tla", "IoFault.cfg"); c.model("KigumiFileMC.tla", "KigumiFile.cfg"); c.model("TextMeshMC.tla", "TextMesh.cfg")
    exes = core.drivers("drv_io", "drv_io_gmp"); rng = c.rng
    for rnd in range(c.pick(1, 20)):
        for j, exe in enumerate(exes):
            R = iorun.Runner(c, exe, "IoTrace.tla", core.SPEC + "/IoTrace.cfg"); n = lambda q, t: (c.pick(q, t) if j == 0 else c.pick(q, t) // 3)
            sc = [iorun.paths("p%d.%d" % (rnd, j))]
            sc += [iorun.kfault(rng, "kf%d.%d.%d" % (rnd, j, i)) for i in range(n(60, 200))]
            sc += [iorun.kmut(rng, "km%d.%d.%d" % (rnd, j, i)) for i in range(n(4000, 9000))]
            c.count("fault_scenarios", len(sc))
            if j == 0:
                sc += [iorun.tfault(rng, "tf%d.%d" % (rnd, i)) for i in range(c.pick(60, 200))]
                sc += [iorun.tread(rng, "tm%d.%d" % (rnd, i), 1) for i in range(c.pick(5000, 9000))]
                sc += [iorun.tread(rng, "tc%d.%d" % (rnd, i), 2) for i in range(c.pick(1200, 3000))]
            rng.shuffle(sc); c.sample({"script": [l[:300] for l in sc[0][1]]})
            R.run(sc)
        if c.violation or c.elapsed() > c.pick(420, 700): break
    c.assumptions = ["inputs that no conforming writer produces and that the property does not name (bit patterns of infinities, non-canonical numbers, unclear spellings) may be treated either way, but never crash, throw or change the destination on failure"]
core.main("C11", body)
