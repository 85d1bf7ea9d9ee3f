import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import core, iorun, region

def body(c):
    c.model("KigumiFileMC.tla", "KigumiFile.cfg")
    exes = core.drivers("drv_io", "drv_io_gmp"); core.drivers("drv_region"); rng = c.rng
    for rnd in range(c.pick(1, 20)):
        for j, exe in enumerate(exes):      # builds with different number types have to agree on the format
            R = iorun.Runner(c, exe, "IoTrace.tla", core.SPEC + "/IoTrace.cfg")
            sc = [iorun.kwrite(rng, "w%d.%d.%d" % (rnd, j, i)) for i in range(c.pick(700, 1500))]
            sc += [iorun.kwrite(rng, "x%d.%d.%d" % (rnd, j, i), kinds=("wild", "exact")) for i in range(c.pick(300, 600))]
            sc += [iorun.kread(rng, "r%d.%d.%d" % (rnd, j, i)) for i in range(c.pick(500, 1000))]
            sc += [iorun.kwrite(rng, "b%d.%d.%d" % (rnd, j, i), nv=300, nf=500) for i in range(2)]
            c.count("regions_written_and_read", len(sc)); c.sample({"script": [l[:300] for l in sc[0][1]]})
            R.run(sc)
        if c.violation or c.elapsed() > c.pick(420, 700): break
    c.assumptions = ["the driver describes loaded coordinates exactly (as fractions in lowest terms)"]
core.main("C10", body)
