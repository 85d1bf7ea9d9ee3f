import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import core, iorun, iogen, glob, os, struct
from fractions import Fraction as F

def shipped(c, f):
    """a mesh of the repository: read it, write it in every format and read that"""
    V, Fs = [], []
    for l in open(f):
        t = l.split()
        if t and t[0] == "v": V.append([F(float(x)) for x in t[1:4]])
        elif t and t[0] == "f":
            q = [int(x.split("/")[0]) for x in t[1:]]; q = [i - 1 if i > 0 else len(V) + i for i in q]
            Fs += [[q[0], q[i], q[i + 1]] for i in range(1, len(q) - 1)]
    out = []; d = open(f).read(); n = os.path.basename(f)
    if len(V) > 3000: return []
    out.append(iorun.wrap("ship-" + n, [iorun.J({"ev": "tread", "fmt": "obj", "well": 1, "lines": iogen.lines(d, "obj")}), "tr obj file 1 " + iogen.hexs(d.encode())]))
    t = "%d %s %d %s" % (len(V), " ".join("d" + repr(float(q)) for p in V for q in p), len(Fs), " ".join("%d %d %d 0" % tuple(x) for x in Fs))
    for fmt in ("obj", "off", "ply"):
        out.append(iorun.wrap("ship-%s-%s" % (n, fmt), [iorun.J({"ev": "twrite", "fmt": fmt, "v": [[iorun.near(q) for q in p] for p in V], "f": Fs}), "tw %s file 1 %s" % (fmt, t)]))
    return out

def body(c):
    c.model("TextMeshMC.tla", "TextMesh.cfg")
    exe = core.drivers("drv_io"); rng = c.rng
    for rnd in range(c.pick(1, 20)):
        R = iorun.Runner(c, exe, "IoTrace.tla", core.SPEC + "/IoTrace.cfg")
        sc = []
        for fmt in ("obj", "off", "ply"):
            sc += [iorun.tread(rng, "r%s%d.%d" % (fmt, rnd, i), 0, fmt) for i in range(c.pick(2500, 6000))]
            sc += [iorun.twrite(rng, "w%s%d.%d" % (fmt, rnd, i), fmt) for i in range(c.pick(1200, 3000))]
        rng.shuffle(sc); c.count("documents", len(sc)); c.sample({"script": [l[:300] for l in sc[0][1]]})
        if rnd == 0 and not c.quick:
            for f in sorted(glob.glob(core.REPO + "/meshes/*.obj")): sc += shipped(c, f)
        R.run(sc)
        if c.violation or c.elapsed() > c.pick(420, 700): break
    c.assumptions = ["documents are split into tokens, and numerals valued, by the harness (Python's float)"]
core.main("C12", body)
