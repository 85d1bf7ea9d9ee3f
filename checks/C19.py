import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import core, runner

def lines(p):
    r = []
    for c in p:
        k, t = c["c"], c["t"]
        if k == "push": r.append("push %d %s %d" % (t, c["o"], c["v"]))
        elif k == "throw": r.append("throw %d %d" % (t, c["n"]))
        elif k == "par": r.append("par %d %d %d %s" % (t, c["k"], c["v"], c["kind"]))
        else: r.append("%s %d" % (k, t))
    return r

def body(c):
    c.model("Context.tla", "Context.cfg")
    if not c.quick: c.model("Context.tla", "ContextDeep.cfg")
    exe, tsan = core.drivers("drv_context", "drv_context_tsan"); rng = c.rng; cfg = core.SPEC + "/ContextTrace.cfg"
    for rnd in range(c.pick(1, 30)):
        progs = core.tlc_generate("Context.tla", "ContextGen.cfg", c.pick(400, 1500), 61, c.seed * 100 + rnd, "PROG")
        c.count("programs", len(progs)); c.count("steps", sum(len(p["prog"]) for p in progs))
        hws = [0, 1, 2, 3, 5, 8, 64, 1000000]
        for i, hw in enumerate(hws):
            mine = progs[i::len(hws)] if hw else progs[:25]
            sc = [("w%d.%d.%d" % (rnd, hw, j), ['emit {"ev":"world","name":"w%d.%d.%d","hw":%d}' % (rnd, hw, j, hw)] + lines(p["prog"])) for j, p in enumerate(mine)]
            if i == 0: c.sample({"script": sc[0][1][:20]})
            runner.Runner(c, exe, "ContextTrace.tla", cfg, env={"VH_HW": str(hw)}).run(sc, chunks=4)
            if hw in (3, 8): runner.Runner(c, tsan, "ContextTrace.tla", cfg, env=dict(core.TSAN_ENV, VH_HW=str(hw), VH_YIELD="20000", VH_SEED=str(c.seed + rnd))).run(sc[:12], chunks=2)
            if c.violation: return
        if c.elapsed() > c.pick(400, 700): break
core.main("C19", body)
