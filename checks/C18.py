import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import core, cliruns, json, os, shutil

def batch(c, cli, ref, rnd, files, n):
    base = c.path("w%d" % rnd); os.makedirs(base)
    xs = [cliruns.case(c, base, i, files) for i in range(n)]
    c.pmap(lambda x: cliruns.execute(c, cli, x), xs)
    parts = [xs[i::core.NCPU] for i in range(core.NCPU)]
    def verdict(tag, p):
        evs = cliruns.judge(c, ref, tag, p); t = c.path(tag + ".ndjson")
        with open(t, "w") as f:
            f.write('{"ev":"world"}\n'); [f.write(json.dumps(e) + "\n") for _, e in evs]; f.write('{"ev":"end"}\n')
        return evs, t, c.trace("CliTrace.tla", core.SPEC + "/CliTrace.cfg", t)
    def job(i):
        evs, t, rej = verdict("t%d.%d" % (rnd, i), parts[i])
        if rej is None: os.unlink(t); return len(evs), None
        if rej - 2 >= len(evs): raise core.CheckError("the recorded runs end early")
        return len(evs), evs[rej - 2][0]
    for n_, bad in c.pmap(job, range(core.NCPU)):
        if bad is None: c.traces += n_; continue
        if c.violation: continue
        again = dict(bad); shutil.rmtree(bad["dir"]); shutil.copytree(bad["kept"], bad["dir"], symlinks=True); shutil.rmtree(bad["kept"])
        cliruns.execute(c, cli, again)
        evs, t, rej = verdict("re%d" % rnd, [again])
        if rej is not None: c.violate("in a directory with %s, kigumi %s: status %s, stderr %r, stdout %r: %s" % (sorted(again["before"]), json.dumps(again["argv"], ensure_ascii=False), again["status"], again["err"][:200], again["out"][:200], json.dumps(evs[0][1])[:3000]), [t] + [os.path.join(again["kept"], f) for f in again["before"] if not os.path.islink(os.path.join(again["kept"], f))])
        else: c.count("unrepeated_rejections")
    for x in xs:
        c.count("runs"); c.count("runs_" + (x["cmd"] or "none") if x["cmd"] in cliruns.OPERANDS else "runs_other"); c.count("succeeded" if x["status"] == 0 else "failed")
        if x["err"].startswith("warning"): c.count("warned")
    c.sample({"argv": xs[0]["argv"], "status": xs[0]["status"], "err": xs[0]["err"][-200:]})
    shutil.rmtree(base); [shutil.rmtree(x["kept"], ignore_errors=True) for x in xs]

def body(c):
    c.model("Cli.tla", "Cli.cfg"); c.model("Cli.tla", "CliBoolean.cfg")
    if not c.quick: c.model("Cli.tla", "CliBoolean4.cfg")
    cli, ref = core.drivers("cli", "drv_cli")
    files = cliruns.pool(c, ref, c.pick(80, 400))
    for rnd in range(c.pick(2, 60)):
        batch(c, cli, ref, rnd, files, 500)
        if c.violation or c.elapsed() > c.pick(300, 700): break
core.main("C18", body)
