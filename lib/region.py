"""Region-level conformance: worlds x histories -> real library -> ndjson trace -> RegionTrace.tla."""
import json, os, random
import core, geom, runner

def program_lines(prog, rng):
    o = []
    for c in prog:
        k = c["c"]
        if k == "build": o.append("build 1 %d %d" % (c["x"], c["y"]))
        elif k == "apply": o.append("apply %d 1 %s %d" % (c["r"], c["op"], c["pref"]))
        elif k == "special": o.append("special %d %s" % (c["r"], c["k"]))
        elif k in ("copy", "assign", "reload", "move"): o.append("%s %d %d" % (k, c["r"], c["s"]))
        elif k == "threads": o.append("threads %d" % c["n"])
        elif k == "side": o.append("side %d" % c["r"])
        elif k == "newthread": o.append("newthread 2")
        elif k == "par":
            o.append("par %d %d %s" % (len(c["jobs"]), c["t"],
                     " ".join("%d %d %d %s %d" % (j["r"], j["x"], j["y"], j["op"], j["pref"]) for j in c["jobs"])))
        else: raise core.CheckError("unknown command " + k)
    return o

def sweep_lines(rng, ops="VABCDEFGHIJKLMXO", x=1, y=2, r=3):
    o = ["build 1 %d %d" % (x, y)]
    for op in ops:
        for pf in (1, 0): o.append("apply %d 1 %s %d" % (r, op, pf))
    return o

def world_lines(w, rng, threads=None):
    L = w.script()
    L.append("emit " + json.dumps(w.event(), separators=(",", ":")))
    L.append("threads %d" % (threads or rng.choice((1, 2, 3, 8))))
    for k in range(len(w.prims)): L += w.prim_script(k + 1, k, rng)
    return L

def make_world(rng, name, kind, **kw):
    w = make_world_(rng, name, kind, **kw)
    if (w.M in geom.EXTREME or w.t not in geom.FAR[:2]) and sum(len(p.faces) for p in w.prims) > 30: w.M, w.t = geom.pick_map(rng, 1)   # too slow
    return w

def make_world_(rng, name, kind, **kw):
    if kind == "grid": return geom.grid_world(rng, name, size=kw.get("size", 2), **{k: v for k, v in kw.items() if k != "size"})
    if kind == "open": return geom.grid_world(rng, name, open_=True, size=kw.get("size", 2))
    if kind == "frame": return geom.frame_world(rng, name)
    if kind == "poly": return geom.poly_world(rng, name)
    if kind == "fan": return geom.fan_world(rng, name)
    if kind == "partial":
        import partial
        return partial.world(rng, name)
    raise KeyError(kind)

class Runner(runner.Runner):
    hide = ("mem", "cov", "sp", "sq", "ps", "qb", "qa", "prims")
    def __init__(self, chk, facets, exe=None, **kw):
        cfg = chk.path("trace.cfg")
        with open(cfg, "w") as f:
            f.write("SPECIFICATION Spec\nCONSTANT FacetSet = {%s}\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
                    % ", ".join('"%s"' % x for x in facets))
        super().__init__(chk, exe or core.drivers("drv_region"), "RegionTrace.tla", cfg, **kw)
