import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import core, runner, json, math, geom
from fractions import Fraction

def cross(a, b): return (a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0])
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def ring(R):
    d = [(a, b) for a in range(-R, R + 1) for b in range(-R, R + 1) if math.gcd(a, b) == 1]
    return sorted(d, key=lambda t: math.atan2(t[1], t[0]))
RINGS = {R: ring(R) for R in (1, 2, 3, 4)}

def realise(rng, name, around, fan):
    """integer coordinates for a fan; random storage order, rotation and numbering."""
    while True:
        e, u, v = (tuple(rng.randrange(-2, 3) for _ in range(3)) for _ in range(3))
        if rng.random() < .3: e, u, v = rng.choice((((0,0,1),(1,0,0),(0,1,0)), ((1,0,0),(0,1,0),(0,0,1)), ((0,1,0),(0,0,1),(1,0,0)), ((0,0,-1),(0,1,0),(1,0,0))))
        if dot(e, cross(u, v)) > 0: break
    n = len(fan)
    for R in (1, 2, 3, 4):       # directions in counterclockwise order; within less than half a turn at the border
        r = RINGS[R]; off = rng.randrange(len(r)); r = r[off:] + r[:off]
        if not around: r = [d for d in r if d == r[0] or r[0][0] * d[1] - r[0][1] * d[0] > 0]
        if len(r) >= n and (rng.random() < .5 or R == 4): break
    pick = sorted(rng.sample(range(len(r)), n)); dirs = [r[i] for i in pick]
    if not around and n > 1:
        flat = rng.random() < .3
        if flat and len(r) + 1 >= n: dirs = [r[0]] + [r[i] for i in sorted(rng.sample(range(1, len(r)), n - 2))] + [(-r[0][0], -r[0][1])]
        else: dirs = [r[0]] + [r[i] for i in sorted(rng.sample(range(1, len(r)), n - 1))]
    k = rng.randrange(n) if around else 0
    dirs = dirs[k:] + dirs[:k]
    p = tuple(rng.randrange(-2, 3) for _ in range(3)); q = tuple(a + b for a, b in zip(p, e))
    pts, faces, extra, borders = [p, q], [], [], {(0, 1)}
    for (a, b), slot in zip(dirs, fan):
        s, c = rng.choice((1, 1, 2)), rng.randrange(-1, 3); v_r = len(pts)
        pts.append(tuple(p[i] + s * a * u[i] + s * b * v[i] + c * e[i] for i in range(3)))
        for f in slot:
            t = (0, 1, v_r) if f["o"] == "+" else (1, 0, v_r)
            pre = f["t"] if rng.random() < PRE[0] else "U"; faces.append((t, f["m"], pre))
            if len(slot) == 1 and rng.random() < .25:     # further faces of the same mesh
                x, y = rng.choice(((0, v_r), (1, v_r)))
                if rng.random() < .3: borders.add((x, y))
                for step in range(rng.randrange(1, 3)):
                    w = len(pts); pts.append(tuple(rng.randrange(-5, 6) for _ in range(3)))
                    extra.append([(x, y, w) if rng.random() < .5 else (y, x, w), f["m"], "U", f["t"], (x, y) in borders])
                    x = rng.choice((x, y)); y = w
                    if rng.random() < .2: borders.add((x, y))
                if rng.random() < PRE[0]: extra[-1][2] = extra[-1][3]
            elif len(slot) == 1 and rng.random() < .3: borders.add((rng.randrange(2), v_r))
        if len(slot) == 2: borders |= {(0, v_r), (1, v_r)}
    faces += [tuple(x[:3]) for x in extra]
    perm = list(range(len(pts))); rng.shuffle(perm) if rng.random() < .8 else None
    rng.shuffle(faces)
    out = [None] * len(pts)
    for i, x in enumerate(pts): out[perm[i]] = x
    F = []
    for t, m, pre in faces:
        k = rng.randrange(3); t = t[k:] + t[:k]; F.append((tuple(perm[i] for i in t), m, pre))
    bs = [(perm[a], perm[b]) for a, b in borders]; rng.shuffle(bs)
    ev = json.dumps({"ev": "fan", "name": name, "around": around, "start": perm[2], "pts": out, "p": perm[0], "q": perm[1], "fs": [f[0] for f in F], "mesh": [f[1] for f in F], "pre": [f[2] for f in F], "bs": bs}, separators=(",", ":"))[:-1]
    j = lambda xs: " ".join(" ".join(map(str, x)) for x in xs)
    return [geom.map_line(rng), "json " + ev, "fan %d %d %s %d %d %d %s %d %s" % (rng.choice((1, 1, 3, 7)), len(out), j(out), perm[0], perm[1], len(F), " ".join("%d %d %d %d %s" % (*f[0], f[1], f[2]) for f in F), len(bs), j(bs))]
PRE = [0]

def body(c):
    c.model("LocalClassify.tla", c.pick("LocalClassify6.cfg", "LocalClassify7.cfg"))
    r = core.tlc("LocalClassify.tla", c.pick("FanGen.cfg", "FanGen7.cfg"), timeout=600)
    if not r.ok: raise core.CheckError("no fans: " + r.out[-1500:])
    fans = [json.loads(json.loads(x)[4:]) for x in r.out.splitlines() if x.startswith('"FAN ')]
    exe = core.drivers("drv_mesh"); rng = c.rng; cfg = core.SPEC + "/FanTrace.cfg"
    for rnd in range(c.pick(1, 30)):
        long_ = {json.dumps(x, sort_keys=True): x for x in core.tlc_generate("LocalClassify.tla", "FanGenLong.cfg", c.pick(150, 600), 15, c.seed * 100 + rnd, "FAN") if len(x["fan"]) > 6}
        work = [(x, "all") for x in fans for _ in range(2)] + [(x, "long") for x in long_.values()]
        rng.shuffle(work); sc = []
        for i in range(0, len(work), 50):
            name = "r%d.%d" % (rnd, i); ls = ['emit {"ev":"world","name":"%s"}' % name]
            for k, (x, kind) in enumerate(work[i:i + 50]):
                PRE[0] = rng.choice((0, 0, .2, .6)); ls += realise(rng, "%s.%d" % (name, k), x["around"], x["fan"])
                c.count("fans_" + kind); c.count("around" if x["around"] else "border")
            sc.append((name, ls))
        c.sample({"script": sc[0][1][:3]})
        runner.Runner(c, exe, "FanTrace.tla", cfg).run(sc)
        if c.violation or c.elapsed() > c.pick(400, 700): break
core.main("C15", body)
