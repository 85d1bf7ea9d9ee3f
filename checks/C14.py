import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0] + "/lib")
import core, runner, itertools, geom

def sub(a, b): return tuple(x - y for x, y in zip(a, b))
def cross(a, b): return (a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0])
def dot(a, b): return sum(x*y for x, y in zip(a, b))
def nondeg(t): return cross(sub(t[1], t[0]), sub(t[2], t[0])) != (0, 0, 0)

def rnd_point(rng, R): return tuple(rng.randrange(-R, R + 1) for _ in range(3))
def rnd_tri(rng, R, plane=None):
    while True:
        t = [rnd_point(rng, R) for _ in range(3)]
        if plane: t = [plane(p) for p in t]
        if nondeg(t): return t

def related(rng, t, R):
    """a triangle built from combinations of another one's corners: shared vertices, edges, collinear and coplanar cases."""
    a, b, c = t
    for _ in range(100):
        u = []
        for _ in range(3):
            m = rng.randrange(6)
            if m == 0: p = rng.choice(t)
            elif m == 1: x, y = rng.sample(t, 2); p = tuple(2*i - j for i, j in zip(x, y))
            elif m == 2: x, y = rng.sample(t, 2); p = tuple((i + j) // 2 for i, j in zip(x, y)) if all((i + j) % 2 == 0 for i, j in zip(x, y)) else x
            elif m == 3: p = tuple((i + j + k) // 3 for i, j, k in zip(a, b, c)) if all((i + j + k) % 3 == 0 for i, j, k in zip(a, b, c)) else b
            elif m == 4: p = tuple(i + j - k for i, j, k in zip(*rng.sample(t, 3)))
            else: p = rnd_point(rng, R)
            u.append(p)
        if nondeg(u) and max(abs(x) for p in u for x in p) <= 9: return u
    return rnd_tri(rng, R)

def patch(rng, R):
    """a valid little mesh: (points, faces)."""
    k = rng.randrange(4)
    if k == 0:
        while True:
            p = [rnd_point(rng, R) for _ in range(4)]
            if dot(cross(sub(p[1], p[0]), sub(p[2], p[0])), sub(p[3], p[0])): break
        return p, [(0, 1, 2), (0, 3, 1), (1, 3, 2), (2, 3, 0)]
    if k == 1:   # strip of a plane
        ax = rng.randrange(3); h = rng.randrange(-1, 2); n = rng.randrange(1, 4); m = rng.randrange(1, 3); s = rng.choice((1, 2)); o = (rng.randrange(-R, 1), rng.randrange(-R, 1))
        P, F = [], []
        for i in range(n + 1):
            for j in range(m + 1):
                q = [o[0] + s * i, o[1] + s * j]; q.insert(ax, h); P.append(tuple(q))
        for i in range(n):
            for j in range(m):
                a, b, c, d = i*(m+1)+j, (i+1)*(m+1)+j, (i+1)*(m+1)+j+1, i*(m+1)+j+1
                F += [(a, b, c), (a, c, d)] if rng.random() < .5 else [(a, b, d), (b, c, d)]
        return P, F
    if k == 2:   # pages around a spine
        pages = [(0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1), (-1, 0), (-1, 1)]; pages = rng.sample(pages, rng.randrange(2, 6)); s = rng.choice((1, 2, 3))
        P = [(0, 0, -s), (0, 0, s)]; F = []
        for a, b in pages: P.append((a * s, b * s, rng.randrange(-s, s + 1))); F.append((0, 1, len(P) - 1))
        perm = rng.sample(range(3), 3); P = [tuple(p[i] for i in perm) for p in P]
        return P, F
    s = rng.choice((1, 2, 3)); P = [(s,0,0),(-s,0,0),(0,s,0),(0,-s,0),(0,0,s),(0,0,-s)]; o = rnd_point(rng, 1)
    return [tuple(x + y for x, y in zip(p, o)) for p in P], [(0,2,4),(2,1,4),(1,3,4),(3,0,4),(2,0,5),(1,2,5),(3,1,5),(0,3,5)]

def world(name, unit, LP, LF, RP, RF):
    n = len(LP)
    return "world %s %d %d %s %d %s %d %s" % (name, unit, n + len(RP), " ".join("%d %d %d" % tuple(p) for p in list(LP) + list(RP)),
        len(LF), " ".join("%d %d %d" % tuple(f) for f in LF), len(RF), " ".join("%d %d %d" % tuple(i + n for i in f) for f in RF))

def body(c):
    for n in c.pick(["Cube", "Plane"], ["Cube", "Plane", "Cross3"]): c.model("TriTriAlg.tla", "TriTri%s.cfg" % n)
    exe = core.drivers("drv_tritri"); rng = c.rng
    R = runner.Runner(c, exe, "TriTriTrace.tla", core.SPEC + "/TriTriTrace.cfg")
    for rnd in range(c.pick(1, 25)):
        sc = []
        def add(lp, lf, rp, rf):
            name = "w%d.%d" % (rnd, len(sc))
            sc.append((name, [geom.map_line(rng, .7, True), world(name, rng.choice((1, 1, 3, 7)), lp, lf, rp, rf)])); c.count("triangle_pairs", len(lf) * len(rf))
        one = [(0, 1, 2)]
        for i in range(3000):
            z = rng.choice((1, 1, 2, 3))
            t = rnd_tri(rng, z); m = rng.randrange(5)
            if m == 0: u = rnd_tri(rng, z)
            elif m == 1:
                pl = rng.choice((lambda p: (p[0], p[1], 0), lambda p: (0, p[0], p[1]), lambda p: (p[0], 1, p[2]), lambda p: (p[0], p[1], p[0] - p[1]), lambda p: (p[0], p[1], -p[0] - p[1]), lambda p: (p[0], p[0], p[1])))
                t, u = rnd_tri(rng, 3, pl), rnd_tri(rng, 3, pl)
            elif m == 2:
                pl = lambda p: (p[0], p[1], 0)
                t, u = rnd_tri(rng, 3, pl), rnd_tri(rng, 3)
            else: u = related(rng, t, z)
            rng.shuffle(t); rng.shuffle(u)
            add(*((t, one, u, one) if rng.random() < .5 else (u, one, t, one)))
        if not c.quick and rnd == 0:    # every pair of triangles of the unit cube's corners, in every order of the right one
            P = list(itertools.product((0, 1), repeat=3))
            T = [t for t in itertools.combinations(P, 3)]
            for t in T:
                for u in itertools.permutations(P, 3): add(rng.sample(t, 3), one, list(u), one)
        for i in range(250):
            lp, lf = patch(rng, 3); rp, rf = patch(rng, 3)
            if rng.random() < .3: rp, rf = [tuple(a + b for a, b in zip(p, rng.choice(((0,0,0),(1,0,0),(0,1,1))))) if False else p for p in lp], lf
            lf = [tuple(rng.sample(f, 3)) for f in lf]; rf = [tuple(rng.sample(f, 3)) for f in rf]; rng.shuffle(lf); rng.shuffle(rf)
            add(lp, lf, rp, rf); c.count("mesh_pairs")
        c.sample({"world": sc[3][1][1]}); c.sample({"world": sc[-1][1][1][:400]})
        R.run(sc)
        if c.violation or c.elapsed() > c.pick(420, 700): break
    c.assumptions = ["coordinates are small integers or multiples of 1/3 and 1/7 of them, so that the specification computes exactly"]
core.main("C14", body)
