"""Programs for drv_soup from SoupLife behaviours, and face collections for query checks."""
import json

def program(prog, rng, R=4):
    """commands from a generated history; object contents are tracked only to choose valid arguments."""
    L, nv, nf = [], {}, {}
    for o in (1, 2, 3): L.append("drop %d" % o); nv[o] = nf[o] = 0
    for o, t in family(rng, R).items(): L.append(t[0]); nv[o], nf[o] = t[1:]
    def pt(): return "%d %d %d" % tuple(rng.randrange(-R, R + 1) for _ in range(3))
    def query(o):
        r = []
        for _ in range(rng.choice((1, 1, 2))):
            if rng.random() < .6:
                a = [rng.randrange(-R, R + 1) for _ in range(3)]; b = [x + rng.randrange(0, 4) for x in a]
                r.append("box %d %d %d %d %d %d %d" % tuple([o] + a + b))
            else:
                d = (0, 0, 0)
                while d == (0, 0, 0): d = tuple(rng.randrange(-2, 3) for _ in range(3))
                r.append("ray %d %s %d %d %d" % ((o, pt()) + d))
        return r
    for c in prog:
        k, o, s = c["c"], c["o"], c.get("s")
        if k == "addv": L.append("addv %d %s" % (o, pt())); nv[o] += 1
        elif k == "addf":
            if nv[o] < 3: continue
            L.append("addf %d %d %d %d %d" % ((o,) + tuple(rng.sample(range(nv[o]), 3)) + (rng.randrange(100),))); nf[o] += 1
        elif k == "setd":
            if nf[o] == 0: continue
            L.append("setd %d %d %d" % (o, rng.randrange(nf[o]), rng.randrange(100)))
        elif k == "query": L += query(o)
        elif k == "par": L.append("par %d %d %d %d %d" % (o, rng.choice((2, 3, 4)), 4, rng.randrange(10**6), R))
        elif k == "drop": L.append("drop %d" % o); nv[o] = nf[o] = 0
        elif k in ("copy", "assign"):
            if rng.random() < .4: L += query(o)
            L.append("%s %d %d" % (k, o, s)); nv[o], nf[o] = nv[s], nf[s]
            if rng.random() < .4: L += query(o)
        elif k in ("mctor", "massign"):
            L.append("%s %d %d" % (k, o, s)); nv[o], nf[o] = nv[s], nf[s]
            nv[s] = nf[s] = 0
            if rng.random() < .5: L += query(o)
            if rng.random() < .5: L.append("box %d -9 -9 -9 9 9 9" % s)
            L.append("drop %d" % s)        # a moved-from object has unspecified content; continue with a fresh one, or assign over it
            if rng.random() < .5 and o != s: L[-1] = "assign %d %d" % (s, o); nv[s], nf[s] = nv[o], nf[o]
        elif k == "swap": L.append("swap %d %d" % (o, s)); nv[o], nv[s] = nv[s], nv[o]; nf[o], nf[s] = nf[s], nf[o]
    for o in (1, 2, 3):
        if nf[o]: L += query(o) + ["bb %d" % o]
    return L

def family(rng, R):
    """objects that differ from each other in one respect only (coordinates, faces, data, order, a prefix), or nothing."""
    if rng.random() < .4: return {}
    n = rng.randrange(3, 7); m = rng.randrange(1, 6)
    V = [tuple(rng.randrange(-R, R + 1) for _ in range(3)) for _ in range(n)]
    F = [tuple(rng.sample(range(n), 3)) + (rng.randrange(100),) for _ in range(m)]
    r = {}
    for o in (1, 2, 3):
        v, f = list(V), list(F); k = rng.randrange(8)
        if k == 0: v = [tuple(rng.randrange(-R, R + 1) for _ in range(3)) for _ in range(n)]
        elif k == 1: d = [rng.randrange(-R, R + 1) for _ in range(3)]; v = [tuple(a + b for a, b in zip(p, d)) for p in v]
        elif k == 2: i = rng.randrange(n); v[i] = tuple(rng.randrange(-R, R + 1) for _ in range(3))
        elif k == 3: i = rng.randrange(m); f[i] = tuple(rng.sample(range(n), 3)) + f[i][3:]
        elif k == 4: f = [t[:3] + (rng.randrange(100),) for t in f]
        elif k == 5: f = f[:rng.randrange(1, m + 1)]
        elif k == 6: rng.shuffle(f)
        r[o] = ("mk %d %d %d %s %s" % (o, len(v), len(f), " ".join("%d %d %d" % x for x in v), " ".join("%d %d %d %d" % x for x in f)), len(v), len(f))
    return r

def axes(rng):
    """a scale (and an offset of about the same size) per axis, after `unit`; exactly representable or not"""
    if rng.random() < .6: return []
    L = []
    for _ in range(3):
        k = rng.choice((0, 0, 1, -1, 30, -30, 70, -70, 200, -200)); d = rng.choice((1, 1, 3, 7)); n = rng.choice((1, 1, 5)); q = rng.choice((1, 3, 11)); o = rng.randrange(-3, 4)
        f = lambda n, d: "%d/%d" % ((n << k, d) if k >= 0 else (n, d << -k))
        L += [f(n, d), f(o, q)]
    return ["axes " + " ".join(L)]

def make(rng, o, n, R, style):
    """a collection of n faces with coordinates in -R..R."""
    vs, fs = [], []
    def tri(a, b, c):
        i = len(vs); vs.extend((a, b, c)); fs.append((i, i + 1, i + 2))
    def p(r=R): return tuple(rng.randrange(-r, r + 1) for _ in range(3))
    if style == "same":
        t = (p(), p(), p())
        for _ in range(n): tri(*t)
    elif style == "line":
        ax = rng.randrange(3)
        for i in range(n):
            a = [0, 0, 0]; a[ax] = (i % (2 * R + 1)) - R
            b = list(a); b[(ax + 1) % 3] += 1
            c = list(a); c[(ax + 2) % 3] += 1
            tri(tuple(a), tuple(b), tuple(c))
    elif style == "flat":
        ax = rng.randrange(3)
        for i in range(n):
            q = [list(p()) for _ in range(3)]
            for x in q: x[ax] = 0
            tri(*map(tuple, q))
    elif style == "small":
        for i in range(n):
            a = p(R - 1); tri(a, tuple(x + rng.randrange(-1, 2) for x in a), tuple(x + rng.randrange(-1, 2) for x in a))
    elif style == "shared":
        for _ in range(max(3, n)): vs.append(p())
        for _ in range(n): fs.append(tuple(rng.sample(range(len(vs)), 3)))
    else:
        for i in range(n): tri(p(), p(), p())
    rng.shuffle(fs)
    if not vs: return "mk %d 0 0" % o
    return "mk %d %d %d %s %s" % (o, len(vs), len(fs), " ".join("%d %d %d" % v for v in vs), " ".join("%d %d %d 0" % f for f in fs))
