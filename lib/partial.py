"""Worlds in which an open mesh ends inside the other operand (see RegionTrace.tla, 'Partial intersections')."""
import geom
from fractions import Fraction as Fr

class Mesh:
    def __init__(self): self.vid, self.verts, self.faces = {}, [], []
    def v(self, p):
        p = tuple(Fr(c) for c in p)
        if p not in self.vid: self.vid[p] = len(self.verts); self.verts.append(p)
        return self.vid[p]
    def tri(self, a, b, c): self.faces.append([self.v(a), self.v(b), self.v(c)])
    def quad(self, rng, a, b, c, d):
        if rng.random() < .5: self.tri(a, b, c); self.tri(a, c, d)
        else: self.tri(b, c, d); self.tri(b, d, a)
    def grid(self, rng, pt, us, vs, flip=False):
        """pt(u, v) -> point; counter-clockwise in (u, v) unless flipped"""
        for u0, u1 in zip(us, us[1:]):
            for v0, v1 in zip(vs, vs[1:]):
                q = [pt(u0, v0), pt(u1, v0), pt(u1, v1), pt(u0, v1)]
                if flip: q.reverse()
                self.quad(rng, *q)

def cuts(rng, a, b, extra=()):
    k = rng.randrange(0, 3)
    s = {Fr(a), Fr(b)} | {Fr(x) for x in extra}
    for _ in range(k): s.add(Fr(a) + (Fr(b) - Fr(a)) * Fr(rng.randrange(1, 12), 12))
    return sorted(s)

def cross_part(rng, A, B, off):
    # A in the plane x = 0 (y along the other axis), B in the plane y = 0; common line is z
    iv = lambda: sorted(rng.sample(range(0, 10), 2))
    (a, b), (c, d) = iv(), iv()
    if rng.random() < .3: c, d = a, b
    if rng.random() < .2: c, d = a - 1, b + 1
    if not (a < d and c < b): c, d = a, b + 1
    tilt = rng.randrange(-2, 3)
    A.grid(rng, lambda u, v: geom.add((0, u, v), off), cuts(rng, -3, 4), cuts(rng, a, b), rng.random() < .5)
    B.grid(rng, lambda u, v: geom.add((u, tilt * u, v), off), cuts(rng, -2, 3), cuts(rng, c, d), rng.random() < .5)
    return dict(f="cross", a=a, b=b, c=c, d=d)

def box_part(rng, A, B, off):
    m, n, h = 8, 6, 5
    odd = lambda lo, hi: Fr(rng.randrange(lo, hi)) + Fr(1, 3)
    p = odd(-3, 6); q = p + rng.randrange(1, 12); r = odd(-3, 4); s = r + rng.randrange(1, 10)
    if rng.random() < .25: p, q, r, s = Fr(-5, 3), Fr(29, 3), Fr(-5, 3), Fr(23, 3)
    flip = rng.random() < .3
    ms, ns, hs = cuts(rng, 0, m), cuts(rng, 0, n), cuts(rng, 0, h)
    P = lambda x, y, z: geom.add((x, y, z), off)
    A.grid(rng, lambda u, v: P(u, v, 0), ms, ns, not flip); A.grid(rng, lambda u, v: P(u, v, h), ms, ns, flip)
    A.grid(rng, lambda u, v: P(u, 0, v), ms, hs, flip); A.grid(rng, lambda u, v: P(u, n, v), ms, hs, not flip)
    A.grid(rng, lambda u, v: P(0, u, v), ns, hs, not flip); A.grid(rng, lambda u, v: P(m, u, v), ns, hs, flip)
    z = Fr(rng.randrange(1, 5)) + Fr(1, 2)
    B.grid(rng, lambda u, v: P(u, v, z), cuts(rng, p, q), cuts(rng, r, s), rng.random() < .5)
    return dict(f="box", m=3 * m, n=3 * n, p=int(3 * p), q=int(3 * q), r=int(3 * r), s=int(3 * s))

def tube_part(rng, A, B, off):
    n = 10
    P = lambda x, y, z: geom.add((x, y, z), off)
    a, b = sorted(rng.sample(range(1, 10), 2))
    if rng.random() < .3: a, b = 0, n
    A.grid(rng, lambda u, v: P(u, v, 0), cuts(rng, 0, n), cuts(rng, 0, n))
    def tube():
        zs = [-1, 1]
        ys = sorted({Fr(0), Fr(n), Fr(a), Fr(b)})
        parts = [lambda: B.grid(rng, lambda u, v: P(3, u, v), ys, zs, True), lambda: B.grid(rng, lambda u, v: P(6, u, v), [a, b], zs),
                 lambda: B.grid(rng, lambda u, v: P(u, v, 1), [3, 6], [a, b]), lambda: B.grid(rng, lambda u, v: P(u, v, -1), [3, 6], [a, b], True)]
        rng.shuffle(parts)
        for f in parts: f()
    tube()
    return dict(f="tube", n=n, a=a, b=b)

def world(rng, name):
    w = geom.World(name)
    ms = [Mesh(), Mesh()]
    parts = []
    for k in range(rng.choice((1, 1, 1, 2, 3))):
        first = rng.randrange(2)
        f = rng.choice((cross_part, box_part, tube_part))
        t = f(rng, ms[first], ms[1 - first], (40 * k, 3 * k, -5 * k)); t["first"] = first + 1
        parts.append(t)
    for k in range(2):
        p = geom.Prim(); p.verts = ms[k].verts; p.faces = ms[k].faces; p.ids = [1000 * (k + 1) + i for i in range(len(p.faces))]
        w.prims.append(p)
    w.M, w.t = geom.pick_map(rng); w.parts = parts
    return w
