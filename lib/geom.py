"""Seeded generator of worlds: operand meshes with an exact description as a Boolean combination of half-spaces,
and sample points with their exact side of every half-space.  All arithmetic is on Fractions."""
import random
from fractions import Fraction as Fr

def dot(a, b): return a[0]*b[0] + a[1]*b[1] + a[2]*b[2]
def sub(a, b): return (a[0]-b[0], a[1]-b[1], a[2]-b[2])
def add(a, b): return (a[0]+b[0], a[1]+b[1], a[2]+b[2])
def mul(a, s): return (a[0]*s, a[1]*s, a[2]*s)
def cross(a, b): return (a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0])
def det3(a, b, c): return dot(a, cross(b, c))
def orient(a, b, c, d): return det3(sub(b, a), sub(c, a), sub(d, a))
def fs(x):
    x = Fr(x)
    return str(x.numerator) if x.denominator == 1 else "%d/%d" % (x.numerator, x.denominator)
def ps(p): return " ".join(fs(c) for c in p)
IDENT = ((1, 0, 0), (0, 1, 0), (0, 0, 1))
def matvec(m, v): return tuple(dot(r, v) for r in m)
def matmul(a, b): return tuple(tuple(sum(a[i][k]*b[k][j] for k in range(3)) for j in range(3)) for i in range(3))
def inv_t(m):  # cofactor matrix = det * inverse transpose: maps normals
    a, b, c = m
    return (cross(b, c), cross(c, a), cross(a, b))

class Prim:
    def __init__(self): self.verts, self.faces, self.ids, self.dnf, self.inv = [], [], [], [], 0

class World:
    """atoms: (normal, d) : sign 1 iff normal.p < d."""
    def __init__(self, name):
        self.name, self.atoms, self.prims, self.P, self.Q = name, [], [], [], []
        self.exact = False; self.parts = None; self.clip = []; self.M = IDENT; self.t = (0, 0, 0); self.meta = {}
    def atom(self, n, d):
        key = (tuple(Fr(x) for x in n), Fr(d))
        if key not in self.atoms: self.atoms.append(key)
        return self.atoms.index(key)
    def signs(self, p):
        r = []
        for n, d in self.atoms:
            v = dot(n, p) - d
            if v == 0: return None
            r.append(1 if v < 0 else 0)
        return r
    def germ_signs(self, q, nrm):
        below, above = [], []
        for n, d in self.atoms:
            v = dot(n, q) - d
            if v == 0:
                s = dot(n, nrm)
                if any(c != 0 for c in cross(n, nrm)): return None   # not parallel: q is on a crossing line
                below.append(1 if s > 0 else 0); above.append(0 if s > 0 else 1)
            else:
                below.append(1 if v < 0 else 0); above.append(below[-1])
        return below, above
    def id_at(self, k, q):
        """data id of the face of primitive k that contains q in its interior; 0 none; None on an edge."""
        pr = self.prims[k]
        for f, i in zip(pr.faces, pr.ids):
            a, b, c = (pr.verts[v] for v in f)
            n = cross(sub(b, a), sub(c, a))
            if dot(n, sub(q, a)) != 0: continue
            s = [dot(n, cross(sub(y, x), sub(q, x))) for x, y in ((a, b), (b, c), (c, a))]
            if min(s) > 0: return i
            if min(s) == 0: return None
        return 0
    def add_point(self, p):
        s = self.signs(p)
        if s is None: return False
        self.P.append((p, s)); return True
    def add_germ(self, q, n):
        g = self.germ_signs(q, n)
        if g is None: return False
        ids = [self.id_at(k, q) for k in range(len(self.prims))]
        if None in ids: return False
        self.Q.append((q, n, g[0], g[1], ids)); return True
    # ---- output ----
    def event(self):
        extra = {"parts": self.parts} if self.parts is not None else {}
        return {"ev": "world", **extra, "name": self.name, "exact": int(self.exact),
                "ps": [s for _, s in self.P], "qb": [g[2] for g in self.Q], "qa": [g[3] for g in self.Q],
                "prims": [{"inv": p.inv, "dnf": [[[a+1, v] for a, v in c] for c in p.dnf],
                           "ids": [g[4][k] for g in self.Q]} for k, p in enumerate(self.prims)]}
    def X(self, p): return add(matvec(self.M, p), self.t)
    def script(self):
        o = ["world %s %d %d %d" % (self.name, len(self.P), len(self.Q), len(self.clip))]
        for p, _ in self.P: o.append(ps(self.X(p)))
        nm = inv_t(self.M)
        for g in self.Q: o.append(ps(self.X(g[0])) + " " + ps(matvec(nm, g[1])))
        for c in self.clip: o.append(" ".join(ps(self.X(x)) for x in c))
        return o
    def prim_script(self, r, k, rng=None):
        p = self.prims[k]
        vs = list(range(len(p.verts))); fi = list(range(len(p.faces)))
        rot = [0]*len(fi)
        if rng: rng.shuffle(vs); rng.shuffle(fi); rot = [rng.randrange(3) for _ in fi]
        pos = {v: i for i, v in enumerate(vs)}
        o = ["prim %d %d %d %d" % (r, k+1, len(vs), len(fi))]
        o += [ps(self.X(p.verts[v])) for v in vs]
        for j, f in enumerate(fi):
            t = p.faces[f]; t = t[rot[j]:] + t[:rot[j]]
            o.append("%d %d %d %d" % (pos[t[0]], pos[t[1]], pos[t[2]], p.ids[f]))
        return o

MAPS = [
    IDENT, IDENT,
    ((Fr(1, 3), 0, 0), (0, Fr(1, 3), 0), (0, 0, Fr(1, 3))),
    ((Fr(3, 5), Fr(-4, 5), 0), (Fr(4, 5), Fr(3, 5), 0), (0, 0, 1)),
    ((Fr(1, 3), Fr(2, 3), Fr(2, 3)), (Fr(2, 3), Fr(1, 3), Fr(-2, 3)), (Fr(-2, 3), Fr(2, 3), Fr(-1, 3))),
    ((1, Fr(1, 2), 0), (0, 1, Fr(1, 4)), (Fr(1, 8), 0, 1)),
    ((0, 1, 0), (0, 0, 1), (1, 0, 0)),
    ((1, Fr(1, 7), Fr(-2, 9)), (Fr(1, 11), 1, 0), (0, Fr(3, 13), 1)),
    ((2**20, 0, 0), (0, 2**20, 0), (0, 0, 2**20)),
    ((1, 1, 0), (-1, 1, 0), (0, 0, 1)),
]
def det_m(m): return det3(*m)
for _m in MAPS: assert det_m(_m) != 0
MAPS = [m if det_m(m) > 0 else (m[1], m[0], m[2]) for m in MAPS]

# Maps that floating point arithmetic cannot follow: nearly singular, widely different scales, far from the origin.
_e = Fr(1, 2**70)
EXTREME = [
    ((1, 1, 0), (1, 1 + _e, 0), (0, 0, 1)),
    ((1, 1, 1), (1, 1 + Fr(1, 2**61), 1), (1, 1, 1 + Fr(1, 3*2**60))),
    ((Fr(1, 2**200), 0, 0), (0, Fr(1, 2**200), 0), (0, 0, Fr(1, 2**200))),
    ((2**200, 0, 0), (0, 2**180, 0), (0, 0, 2**220)),
    ((1, 0, 0), (0, Fr(1, 2**90), 0), (0, 0, Fr(2**40, 3))),
    ((Fr(1, 3*2**60), 0, 0), (0, Fr(1, 7*2**60), 0), (0, 0, Fr(1, 2**58))),
    ((Fr(1, 3), Fr(2, 3), Fr(2, 3) + _e), (Fr(2, 3), Fr(1, 3), Fr(-2, 3)), (Fr(-1, 3), Fr(1, 3), Fr(-4, 3) + 3*_e)),
]
EXTREME = [m if det_m(m) > 0 else (m[1], m[0], m[2]) for m in EXTREME]
for _m in EXTREME: assert det_m(_m) > 0
FAR = [(0, 0, 0), (Fr(1, 7), Fr(-5, 3), Fr(2, 11)), (1, 1, 1), (Fr(10**25, 7), Fr(-10**24, 3), 2**80), (Fr(1, 3), 2**60, -1), (Fr(2**70 + 1, 2**69), Fr(1, 10), 0)]
ORDINARY = [.88]      # share of worlds without an extreme map (exact arithmetic makes the others slow)
def pick_map(rng, ordinary=None):
    """linear part (positive determinant) and translation; each extreme in some of the worlds."""
    x = rng.random(); ordinary = ORDINARY[0] if ordinary is None else ordinary
    if x < ordinary: return rng.choice(MAPS), ((0, 0, 0) if rng.random() < .7 else FAR[1])
    if x < ordinary + (1 - ordinary) / 3: return rng.choice(MAPS), rng.choice(FAR)
    return rng.choice(EXTREME), rng.choice(FAR)
def map_line(rng, ordinary=.7, mirror=False):
    """the `map` command of the drivers that read small integers"""
    if rng.random() < ordinary: return "map id"
    m, t = pick_map(rng, .2)
    if mirror and rng.random() < .5: m = (m[1], m[0], m[2])
    return "map " + " ".join(fs(x) for r in m for x in r) + " " + " ".join(fs(x) for x in t)

FRAMES = [IDENT, ((1, 2, 2), (2, 1, -2), (-2, 2, -1)), ((3, -4, 0), (4, 3, 0), (0, 0, 5)), ((1, 1, 0), (-1, 1, 0), (0, 0, 1)),
          ((2, 3, 6), (3, -6, 2), (6, 2, -3)), ((2, -1, 2), (2, 2, -1), (-1, 2, 2)), ((1, 0, 1), (0, 1, 0), (-1, 0, 1))]
FRAMES = [f if det_m(f) > 0 else (f[1], f[0], f[2]) for f in FRAMES]
def frame_inv(fr, u):
    """point p with fr.p = u (rows orthogonal)"""
    p = (0, 0, 0)
    for r, c in zip(fr, u): p = add(p, mul(r, Fr(c) / dot(r, r)))
    return p

def grid_prim(w, rng, frame, lines, cells, inv, idbase, open_box=None, split="mix"):
    """cells: set of (i,j,k) of the coarse grid `lines` (3 sorted lists, in frame coordinates)."""
    pr = Prim(); pr.inv = inv
    vid = {}
    def V(u):
        if u not in vid:
            vid[u] = len(pr.verts); pr.verts.append(frame_inv(frame, u))
        return vid[u]
    n = [len(l) - 1 for l in lines]
    nid = idbase
    for ax in range(3):
        o1, o2 = (ax+1) % 3, (ax+2) % 3
        for i in range(n[ax]+1):
            for j in range(n[o1]):
                for k in range(n[o2]):
                    def cell(ii):
                        c = [0, 0, 0]; c[ax] = ii; c[o1] = j; c[o2] = k
                        return tuple(c)
                    lo = i > 0 and cell(i-1) in cells
                    hi = i < n[ax] and cell(i) in cells
                    if lo == hi: continue
                    if open_box is not None and i in (0, n[ax]): continue
                    def corner(a, b):
                        u = [0, 0, 0]; u[ax] = lines[ax][i]; u[o1] = a; u[o2] = b
                        return tuple(u)
                    a0, a1 = lines[o1][j], lines[o1][j+1]; b0, b1 = lines[o2][k], lines[o2][k+1]
                    quad = [corner(a0, b0), corner(a1, b0), corner(a1, b1), corner(a0, b1)]  # ccw seen from +ax
                    q = [V(u) for u in quad]
                    out_pos = lo            # inside is below -> outward normal +ax
                    if inv: out_pos = not out_pos
                    if not out_pos: q.reverse()
                    mode = rng.randrange(5) if split == "mix" else 0
                    if mode == 4:
                        m = tuple(Fr(sum(u[t] for u in quad), 4) for t in range(3))
                        mi = V(m)
                        fs_ = [[q[t], q[(t+1) % 4], mi] for t in range(4)]
                    elif mode % 2: fs_ = [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
                    else: fs_ = [[q[1], q[2], q[3]], [q[1], q[3], q[0]]]
                    for f in fs_:
                        pr.faces.append(f); pr.ids.append(nid); nid += 1
    for c in sorted(cells):
        conj = []
        for ax in range(3):
            i = c[ax]
            if not (open_box is not None and i == 0): conj.append((w.atom(frame[ax], lines[ax][i]), 0))
            if not (open_box is not None and i == n[ax]-1): conj.append((w.atom(frame[ax], lines[ax][i+1]), 1))
        pr.dnf.append(conj)
    # used vertices only
    used = sorted({v for f in pr.faces for v in f}); mp = {v: i for i, v in enumerate(used)}
    pr.verts = [pr.verts[v] for v in used]; pr.faces = [[mp[v] for v in f] for f in pr.faces]
    w.prims.append(pr)
    return pr

def random_cells(rng, n, style):
    allc = [(i, j, k) for i in range(n[0]) for j in range(n[1]) for k in range(n[2])]
    if style == "box": return set(allc)
    if style == "checker": return {c for c in allc if sum(c) % 2 == 0}
    if style == "shell":
        mid = tuple(x // 2 for x in n)
        return {c for c in allc if c != mid}
    for _ in range(50):
        s = {c for c in allc if rng.random() < rng.choice((0.3, 0.5, 0.7))}
        if s: return s
    return {allc[0]}

def generic(rng): return Fr(rng.randrange(150, 850), 1009)

def sub_lines(rng, ln, lo_keep, k):
    inner = sorted(rng.sample(range(len(ln)), min(k+1, len(ln))))
    return [ln[i] for i in inner]

THIN = Fr(1, 10**25)    # slabs, gaps and steps thinner than the spacing of floating point numbers
def grid_world(rng, name, nprims=2, open_=False, size=3, styles=("box", "box", "random", "random", "checker", "shell"), map_=None, same_p=0.15, comp_p=0.15):
    w = World(name); w.exact = True
    for _ in range(200):
        w.atoms = []; w.prims = []
        n = [rng.randrange(1, size+1) if not open_ else rng.randrange(2, size+2) for _ in range(3)]
        # fine lines with uneven spacing
        fine = []; thin = rng.random() < (1 - ORDINARY[0])
        for ax in range(3):
            x = rng.randrange(-2, 2); l = [x]
            for _ in range(n[ax] + (1 if not open_ else 0)):
                x += THIN if thin and rng.random() < .3 else rng.randrange(1, 4); l.append(x)
            fine.append(l)
        ok = True
        base = 1000
        desc = []
        for k in range(nprims):
            if k and rng.random() < same_p and not open_:   # same cells, different triangulation / inverted
                ln, cells, inv = desc[-1]; inv = inv ^ (rng.random() < .5)
            else:
                ln = []
                for ax in range(3):
                    L = fine[ax]
                    if open_:
                        inner = [x for x in L[1:-1] if rng.random() < .7]
                        ln.append([L[0]] + inner + [L[-1]])
                    else:
                        c = rng.randrange(2, len(L)+1)
                        ln.append(sorted(rng.sample(L, c)))
                m = [len(x)-1 for x in ln]
                cells = random_cells(rng, m, rng.choice(styles)); inv = rng.random() < comp_p
            desc.append((ln, cells, inv))
            p = grid_prim(w, rng, IDENT, ln, cells, int(inv), base, True if open_ else None)
            base += 1000
            if not p.faces: ok = False
        if ok: break
    else: raise RuntimeError("no world")
    if open_:
        lo = tuple(l[0] for l in fine); hi = tuple(l[-1] for l in fine)
        for ax in range(3):
            for v in (lo, hi):
                o1, o2 = (ax+1) % 3, (ax+2) % 3
                e1 = [0]*3; e1[o1] = 1; e2 = [0]*3; e2[o2] = 1
                w.clip.append((v, add(v, e1), add(v, e2)))
    # samples: one per cell of the fine arrangement of the lines that are in use (plus an outer ring if closed)
    used = []
    for ax in range(3):
        xs = sorted({x for ln, _, _ in desc for x in ln[ax]})
        if not open_: xs = [xs[0]-2] + xs + [xs[-1]+2]
        used.append(xs)
    cs = [len(x)-1 for x in used]
    for i in range(cs[0]):
        for j in range(cs[1]):
            for k in range(cs[2]):
                p = tuple(used[a][c] + (used[a][c+1]-used[a][c]) * generic(rng) for a, c in zip(range(3), (i, j, k)))
                assert w.add_point(p)
    for ax in range(3):
        o1, o2 = (ax+1) % 3, (ax+2) % 3
        rngi = range(1, len(used[ax])-1)
        for i in rngi:
            for j in range(cs[o1]):
                for k in range(cs[o2]):
                    if not open_ and (j in (0, cs[o1]-1) or k in (0, cs[o2]-1)): continue
                    nrm = [0]*3; nrm[ax] = rng.choice((1, -1))
                    for _ in range(30):
                        q = [0]*3; q[ax] = Fr(used[ax][i])
                        q[o1] = used[o1][j] + (used[o1][j+1]-used[o1][j])*generic(rng)
                        q[o2] = used[o2][k] + (used[o2][k+1]-used[o2][k])*generic(rng)
                        if w.add_germ(tuple(q), tuple(nrm)): break
    w.M, w.t = (map_, (0, 0, 0)) if map_ is not None else pick_map(rng)
    return w

def sample_generic(w, rng, npts, ngerm):
    lo = [min(p.verts[v][a] for p in w.prims for v in range(len(p.verts))) for a in range(3)]
    hi = [max(p.verts[v][a] for p in w.prims for v in range(len(p.verts))) for a in range(3)]
    tries = 0
    allv = [v for p in w.prims for v in p.verts]
    while len(w.P) < npts and tries < 20*npts:
        tries += 1
        m = rng.randrange(3)
        if m == 0:
            p = tuple(lo[a]-1 + (hi[a]-lo[a]+2)*Fr(rng.randrange(1, 997), 997) for a in range(3))
        elif m == 1:   # near a vertex
            v = rng.choice(allv); p = tuple(v[a] + Fr(rng.randrange(-50, 51), 613) for a in range(3))
        else:          # near a point of a face
            pr = rng.choice(w.prims); f = rng.choice(pr.faces)
            ws = [rng.randrange(0, 60)+Fr(1, 7) for _ in range(3)]; t = sum(ws)
            p = (0, 0, 0)
            for v, x in zip(f, ws): p = add(p, mul(pr.verts[v], Fr(x)/t))
            p = tuple(p[a] + Fr(rng.randrange(-40, 41), 997) for a in range(3))
        w.add_point(p)
    faces = [(pr, f) for pr in w.prims for f in pr.faces]
    per = max(1, ngerm // len(faces))
    for pr, f in faces:
        for _ in range(per):
            for _ in range(20):
                ws = [rng.randrange(1, 499) for _ in range(3)]; t = sum(ws)
                q = (0, 0, 0)
                for v, x in zip(f, ws): q = add(q, mul(pr.verts[v], Fr(x, t)))
                a, b, c = (pr.verts[v] for v in f)
                n = cross(sub(b, a), sub(c, a))
                g = 1
                if rng.random() < .5: n = mul(n, -1)
                if w.add_germ(q, n): break

def frame_world(rng, name, nprims=2):
    """boxes / grids in different rotated frames: oblique, generic and edge/vertex contacts"""
    w = World(name)
    for k in range(nprims):
        fr = IDENT if k == 0 else rng.choice(FRAMES)
        s = dot(fr[0], fr[0])
        sc = max(1, int(round(s ** .5)))
        ln = []
        for ax in range(3):
            c = rng.randrange(2, 4); x = rng.randrange(-3, 1)*sc; l = [x]
            step = max(1, int(round(dot(fr[ax], fr[ax]) ** .5)))
            for _ in range(c-1): x += rng.randrange(1, 5)*step - (rng.randrange(0, step) if rng.random() < .4 else 0); l.append(x)
            ln.append(sorted(set(l)))
        cells = random_cells(rng, [len(x)-1 for x in ln], rng.choice(("box", "box", "random")))
        grid_prim(w, rng, fr, ln, cells, int(rng.random() < .1), 1000*(k+1))
    sample_generic(w, rng, 60, 120)
    w.M, w.t = pick_map(rng)
    return w

def hull(pts):
    """faces of the convex hull of points in general position (no 4 coplanar); None otherwise"""
    n = len(pts); F = []
    for i in range(n):
        for j in range(i+1, n):
            for k in range(j+1, n):
                s = [orient(pts[i], pts[j], pts[k], pts[m]) for m in range(n) if m not in (i, j, k)]
                if any(x == 0 for x in s): return None
                if all(x < 0 for x in s): F.append([i, j, k])
                elif all(x > 0 for x in s): F.append([i, k, j])
    return F

def poly_prim(w, rng, idbase, lattice, inv=0, anchor=None):
    for _ in range(1000):
        m = rng.choice((4, 4, 4, 5, 6))
        pts = [tuple(rng.randrange(lattice[0], lattice[1]+1) for _ in range(3)) for _ in range(m)]
        if anchor: 
            for t in range(rng.randrange(0, min(3, len(anchor))+1)): pts[t] = rng.choice(anchor)
        if len(set(pts)) < m: continue
        F = hull(pts)
        if F is None: continue
        used = sorted({v for f in F for v in f})
        mp = {v: i for i, v in enumerate(used)}
        pr = Prim(); pr.verts = [tuple(Fr(c) for c in pts[v]) for v in used]
        conj = []
        for f in F:
            a, b, c = (pts[v] for v in f)
            n = cross(sub(b, a), sub(c, a))   # outward
            conj.append((w.atom(n, dot(n, a)), 1))
            t = [mp[v] for v in f]
            if inv: t = [t[0], t[2], t[1]]
            pr.faces.append(t); pr.ids.append(idbase + len(pr.ids))
        pr.dnf = [conj]; pr.inv = inv
        w.prims.append(pr)
        return pr
    raise RuntimeError("no polytope")

def poly_world(rng, name, nprims=2):
    w = World(name)
    anchor = []
    lat = rng.choice(((0, 3), (0, 4), (0, 6), (-5, 5)))
    for k in range(nprims):
        p = poly_prim(w, rng, 1000*(k+1), lat, int(rng.random() < .1), anchor)
        anchor += [tuple(int(c) for c in v) for v in p.verts]
    sample_generic(w, rng, 50, 80)
    w.M, w.t = pick_map(rng)
    return w

def fan_world(rng, name, nprims=2):
    """'books': pages around a common spine.  The clipping region is a square prism; the spine runs through its interior (full)
    or lies on its border (half), so that both meshes end there."""
    w = World(name); w.exact = True
    full = rng.random() < .4
    def half(d): return 0 if (d[1] > 0 or (d[1] == 0 and d[0] > 0)) else 1
    import functools
    def cmp(a, b):
        if half(a) != half(b): return half(a) - half(b)
        c = a[0]*b[1] - a[1]*b[0]
        return -1 if c > 0 else 1 if c < 0 else 0
    dirs = {(x, z) for x in range(-3, 4) for z in range(-3, 4) if max(abs(x), abs(z)) == 3}
    if full: D = sorted(dirs, key=functools.cmp_to_key(cmp))
    else: D = sorted([d for d in dirs if d[0] > 0], key=lambda d: Fr(d[1], d[0]))
    Y = 4
    pool = sorted(rng.sample(range(len(D)), min(len(D), rng.randrange(2, 7))))
    used = set()
    ys = [Fr(0), Fr(Y)]
    inner = [Fr(rng.randrange(1, 4*Y), 4) for _ in range(rng.randrange(0, 3))]
    for k in range(nprims):
        pr = Prim()
        while True:
            m = rng.randrange(1, len(pool)+1)
            if full: m -= m % 2
            if m: break
        pages = sorted(rng.sample(pool, m)); used |= set(pages)
        first_in = rng.random() < .5     # half fan: is the sector below the first page inside / full: sector after pages[0]
        vid = {}
        def V(p):
            if p not in vid: vid[p] = len(pr.verts); pr.verts.append(p)
            return vid[p]
        yk = sorted(set(ys + [y for y in inner if rng.random() < .6]))
        inside = first_in
        nid = 1000*(k+1)
        for j, pg in enumerate(pages):
            d = D[pg]
            before = inside; inside = not inside          # membership cw / ccw of this page
            us = sorted({Fr(0), Fr(1)} | ({Fr(rng.randrange(1, 6), 6)} if rng.random() < .4 else set()))
            for u0, u1 in zip(us, us[1:]):
                for y0, y1 in zip(yk, yk[1:]):
                    q = [V((d[0]*u, y, d[1]*u)) for u, y in ((u0, y0), (u1, y0), (u1, y1), (u0, y1))]
                    if not before: q.reverse()
                    fs_ = [[q[0], q[1], q[2]], [q[0], q[2], q[3]]] if rng.random() < .5 else [[q[1], q[2], q[3]], [q[1], q[3], q[0]]]
                    for f in fs_: pr.faces.append(f); pr.ids.append(nid); nid += 1
        A = [w.atom((-D[p][1], 0, D[p][0]), 0) for p in pages]
        if full:
            st = not first_in                              # membership right after pages[0]
            for j in range(m):
                if st:
                    p, q = D[pages[j]], D[pages[(j+1) % m]]
                    c = p[0]*q[1] - p[1]*q[0]; dt = p[0]*q[0] + p[1]*q[1]
                    if c > 0: pr.dnf.append([(A[j], 0), (A[(j+1) % m], 1)])
                    elif c < 0: pr.dnf += [[(A[j], 0)], [(A[(j+1) % m], 1)]]
                    else: pr.dnf.append([(A[j], 0)])
                st = not st
        else:
            st = first_in
            if st: pr.dnf.append([(A[0], 1)])
            for j in range(m):
                st = not st
                if st: pr.dnf.append([(A[j], 0)] + ([(A[j+1], 1)] if j+1 < m else []))
        w.prims.append(pr)
    lim = ((-3 if full else 0), 0, -3), (3, Y, 3)
    for ax in range(3):
        for v in lim:
            e1 = [0]*3; e1[(ax+1) % 3] = 1; e2 = [0]*3; e2[(ax+2) % 3] = 1
            w.clip.append((v, add(v, e1), add(v, e2)))
    for _ in range(60):
        d = rng.choice(D); t = rng.choice(D)
        a = Fr(rng.randrange(1, 500), 1009); b = Fr(rng.randrange(1, 500), 1013)
        p = (d[0]*a + t[0]*b, Y*generic(rng), d[1]*a + t[1]*b)
        if lim[0][0] < p[0] < 3 and -3 < p[2] < 3: w.add_point(p)
    srt = sorted(used)
    for i, j in zip(srt, srt[1:] + ([srt[0]] if full else [])):      # a sample in every sector
        p, q = D[i], D[j]
        c = p[0]*q[1] - p[1]*q[0]
        v = (p[0]+q[0], p[1]+q[1]) if c > 0 else ((-p[0]-q[0], -p[1]-q[1]) if c < 0 else (-p[1], p[0]))
        s = Fr(1, 7)
        w.add_point((v[0]*s, Fr(5, 3), v[1]*s))
    if not full:
        for pg, sg in ((srt[0], -1), (srt[-1], 1)):
            d = D[pg]
            w.add_point((Fr(1, 1000), Fr(7, 5), sg*Fr(5, 2)))
    for pg in srt:
        d = D[pg]
        for _ in range(3):
            u, y = generic(rng), Y*generic(rng)
            n = (-d[1], 0, d[0])
            w.add_germ((d[0]*u, y, d[1]*u), n if rng.random() < .5 else mul(n, -1))
    w.M, w.t = pick_map(rng)
    return w
