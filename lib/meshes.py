"""Small triangle collections: valid meshes and the ways to spoil them, in integer coordinates."""
import itertools

def tetra(rng, R=3):
    while True:
        p = [tuple(rng.randrange(-R, R + 1) for _ in range(3)) for _ in range(4)]
        a, b, c, d = p; s = lambda x, y: [i - j for i, j in zip(x, y)]
        u, v, w = s(b, a), s(c, a), s(d, a)
        det = u[0]*(v[1]*w[2]-v[2]*w[1]) - u[1]*(v[0]*w[2]-v[2]*w[0]) + u[2]*(v[0]*w[1]-v[1]*w[0])
        if det: return p, ([(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)] if det > 0 else [(0, 1, 2), (0, 3, 1), (1, 3, 2), (2, 3, 0)]), True
def octa(rng, R=3):
    s = rng.randrange(1, R + 1)
    return [(s,0,0),(-s,0,0),(0,s,0),(0,-s,0),(0,0,s),(0,0,-s)], [(0,2,4),(2,1,4),(1,3,4),(3,0,4),(2,0,5),(1,2,5),(3,1,5),(0,3,5)], True
def cube(rng, R=3):
    s = rng.randrange(1, R + 1)
    P = [tuple(s * ((i >> k) & 1) for k in range(3)) for i in range(8)]; F = []
    for q in ((0,2,3,1),(4,5,7,6),(0,1,5,4),(2,6,7,3),(0,4,6,2),(1,3,7,5)):
        a, b, c, d = q; F += [(a, b, c), (a, c, d)] if rng.random() < .5 else [(a, b, d), (b, c, d)]
    return P, F, True
def strip(rng, R=3):
    n, m, s = rng.randrange(1, 4), rng.randrange(1, 3), rng.choice((1, 2)); P, F = [], []
    for i in range(n + 1):
        for j in range(m + 1): P.append((s * i, s * j, rng.choice((0, 0, 0, 1, 2)) if rng.random() < .5 else 0))
    for i in range(n):
        for j in range(m):
            a, b, c, d = i*(m+1)+j, (i+1)*(m+1)+j, (i+1)*(m+1)+j+1, i*(m+1)+j+1
            F += [(a, b, c), (a, c, d)] if rng.random() < .5 else [(a, b, d), (b, c, d)]
    return P, F, False
def disk(rng, R=3):
    """a fan of triangles around a vertex, closed or not."""
    ring = [(2,0),(2,1),(1,2),(0,2),(-1,2),(-2,1),(-2,0),(-2,-1),(-1,-2),(0,-2),(1,-2),(2,-1)]
    k = rng.randrange(1, 3); off = rng.randrange(12); pts = [ring[(off + i * k) % 12] for i in range(12 // k)]; n = rng.choice((len(pts), rng.randrange(2, len(pts))))
    P = [(0, 0, rng.randrange(-1, 2))] + [(x, y, 0) for x, y in pts[:n]]
    F = [(0, i + 1, i + 2) for i in range(n - 1)] + ([(0, n, 1)] if n == len(pts) else [])
    return P, F, False
def pages(rng, R=3):
    ring = [(2,0),(2,2),(0,2),(-2,2),(-2,0),(-2,-2),(0,-2),(2,-2)]; k = rng.sample(ring, rng.randrange(2, 6))
    return [(0, 0, -2), (0, 0, 2)] + [(x, y, rng.randrange(-1, 2)) for x, y in k], [(0, 1, i + 2) if rng.random() < .5 else (1, 0, i + 2) for i in range(len(k))], None
def soup(rng, R=2):
    n = rng.randrange(3, 7); P = [tuple(rng.randrange(-R, R + 1) for _ in range(3)) for _ in range(n)]
    return P, [tuple(rng.choice(range(n)) for _ in range(3)) if rng.random() < .25 else tuple(rng.sample(range(n), 3)) for _ in range(rng.randrange(0, 9))], None

def join(A, B, shift=(0, 0, 0)):
    n = len(A[0])
    return A[0] + [tuple(x + y for x, y in zip(p, shift)) for p in B[0]], A[1] + [tuple(i + n for i in f) for f in B[1]]

def spoil(rng, P, F):
    """one random disturbance; coordinates stay small."""
    P, F = list(P), list(F); k = rng.randrange(13); n = len(P)
    i = rng.randrange(len(F)) if F else None
    if k == 0 and F: F[i] = (F[i][1], F[i][0], F[i][2])
    elif k == 1 and F: del F[i]
    elif k == 2 and F: F.append(tuple(F[i][(j + 1) % 3] for j in range(3)) if rng.random() < .5 else (F[i][1], F[i][0], F[i][2]))
    elif k == 3 and F: f = list(F[i]); f[rng.randrange(3)] = rng.choice(f); F.append(tuple(f))
    elif k == 4: P += [tuple(rng.randrange(-3, 4) for _ in range(3)) for _ in range(rng.randrange(1, 3))]
    elif k == 5 and F:      # a doubled vertex used by one face only
        j = rng.randrange(3); f = list(F[i]); P.append(P[f[j]]); f[j] = n; F[i] = tuple(f)
    elif k == 6 and F:      # a collinear face
        a, b, _ = F[i]; P.append(tuple(2 * y - x for x, y in zip(P[a], P[b]))); f = [a, b, n]; rng.shuffle(f); F.append(tuple(f))
    elif k == 7 and n >= 3: F.append(tuple(rng.sample(range(n), 3)))
    elif k == 8 and n: j = rng.randrange(n); P[j] = tuple(x + rng.randrange(-1, 2) for x in P[j])
    elif k == 9 and n: P.append(P[rng.randrange(n)])
    elif k == 10 and n:     # another component at a vertex
        v = rng.randrange(n); Q, G, _ = rng.choice((tetra, octa))(rng, 2); d = tuple(x - y for x, y in zip(P[v], Q[0])); P, F = join((P, F), (Q, G), d)
    elif k == 11 and n:     # something anywhere
        Q, G, _ = rng.choice((tetra, strip, disk))(rng, 2); P, F = join((P, F), (Q, G), tuple(rng.randrange(-3, 4) for _ in range(3)))
    elif k == 12 and F:     # a face subdivided: a vertex in the middle of an edge of this face only, or an extra inner vertex
        a, b, c = F[i]
        m = tuple(x + y for x, y in zip(P[a], P[b]))
        if all(x % 2 == 0 for x in m): P.append(tuple(x // 2 for x in m)); F[i] = (a, n, c); F.append((n, b, c))
    return P, F

def mesh(rng):
    """(points, faces, valid, closed)"""
    P, F, closed = rng.choice((tetra, octa, cube, strip, disk, pages, soup))(rng)
    valid = closed is not None and rng.random() < .25
    if not valid:
        for _ in range(rng.choice((1, 1, 1, 2, 2, 3))): P, F = spoil(rng, P, F)
    # names mean nothing
    perm = list(range(len(P))); rng.shuffle(perm); Q = [None] * len(P)
    for i, p in enumerate(P): Q[perm[i]] = p
    F = [tuple(perm[i] for i in f) for f in F]; F = [f[r:] + f[:r] for f in F for r in [rng.randrange(3)]]; rng.shuffle(F)
    ax = rng.choice(list(itertools.permutations(range(3)))); Q = [tuple(p[a] for a in ax) for p in Q]
    return Q, F, int(valid), int(bool(closed))
