"""Footprint generators (whole-unit integer coordinates).  Deterministic in the
random.Random instance they get."""
import math, random


def area2(p):
    return sum(p[i - 1][0] * p[i][1] - p[i][0] * p[i - 1][1] for i in range(len(p)))


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def segx(a, b, c, d):
    def on(a, b, c):
        return min(a[0], b[0]) <= c[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= c[1] <= max(a[1], b[1])
    o1, o2, o3, o4 = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
    if (o1 > 0) != (o2 > 0) and (o3 > 0) != (o4 > 0) and 0 not in (o1, o2, o3, o4):
        return True
    return (o1 == 0 and on(a, b, c)) or (o2 == 0 and on(a, b, d)) or (o3 == 0 and on(c, d, a)) or (o4 == 0 and on(c, d, b))


def inside(p, c):
    r = False
    for i in range(len(c)):
        a, b = c[i - 1], c[i]
        if (a[1] > p[1]) != (b[1] > p[1]):
            if (orient(a, b, p) > 0) == (b[1] > a[1]):
                r = not r
    return r


def ptseg(p, q, r):
    L = math.dist(q, r)
    t = max(0, min(1, ((p[0] - q[0]) * (r[0] - q[0]) + (p[1] - q[1]) * (r[1] - q[1])) / L / L))
    return math.dist(p, (q[0] + t * (r[0] - q[0]), q[1] + t * (r[1] - q[1])))


def valid(cs, mind=3.0, maxcos=0.97):
    es = [(c[i - 1], c[i], ci, i, len(c)) for ci, c in enumerate(cs) for i in range(len(c))]
    for k, (a, b, ci, i, n) in enumerate(es):
        if a == b or math.dist(a, b) < mind:
            return False
        for (c, d, cj, j, m) in es[k + 1:]:
            if ci == cj and (j - i) % n in (1, n - 1):
                continue
            if segx(a, b, c, d):
                return False
            for p, (q, r) in ((a, (c, d)), (b, (c, d)), (c, (a, b)), (d, (a, b))):
                if ptseg(p, q, r) < mind:
                    return False
    for c in cs:
        n = len(c)
        for i in range(n):
            a, b, d = c[i - 1], c[i], c[(i + 1) % n]
            u = (b[0] - a[0], b[1] - a[1])
            v = (d[0] - b[0], d[1] - b[1])
            co = (u[0] * v[0] + u[1] * v[1]) / math.hypot(*u) / math.hypot(*v)
            if abs(co) > maxcos:
                return False
    if area2(cs[0]) <= 0:
        return False
    for h in cs[1:]:
        if area2(h) >= 0 or not inside(h[0], cs[0]):
            return False
        for g in cs[1:]:
            if g is not h and inside(h[0], g):
                return False
    return True


def rnd_ring(rng, n, box):
    x0, y0, x1, y1 = box
    p = [(rng.randint(x0, x1), rng.randint(y0, y1)) for _ in range(n)]
    if len(set(p)) < n:
        return None
    for _ in range(200):
        for i in range(n):
            hit = False
            for j in range(i + 2, n):
                if i == 0 and j == n - 1:
                    continue
                if segx(p[i], p[i + 1], p[j], p[(j + 1) % n]):
                    p[i + 1:j + 1] = p[i + 1:j + 1][::-1]
                    hit = True
                    break
            if hit:
                break
        else:
            break
    if area2(p) < 0:
        p.reverse()
    return p


def general(rng, nholes, nmax, R=100, nmin=3, mind=3.0):
    while True:
        c = rnd_ring(rng, rng.randint(nmin, nmax), (-R, -R, R, R))
        if not c or not valid([c], mind):
            continue
        cs = [c]
        ok = True
        for _ in range(nholes):
            for t in range(60):
                s = rng.randint(15, 40) * R // 100
                x, y = rng.randint(-R, R), rng.randint(-R, R)
                h = rnd_ring(rng, rng.randint(3, 6), (x - s, y - s, x + s, y + s))
                if h and valid(cs + [h[::-1]], mind):
                    cs.append(h[::-1])
                    break
            else:
                ok = False
                break
        if ok:
            return cs


def stretched(rng, nmax):
    """long and narrow: a general polygon four times as wide"""
    while True:
        c = rnd_ring(rng, rng.randint(3, nmax), (-50, -50, 50, 50))
        c = c and [(4 * x, y) for x, y in c]
        if c and valid([c], 3.0, .98):
            return [c]


def convex(rng, n, R=100):
    while True:
        a = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
        p = [(round(R * math.cos(t)), round(R * rng.choice([.6, .8, 1]) * math.sin(t))) for t in a]
        if len(set(p)) < n:
            continue
        if all(orient(p[i - 2], p[i - 1], p[i]) > 0 for i in range(n)) and valid([p], 5, 0.985):
            return [p]


def around(rng, n, R=150):
    """convex with many corners"""
    while True:
        f = rng.choice([.6, .8, 1])
        p = [(round(R * math.cos(t)), round(R * f * math.sin(t))) for t in (2 * math.pi * (i + rng.random() * .6) / n for i in range(n))]
        if all(orient(p[i - 2], p[i - 1], p[i]) > 0 for i in range(n)) and valid([p], 5, 0.992):
            return [p]


def polyomino(rng, W, H, k):
    cells = {(rng.randrange(W), rng.randrange(H))}
    while len(cells) < k:
        c = rng.choice(sorted(cells))
        d = rng.choice([(1, 0), (-1, 0), (0, 1), (0, -1)])
        n = (c[0] + d[0], c[1] + d[1])
        if 0 <= n[0] < W and 0 <= n[1] < H:
            cells.add(n)
    return cells


def rings_of(cells):
    """boundary rings of a set of cells, outer first; None if two cells touch only at a corner"""
    nxt = {}
    for x, y in cells:
        for (a, b, nb) in (((x, y), (x + 1, y), (x, y - 1)), ((x + 1, y), (x + 1, y + 1), (x + 1, y)),
                           ((x + 1, y + 1), (x, y + 1), (x, y + 1)), ((x, y + 1), (x, y), (x - 1, y))):
            if nb not in cells:
                if a in nxt:
                    return None
                nxt[a] = b
    out = []
    while nxt:
        s = min(nxt)
        c = [s]
        p = nxt.pop(s)
        while p != s:
            c.append(p)
            p = nxt.pop(p)
        m = len(c)
        c = [c[i] for i in range(m) if not ((c[i - 1][0] == c[i][0] == c[(i + 1) % m][0]) or
                                            (c[i - 1][1] == c[i][1] == c[(i + 1) % m][1]))]
        out.append(c)
    out.sort(key=lambda c: -area2(c))
    return out


def rect(rng, gp=True, W=None, H=None, step=2, mx=12, cells=None):
    """random rectilinear footprint; gp: the coordinates of all walls are distinct"""
    while True:
        w = W or rng.randint(2, 5)
        h = H or rng.randint(2, 5)
        cs = rings_of(polyomino(rng, w, h, cells or rng.randint(2, w * h)))
        if not cs:
            continue
        xs, ys = [0], [0]
        for i in range(w):
            xs.append(xs[-1] + step * rng.randint(1, mx))
        for i in range(h):
            ys.append(ys[-1] + step * rng.randint(1, mx))
        cx, cy = xs[-1] // 2, ys[-1] // 2
        cs = [[(xs[x] - cx, ys[y] - cy) for x, y in c] for c in cs]
        co = [('x', c[i][0]) if c[i - 1][0] == c[i][0] else ('y', c[i][1]) for c in cs for i in range(len(c))]
        if not gp or len(set(co)) == len(co):
            return cs


def octi(rng, k=None):
    """convex corners of a random rectilinear footprint cut at 45 degrees"""
    while True:
        cs = rect(rng, True, mx=16, step=2)
        out = []
        for c in cs:
            n = len(c)
            r = []
            for i in range(n):
                a, b, d = c[i - 1], c[i], c[(i + 1) % n]
                l = min(math.dist(a, b), math.dist(b, d))
                t = rng.randint(2, 9)
                if rng.random() < .4 and l > 2 * t + 4:
                    u = ((a[0] > b[0]) - (a[0] < b[0]), (a[1] > b[1]) - (a[1] < b[1]))
                    v = ((d[0] > b[0]) - (d[0] < b[0]), (d[1] > b[1]) - (d[1] < b[1]))
                    r.append((b[0] + t * u[0], b[1] + t * u[1]))
                    r.append((b[0] + t * v[0], b[1] + t * v[1]))
                else:
                    r.append(b)
            out.append(r)
        if any(len(c) != len(d) for c, d in zip(cs, out)) and valid(out, 2.5):
            return out


def bay(rng):
    """rectangle with small rectangular bays of equal sides (dormers)"""
    while True:
        L = 2 * rng.randint(15, 45)
        Wd = 2 * rng.randint(6, 20)
        nb = rng.randint(1, 2)
        pts = [(0, 0)]
        x = 0
        for _ in range(nb):
            x += 2 * rng.randint(3, 15)
            w = 2 * rng.randint(1, 4)
            d = rng.randint(1, 6)
            pts += [(x, 0), (x, -d), (x + w, -d), (x + w, 0)]
            x += w
        x += 2 * rng.randint(3, 15)
        pts += [(x, 0), (x, Wd), (0, Wd)]
        pts = [(a - x // 2, b - Wd // 2) for a, b in pts]
        if valid([pts], 0.9):
            q = rng.randrange(4)
            for _ in range(q):
                pts = [(-b, a) for a, b in pts]
            return [pts]


# ---- symmetric shapes: many events coincide.  Coordinates in 1/64.
def ring64(pts):
    return [[round(x * 64), round(y * 64)] for x, y in pts]


def polar(n, r, ph=0.0, cx=0.0, cy=0.0):
    rs = r if isinstance(r, (list, tuple)) else [r]
    return [(cx + rs[i % len(rs)] * math.cos(2 * math.pi * i / n + ph), cy + rs[i % len(rs)] * math.sin(2 * math.pi * i / n + ph)) for i in range(n)]


def symmetric(rng):
    k = rng.randrange(12)
    R = rng.choice([5, 8, 10, 20, 40, 64, 90])
    ph = rng.choice([0, 0, .1, math.pi / 4, rng.uniform(0, 6)])
    if k == 0:
        return [ring64(polar(rng.randint(3, 40), R, ph))]
    if k == 1:
        n = rng.randint(3, 12)
        return [ring64(polar(2 * n, [R, R * rng.choice([.4, .5, .6, .7, .8])], ph))]
    if k == 2:                                        # ring of two regular polygons
        n = rng.randint(3, 16)
        m = rng.choice([n, n, rng.randint(3, 12)])
        return [ring64(polar(n, R, ph)), ring64(polar(m, R * rng.choice([.2, .3, .35]), rng.choice([ph, 0, ph + math.pi / m])))[::-1]]
    if k == 3:                                        # grid with square holes
        w, h, t = rng.randint(1, 4), rng.randint(1, 4), rng.choice([2, 3, 4])
        c = [(0, 0), ((w * 2 + 1) * t, 0), ((w * 2 + 1) * t, (h * 2 + 1) * t), (0, (h * 2 + 1) * t)]
        hs = []
        for i in range(w):
            for j in range(h):
                if rng.random() < .8:
                    x, y = (2 * i + 1) * t, (2 * j + 1) * t
                    hs.append([(x, y), (x, y + t), (x + t, y + t), (x + t, y)])
        return [ring64(c)] + [ring64(q) for q in hs]
    if k == 4:                                        # comb, symmetric or with two sides
        n, t, d = rng.randint(1, 6), rng.choice([2, 4, 6]), rng.choice([2, 4, 6, 10])
        up = []
        for i in range(n):
            up += [(2 * i * t + t, 0), (2 * i * t + t, -d), (2 * i * t + 2 * t, -d), (2 * i * t + 2 * t, 0)]
        L, H = (2 * n + 1) * t, rng.choice([t, 2 * t, 3 * t])
        pts = [(0, 0)] + up + [(L, 0)]
        pts += [(L - x, H - y) for x, y in pts] if rng.random() < .5 else [(L, H), (0, H)]
        return [ring64(pts)]
    if k == 5:                                        # stairs, single or as a pyramid
        n, a, b = rng.randint(1, 7), rng.choice([2, 4, 5]), rng.choice([2, 3, 4])
        up = []
        for i in range(n):
            up += [(i * a, i * b), ((i + 1) * a, i * b)]
        pts = up + [(n * a, n * b), (0, n * b)] if rng.random() < .5 else None
        if pts is None:
            pts = [(-n * a, 0), (n * a, 0)]
            for i in range(1, n + 1):
                pts += [((n - i + 1) * a, i * b), ((n - i) * a, i * b)] if i < n else [(a, n * b)]
            pts += [(-x, y) for x, y in pts[:1:-1]]
        return [ring64(pts)]
    if k == 6:                                        # plus with m arms
        m, w, l = rng.choice([3, 4, 5, 6, 8]), rng.choice([2, 4, 6]), rng.choice([4, 10, 20])
        r0 = w / 2 / math.tan(math.pi / m)
        pts = []
        for i in range(m):
            a = 2 * math.pi * i / m + ph
            c, s = math.cos(a), math.sin(a)
            for u, v in ((r0, -w / 2), (r0 + l, -w / 2), (r0 + l, w / 2)):
                pts.append((u * c - v * s, u * s + v * c))
        return [ring64(pts)]
    if k == 7:                                        # apses on a rectangle
        n, R, L = rng.randint(7, 24), rng.choice([5, 8, 10, 13]), rng.choice([3, 10, 20, 40])
        arc = [(R * math.sin(math.pi * i / n), -R * math.cos(math.pi * i / n)) for i in range(1, n)]
        pts = [(-L, -R), (0, -R)] + arc + [(0, R), (-L, R)]
        if rng.random() < .4:
            pts = [(-L, -R), (0, -R)] + arc + [(0, R), (-L, R)] + [(-L - x, -y) for x, y in arc]
        return [ring64(pts)]
    if k == 8:                                        # sawtooth roof line
        n, t = rng.randint(2, 8), rng.choice([2, 4, 8])
        pts = [(0, -t * rng.choice([1, 2, 4]))]
        pts = [(0, pts[0][1]), (n * t, pts[0][1])]
        for i in range(n, 0, -1):
            pts += [(i * t, 0), ((i - .5) * t, t / 2)]
        return [ring64(pts + [(0, 0)])]
    if k == 9:                                        # spiral
        n, t = rng.randint(3, 9), rng.choice([2, 4])
        x, y, path = 0, 0, [(0, 0)]
        d = [(1, 0), (0, 1), (-1, 0), (0, -1)]
        lens = []
        for i in range(n):
            l = (2 * (n - i) // 2 + 1) * t * 2
            lens.append(l)
            x, y = x + d[i % 4][0] * l, y + d[i % 4][1] * l
            path.append((x, y))
        # offset the path to the left by t
        out = []
        for i, (x, y) in enumerate(path):
            a = d[(i - 1) % 4] if i else None
            b = d[i % 4] if i < n else None
            nx = sum((-v[1]) * t for v in (a, b) if v)
            ny = sum(v[0] * t for v in (a, b) if v)
            out.append((x + nx, y + ny))
        return [ring64(path + out[::-1])]
    if k == 10:                                       # L, U, Z, T, H, E, O with legs of one width
        w = rng.choice([2, 4, 6, 10])
        cells = rng.choice(['xx/x.', 'xxx/x.x', 'xx./.xx', 'xxx/.x.', 'x.x/xxx/x.x', 'xxx/x../xxx/x../xxx', 'xxx/x.x/xxx', 'x.x.x/xxxxx',
                            '.x./xxx/.x.', 'xxxxx/x.x.x/xxxxx', 'xxx/x../xxx/..x/xxx', 'x..x/xxxx/x..x', '..x../.xxx./xxxxx/.xxx./..x..'])
        S = {(i, j) for j, r in enumerate(cells.split('/')) for i, q in enumerate(r) if q == 'x'}
        return [ring64([(x * w, y * w) for x, y in c]) for c in rings_of(S)]
    # square with a bay or a notch in the middle of every side
    a, w, d = rng.choice([6, 10, 20]), rng.choice([1, 2, 4]), rng.choice([1, 2, 3])
    s = rng.choice([1, -1])
    side = [(-a, -a), (-w, -a), (-w, -a - s * d), (w, -a - s * d), (w, -a)]
    pts = []
    for q in range(4):
        p = side
        for _ in range(q):
            p = [(-y, x) for x, y in p]
        pts += p if rng.random() < .9 else p[:1]
    return [ring64(pts)]
