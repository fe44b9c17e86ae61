"""Operations on single functions of the library (imported by ops.py).

A function that is not there (renamed or removed by a change of the code)
makes the record a skipped one; nothing is judged then."""
import inspect
import ops
from ops import op, S, fx, excname, Vector, bps, real
from bpypolyskel import bpyeuclid as euc
try:
    from bpypolyskel import poly2FacesGraph as p2f
except ImportError:
    p2f = None


def q(v, s):
    return fx(v, clamp=1 << 28, s=s)


def missing(job, *names):
    for mod, n in names:
        if not hasattr(mod, n):
            return {'id': job['id'], 'skip': 'no %s' % n}


def guarded(f):
    def g(job):
        try:
            return f(job)
        except Exception as e:
            return {'id': job['id'], 'ok': False, 'exc': excname(e)}
    g.__name__ = f.__name__
    return g


# ---------------------------------------------------------------- bpyeuclid
PS = 4096


def carrier(kind, p, v):
    """kind: E an edge as a line, V a line by point and direction, R a ray"""
    P, D = Vector((float(p[0]), float(p[1]))), Vector((float(v[0]), float(v[1])))
    if kind == 'E':
        return euc.Line2(euc.Edge2(P, P + D))
    if kind == 'V':
        return euc.Line2(P, D, 'pv')
    return euc.Ray2(P, D)


@op
@guarded
def meet(job):
    """intersections of lines and rays: cases [kindA, pA, vA, kindB, pB, vB]"""
    m = missing(job, (euc, 'Line2'), (euc, 'Ray2'), (euc, 'Edge2'))
    if m:
        return m
    out = []
    for ka, pa, va, kb, pb, vb, *sc in job['cases']:
        sc = sc[0] if sc else PS
        A, B = carrier(ka, pa, va), carrier(kb, pb, vb)
        r = A.intersect(B)
        keep = tuple(A.p) == tuple(map(float, pa)) and tuple(B.p) == tuple(map(float, pb)) \
            and tuple(A.v) == tuple(map(float, va)) and tuple(B.v) == tuple(map(float, vb))
        out.append([1 if ka == 'R' else 0, 1 if kb == 'R' else 0, pa, va, pb, vb,
                    [] if r is None else [q(r[0], sc), q(r[1], sc)], 1 if keep else 0, sc])
    return {'id': job['id'], 'ok': True, 'kind': 'meet', 'cases': out}


@op
@guarded
def segs(job):
    """left turns and segment intersection: cases [A, B, C, D]"""
    m = missing(job, (euc, 'intersect'), (euc, 'ccw'))
    if m:
        return m
    out = []
    for c in job['cases']:
        A, B, C, D = [Vector((float(x), float(y))) for x, y in c]
        out.append(c + [1 if euc.intersect(A, B, C, D) else 0, 1 if euc.ccw(A, B, C) else 0])
    return {'id': job['id'], 'ok': True, 'kind': 'segs', 'cases': out}


@op
@guarded
def edges(job):
    """edges and distances: cases [p, q, r, offset]"""
    m = missing(job, (euc, 'Line2'), (euc, 'Edge2'))
    if m:
        return m
    out = []
    for n, (p, r, x, o) in enumerate(job['cases']):
        P, R, X = [Vector((float(a), float(b))) for a, b in (p, r, x)]
        e = euc.Edge2(P, R)
        L = euc.Line2(e)
        d = L.distance(X)
        # the same edge by indices into a list of 3d vertices, relative to a center
        verts = [Vector((9.0, 9.0, 9.0))] * (n % 3) + [Vector((P.x + o[0], P.y + o[1], 5.0)), Vector((R.x + o[0], R.y + o[1], 5.0))]
        c = Vector((float(o[0]), float(o[1]), 0.0))
        g = euc.Edge2(n % 3, n % 3 + 1, None, verts, c)
        u = euc.Edge2(n % 3, n % 3 + 1, Vector((0.0, 1.0, 0.0)), verts, c)
        same = all((w.i1, w.i2) == (n % 3, n % 3 + 1) and tuple(w.p1) == tuple(P) and tuple(w.p2) == tuple(R) for w in (g, u))
        same = same and tuple(u.norm) == (0.0, 1.0) and (g.norm - e.norm).length < 1e-5
        out.append([p, r, x, q(d, 64), [q(e.norm[0], PS), q(e.norm[1], PS)], q(e.length_squared(), 16), 1 if same else 0,
                    [q(e.p1[0], 1), q(e.p1[1], 1), q(e.p2[0], 1), q(e.p2[1], 1)]])
    return {'id': job['id'], 'ok': True, 'kind': 'edges', 'cases': out}


@op
@guarded
def circles(job):
    """circle through the first, the middle and the last of a list of points"""
    m = missing(job, (euc, 'fitCircle3Points'))
    if m:
        return m
    out = []
    for ps in job['cases']:
        c, R = euc.fitCircle3Points([Vector((float(x), float(y))) for x, y in ps])
        out.append([ps, [q(c[0], 64), q(c[1], 64)], q(R, 64)])
    return {'id': job['id'], 'ok': True, 'kind': 'circles', 'cases': out}


# ---------------------------------------------------------------- crossings
@op
@guarded
def crossings(job):
    """checkEdgeCrossing: cases are lists of nodes [source, [sinks]]"""
    m = missing(job, (bps, 'checkEdgeCrossing'), (bps, 'Subtree'))
    if m:
        return m
    out = []
    for nodes in job['cases']:
        v = lambda p: Vector((float(p[0]), float(p[1])))
        sk = [bps.Subtree(v(s), 1.0, [v(t) for t in ts]) for s, ts in nodes]
        n = bps.checkEdgeCrossing(sk)
        keep = [[list(map(int, a.source)), [list(map(int, t)) for t in a.sinks]] for a in sk] == nodes
        out.append([nodes, int(n), 1 if keep else 0])
    return {'id': job['id'], 'ok': True, 'kind': 'crossings', 'cases': out}


# ---------------------------------------------------------------- faces of a planar graph
@op
@guarded
def plane(job):
    """poly2FacesGraph: cases {pts, edges, n, loops, offset}; vertices are numbered from 1"""
    m = missing(job, (p2f, 'poly2FacesGraph'))
    if m:
        return m
    out = []
    for c in job['cases']:
        G = p2f.poly2FacesGraph()
        V = [Vector((float(x), float(y), float((3 * i) % 5))) for i, (x, y) in enumerate(c['pts'])]
        for k, (a, b) in enumerate(c['edges']):
            e = (a - 1, b - 1)
            G.add_edge([e, list(e), set(e), e[::-1]][(k + c['n']) % 4])
        for a in c.get('loops', []):
            G.add_edge((a - 1, a - 1))
        for k, (a, b) in enumerate(c.get('again', [])):
            G.add_edge((a - 1, b - 1) if k & 1 else (b - 1, a - 1))
        emb = G.circular_embedding(V, 'CCW')
        rev = G.circular_embedding(V, 'CW')
        lst = lambda em: [[int(w) + 1 for w in em[v]] if v in em else [] for v in range(len(V))]
        A, B = lst(emb), lst(rev)
        F = [[int(v) + 1 for v in f] for f in G.faces(emb, c['n'])]
        out.append({'pts': c['pts'], 'edges': c['edges'], 'n': c['n'], 'emb': A, 'flip': B, 'faces': F,
                    'nodes': sum(1 for v in range(len(V)) if A[v])})
    return {'id': job['id'], 'ok': True, 'kind': 'plane', 'cases': out}


# ---------------------------------------------------------------- skeleton clean-up
US = 1024


def build_skel(job):
    """corners, nodes [x, y, h] in units of 1/job['unit'], arcs [[kind, index]] (0 corner, 1 node; from 1)"""
    u = float(job['unit'])
    v = lambda p: Vector((p[0] / u, p[1] / u))
    cs = [p for r in job['rings'] for p in r]
    ends = lambda e: v((cs if e[0] == 0 else job['nodes'])[e[1] - 1])
    return [bps.Subtree(v(n), n[2] / u, [ends(e) for e in a]) for n, a in zip(job['nodes'], job['arcs'])], [v(c) for c in cs]


def show_skel(sk, corners, u):
    src = [tuple(a.source) for a in sk]
    cor = [tuple(c) for c in corners]

    def enc(t):
        t = tuple(t)
        return [0, cor.index(t) + 1] if t in cor else [1, src.index(t) + 1] if t in src else [2, 0]
    return {'nodes': [[q(a.source[0], u), q(a.source[1], u), q(a.height, u)] for a in sk],
            'arcs': [[enc(t) for t in a.sinks] for a in sk]}


def contours_of(job):
    u = float(job['unit'])
    return [[euc.Edge2(Vector((a[0] / u, a[1] / u)), Vector((b[0] / u, b[1] / u))) for a, b in zip(r, r[1:] + r[:1])]
            for r in job['rings']]


@op
@guarded
def merge(job):
    """mergeNodeClusters on a given skeleton"""
    m = missing(job, (bps, 'mergeNodeClusters'), (bps, 'Subtree'), (euc, 'Edge2'))
    if m:
        return m
    sk, cs = build_skel(job)
    out = bps.mergeNodeClusters(sk, contours_of(job))
    return {'id': job['id'], 'ok': True, 'rings': job['rings'], 'unit': job['unit'], 'apses': job.get('apses', []),
            'before': {'nodes': job['nodes'], 'arcs': job['arcs']}, 'after': show_skel(out, cs, job['unit'])}


@op
@guarded
def ghosts(job):
    """removeGhosts on given skeletons: cases {rings, nodes, arcs}, lattice coordinates"""
    m = missing(job, (bps, 'removeGhosts'), (bps, 'Subtree'))
    if m:
        return m
    out = []
    for c in job['cases']:
        c = dict(c, unit=1)
        sk, cs = build_skel(c)
        try:
            bps.removeGhosts(sk)
            a = show_skel(sk, cs, 1)
        except Exception as e:
            a = {'nodes': [], 'arcs': []}
        out.append({'corners': [p for r in c['rings'] for p in r], 'nodes': c['nodes'], 'arcs': c['arcs'], 'after': a})
    return {'id': job['id'], 'ok': True, 'cases': out}


@op
@guarded
def apses(job):
    """detectApses of outer contours on the lattice: cases are rings"""
    m = missing(job, (bps, 'detectApses'), (euc, 'Edge2'))
    if m:
        return m
    out = []
    for c in job['cases']:
        r = bps.detectApses(contours_of({'unit': 1, 'rings': [c]})[0])
        out.append({'ring': c, 'centers': [[q(p[0], 64), q(p[1], 64)] for p in (r or [])]})
    return {'id': job['id'], 'ok': True, 'kind': 'apses', 'cases': out}


@op
@guarded
def bays(job):
    """detectDormers of outer contours on the lattice: cases [ring, unit]"""
    m = missing(job, (bps, 'detectDormers'), (bps, '_SLAV'), (euc, 'Edge2'))
    if m:
        return m
    out = []
    for c, u in job['cases']:
        E = contours_of({'unit': u, 'rings': [c]})
        r = bps.detectDormers(bps._SLAV(E), E)
        out.append({'ring': c, 'unit': u, 'bays': [[int(i) + 1 for i in oi] for oi, w in r],
                    'widths': [q(w * u, 64) for oi, w in r]})
    return {'id': job['id'], 'ok': True, 'kind': 'bays', 'cases': out}


# ---------------------------------------------------------------- clean-up of faces
import random, math


def seg_dist(p, a, b):
    ax, ay = b[0] - a[0], b[1] - a[1]
    L = ax * ax + ay * ay
    t = 0 if L == 0 else max(0, min(1, ((p[0] - a[0]) * ax + (p[1] - a[1]) * ay) / L))
    return math.hypot(p[0] - a[0] - t * ax, p[1] - a[1] - t * ay)


def spoil(sk, contours, rng):
    """Adds to a skeleton what the clean-up has to take away again: dead ends
    (of one or two lines) that start at a node or at a corner, and nodes in the
    middle of lines.  Returns how many."""
    C = [(e.p1.x, e.p1.y, e.p2.x, e.p2.y) for c in contours for e in c]
    segs = [((a, b), (c, d)) for a, b, c, d in C]
    for a in sk:
        for s in a.sinks:
            segs.append(((a.source.x, a.source.y), (s.x, s.y)))
    ends = [(a.source, a.height, True) for a in sk] + [(e.p1, 0.0, False) for c in contours for e in c]
    done = 0
    todo = rng.sample(ends, min(len(ends), rng.randint(1, 4)))
    for v, h, isnode in todo:
        p = (v.x, v.y)
        mine = [s if s[0] == p else s[::-1] for s in segs if p in s]
        others = [s for s in segs if p not in s]
        if len(mine) < 2 or not others:
            continue
        ang = sorted(math.atan2(b[1] - a[1], b[0] - a[0]) for a, b in mine)
        gaps = [((ang[(i + 1) % len(ang)] - ang[i]) % (2 * math.pi), ang[i]) for i in range(len(ang))]
        if not isnode:      # only between the walls and the roof lines of the corner: the sectors on the left of a wall
            w = [e for c in contours for e in c if (e.p1.x, e.p1.y) == p]
            a0 = math.atan2(w[0].p2.y - w[0].p1.y, w[0].p2.x - w[0].p1.x)
            gaps = [g for g in gaps if abs((g[1] - a0 + math.pi) % (2 * math.pi) - math.pi) < 1e-9]
        gap, a0 = max(gaps) if rng.random() < .6 else rng.choice(gaps)
        if gap == 0:
            gap = 2 * math.pi
        if gap < .5:
            continue
        r = .3 * min(min(seg_dist(p, *s) for s in others), min(math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in mine))
        if r < .02:
            continue
        d = a0 + gap * rng.uniform(.4, .6)
        q1 = Vector((p[0] + r * math.cos(d), p[1] + r * math.sin(d)))
        add = [bps.Subtree(q1, h + .3 * r, [v])]
        if rng.random() < .4:
            q2 = Vector((q1.x + .5 * r * math.cos(d + .5), q1.y + .5 * r * math.sin(d + .5)))
            add.append(bps.Subtree(q2, h + .4 * r, [q1]))
            if rng.random() < .3:       # forked
                q3 = Vector((q1.x + .5 * r * math.cos(d - .5), q1.y + .5 * r * math.sin(d - .5)))
                add.append(bps.Subtree(q3, h + .4 * r, [q1]))
        if isnode and rng.random() < .5:     # owned by the node
            own = [a for a in sk if a.source == v][0]
            add[0].sinks.clear()
            own.sinks.append(q1)
        sk.extend(add)
        segs += [((a.source.x, a.source.y), (s.x, s.y)) for a in add for s in a.sinks]
        done += 1
    H = {tuple(a.source): a.height for a in sk}
    for a in rng.sample(sk, min(len(sk), rng.randint(0, 3))):
        if not a.sinks:
            continue
        i = rng.randrange(len(a.sinks))
        s = a.sinks[i]
        n = rng.choice((1, 1, 2))
        if (s - a.source).magnitude < .2:
            continue
        ts = [.4] if n == 1 else [.3, .6]
        mids = [bps.Subtree(a.source + (s - a.source) * t, a.height + (H.get(tuple(s), 0.0) - a.height) * t, []) for t in ts]
        chain = [a] + mids
        del a.sinks[i]
        for x, y in zip(chain, mids):
            if x is not a and rng.random() < .5:
                y.sinks.append(x.source)
            else:
                x.sinks.append(y.source)
        mids[-1].sinks.append(s)
        sk.extend(mids)
        done += n
    return done


@op
def cleanup(job):
    """the roof of a footprint, and the roof polygonize builds when its skeleton is spoilt"""
    m = missing(job, (bps, 'skeletonize'), (bps, 'Subtree'))
    if m:
        return m
    roof = ops.OPS['roof'] if hasattr(ops, 'OPS') else ops.roof
    rec = {'id': job['id'], 'kind': 'same', 't': job['t'], 'tz': job['tz']}
    rec['a'] = roof({'id': job['id'], 'contours': job['contours'], 'cfg': {}})
    orig = bps.skeletonize
    st = {'n': 0, 'called': False}

    def stub(contours):
        st['called'] = True
        sk = orig(contours)
        st['n'] = spoil(sk, contours, random.Random(job['seed']))
        return sk
    bps.skeletonize = stub
    try:
        rec['b'] = roof({'id': job['id'], 'contours': job['contours'], 'cfg': job.get('cfg', {})})
    finally:
        bps.skeletonize = orig
    if not st['called'] or not st['n']:
        return {'id': job['id'], 'skip': 'nothing to clean up'}
    rec['n'] = st['n']
    return rec


# ---------------------------------------------------------------- the shrinking outline
def lav_of(v):
    return v.lav


class Recorder:
    """Wraps the event queue and the event handlers while a skeleton is computed."""
    HANDLERS = (('edge', 'handle_edge_event'), ('split', 'handle_split_event'), ('dormer', 'handle_dormer_event'))

    FIELDS = {'edge': ('distance', 'vertex_a', 'vertex_b'), 'split': ('distance', 'vertex', 'opposite_edge', 'intersection_point'),
              'dormer': ('distance',)}

    def __init__(self, contours, probe_at=None):
        self.broken = None
        self.contours = contours
        self.wall = {}
        self.coord = {}
        n = 0
        for c in contours:
            for e in c:
                n += 1
                self.wall[id(e)] = n
                self.coord[(tuple(e.p1), tuple(e.p2))] = n
        self.lines = [((e.p1.x, e.p1.y), (e.p2.x, e.p2.y)) for c in contours for e in c]
        self.keep = []
        self.vid, self.pid, self.eid = {}, {}, {}
        self.slav = None
        self.steps, self.queue, self.probes, self.rings0 = [], [], [], None
        self.last = 0.0
        self.dormers = False
        self.probe_at = probe_at

    def num(self, table, obj, key):
        if key not in table:
            table[key] = len(table) + 1
            self.keep.append(obj)
        return table[key]

    def wallno(self, e):
        return self.wall.get(id(e)) or self.coord.get((tuple(e.p1), tuple(e.p2)), 0)

    def vertex(self, v):
        return self.num(self.vid, v, id(v))

    def place(self, p):
        return self.num(self.pid, None, (float(p.x), float(p.y)))

    def rings(self):
        return [[[self.vertex(v), self.wallno(v.edge_prev), self.wallno(v.edge_next), self.place(v.point)] for v in lav] for lav in self.slav]

    def event(self, e):
        return self.num(self.eid, e, id(e))

    def put(self, e):
        if e is None or self.broken:
            return
        if isinstance(e, bps.DormerEvent):
            self.dormers = True
        self.queue.append(['put', self.event(e), q(e.distance, 100000)])

    def corner(self, v, h):
        """where the vertex stands at height h: the walls before and after it moved inwards"""
        L = []
        for e in (v.edge_prev, v.edge_next):
            (ax, ay), (bx, by) = self.lines[self.wallno(e) - 1]
            d = math.hypot(bx - ax, by - ay)
            nx, ny = -(by - ay) / d, (bx - ax) / d
            L.append((nx, ny, nx * ax + ny * ay + h))
        (a, b, c), (d, e, f) = L
        det = a * e - b * d
        if abs(det) < .12:
            return (v.point.x, v.point.y, 0)
        return ((c * e - b * f) / det, (a * f - c * d) / det, 1)

    def probe(self, h, s=S):
        return [[list(self.fix(self.corner(v, h), s)) + [self.wallno(v.edge_next)] for v in lav] for lav in self.slav]

    def fix(self, p, s):
        return fx(p[0], s=s), fx(p[1], s=s), p[2]

    def taken(self, es):
        if self.broken:
            return
        self.queue.append(['take'] + [self.event(e) for e in es])
        nxt = es[0].distance
        if self.probe_at:
            for h in self.probe_at:
                if self.last + .2 < h < nxt - .2:
                    self.probes.append({'h': h, 'rings': self.probe(h)})
        elif nxt - self.last > .5:
            self.probes.append({'h': 0, 'rings': self.probe((nxt + self.last) / 2)})
        self.last = max(self.last, nxt)

    def wrap(self):
        R = self
        undo = []

        def patch(cls, name, make):
            o = cls.__dict__[name]
            undo.append((cls, name, o))
            setattr(cls, name, make(o))

        def init(o):
            def f(slav, *a, **k):
                o(slav, *a, **k)
                R.slav = slav
                try:
                    R.rings0 = R.rings()
                except Exception as e:      # the rings are kept in another way
                    R.broken = excname(e)
            return f
        patch(bps._SLAV, '__init__', init)

        def put(o):
            def f(que, item):
                R.put(item)
                return o(que, item)
            return f
        patch(bps._EventQueue, 'put', put)

        def put_all(o):
            def f(que, items):
                items = list(items)
                n = len(R.queue)
                r = o(que, items)
                if len(R.queue) == n:       # not by way of put
                    for e in items:
                        R.put(e)
                return r
            return f
        patch(bps._EventQueue, 'put_all', put_all)

        def take(o):
            def f(que):
                r = o(que)
                R.taken(r)
                return r
            return f
        patch(bps._EventQueue, 'getAllEqualDistance', take)

        def handler(kind):
            def make(o):
                def f(slav, e):
                    if not all(hasattr(e, n) for n in R.FIELDS[kind]):
                        R.broken = 'fields of the %s event' % kind
                    if R.broken:
                        return o(slav, e)
                    st = {'kind': kind, 'h': q(e.distance, 100000), 'a': 0, 'b': 0, 'v': 0, 'w': 0}
                    if kind == 'edge':
                        st['a'], st['b'] = R.vertex(e.vertex_a), R.vertex(e.vertex_b)
                    elif kind == 'split':
                        st['v'], st['w'] = R.vertex(e.vertex), R.wallno(e.opposite_edge)
                    res = o(slav, e)
                    arcs = res[0]
                    arcs = [] if arcs is None else arcs if isinstance(arcs, list) else [arcs]
                    st['nodes'] = [[R.place(a.source), [R.place(s) for s in a.sinks]] for a in arcs]
                    st['done'] = bool(arcs)
                    if kind == 'split' and not arcs:
                        st['at'] = [fx(e.intersection_point.x), fx(e.intersection_point.y)]
                        own = lav_of(e.vertex)
                        st['could'] = [] if own is None else [
                            [list(R.fix(R.corner(x.prev, e.distance), S)), list(R.fix(R.corner(x, e.distance), S))]
                            for x in own if R.wallno(x.edge_prev) == st['w']]
                    st['rings'] = R.rings()
                    R.steps.append(st)
                    return res
                return f
            return make
        for k, n in self.HANDLERS:
            patch(bps._SLAV, n, handler(k))
        return undo


@op
def shrink(job):
    """skeletonize() with all its events recorded"""
    m = missing(job, (bps, '_SLAV'), (bps, '_EventQueue'), (bps, 'skeletonize'), (bps, 'DormerEvent'))
    if m:
        return m
    for cls, names in ((bps._SLAV, ('__init__', 'handle_edge_event', 'handle_split_event', 'handle_dormer_event')),
                       (bps._EventQueue, ('put', 'put_all', 'getAllEqualDistance'))):
        for n in names:
            if n not in cls.__dict__:
                return {'id': job['id'], 'skip': 'no ' + n}
    rect = 'rings' in job
    src = [[[x * S, y * S] for x, y in c] for c in job['rings']] if rect else job['contours']
    cs, verts, first, holes, uv, back = ops.build_call(dict(job, contours=src, cfg=dict(job.get('cfg', {}), gaps=[0], order=list(range(len(src))))))
    contours = []
    for c, f in zip(cs, first):
        n = len(c)
        contours.append([bps.Edge2(Vector(verts[f + i][:2]), Vector(verts[f + (i + 1) % n][:2])) for i in range(n)])
    rec = {'id': job['id'], 'contours': [[[fx(verts[f + i][0]), fx(verts[f + i][1])] for i in range(len(c))] for c, f in zip(cs, first)]}
    R = Recorder(contours, [k + .5 for k in range(40)] if rect else None)
    undo = R.wrap()
    try:
        bps.skeletonize(contours)
    except Exception as e:
        return dict(rec, ok=False, exc=excname(e))
    finally:
        for cls, n, o in undo:
            setattr(cls, n, o)
    if R.broken:
        return {'id': job['id'], 'skip': R.broken}
    if R.slav is None or not R.queue or not R.steps:
        return {'id': job['id'], 'skip': 'no events seen'}
    rec['ends'] = [[[fx(v.point.x), fx(v.point.y)] for v in lav] for lav in R.slav]
    rec.update(ok=True, rings=R.rings0, steps=R.steps, queue=R.queue, dormers=R.dormers, probes=R.probes)
    if rect:
        rec['probes'] = []
        if not R.dormers:
            x0 = min(p[0] for c in rec['contours'] for p in c) - 2 * S
            y0 = min(p[1] for c in rec['contours'] for p in c) - 2 * S
            rec['doubled'] = [[[(x - x0) // 32, (y - y0) // 32] for x, y in c] for c in rec['contours']]
            near = lambda v, o: (v - o + 16) // 32 if abs((v - o + 16) % 32 - 16) <= 6 else -1
            rec['at'] = [{'h': int(2 * p['h']), 'rings': [[[near(v[0], x0), near(v[1], y0), v[2], v[3]] for v in r] for r in p['rings']]}
                         for p in R.probes]
    return rec


@op
@guarded
def queue(job):
    """a history of operations (generated by the specification) on the event queue"""
    m = missing(job, (bps, '_EventQueue'), (bps, '_EdgeEvent'), (bps, '_SplitEvent'), (bps, 'DormerEvent'))
    if m:
        return m
    Q = bps._EventQueue()
    for n in ('put', 'put_all', 'get', 'getAllEqualDistance', 'peek', 'empty'):
        if not hasattr(Q, n):
            return {'id': job['id'], 'skip': 'no ' + n}
    ids = {}

    def event(n, h):
        d, p = h * .0003, Vector((float(n), 0.0))
        k = (n * 7 + h) % 3
        e = bps._EdgeEvent(d, p, None, None) if k == 0 else bps._SplitEvent(d, p, None, None) if k == 1 else bps.DormerEvent(d, p, [])
        ids[id(e)] = n
        keep.append(e)
        return e
    keep = []
    n = 0
    ops = []
    for o in job['ops']:
        res = []
        if o['op'] == 'put':
            n += 1
            Q.put(event(n, o['h'][0]))
        elif o['op'] == 'none':
            Q.put(None)
        elif o['op'] == 'all':
            es = []
            for h in o['h']:
                n += 1
                es.append(event(n, h))
            Q.put_all(es)
        elif o['op'] == 'get':
            res = [Q.get()]
        elif o['op'] == 'group':
            res = list(Q.getAllEqualDistance())
        elif o['op'] == 'peek':
            res = [Q.peek()]
        ops.append(dict(o, res=[ids.get(id(e), 0) for e in res], empty=bool(Q.empty())))
    return {'id': job['id'], 'ok': True, 'ops': ops}


# ---------------------------------------------------------------- the demo add-on
import sys, types, importlib.util, os


class Blender:
    """stand-ins for the parts of Blender the add-on uses; they only record"""

    def __init__(self):
        self.made, self.linked, self.data, self.registered, self.menu = 0, 0, None, [], []
        B = self

        class Mesh:
            def from_pydata(self, v, e, f):
                B.data = (v, e, f)

            def update(self, *a, **k):
                pass

            validate = update

        class Any:
            pass
        bpy = types.ModuleType('bpy')
        bpy.types = types.ModuleType('bpy.types')
        bpy.props = types.ModuleType('bpy.props')
        bpy.types.Operator = type('Operator', (), {})
        bpy.types.VIEW3D_MT_mesh_add = Any()
        bpy.types.VIEW3D_MT_mesh_add.append = self.menu.append
        bpy.types.VIEW3D_MT_mesh_add.remove = self.menu.remove
        bpy.props.FloatVectorProperty = lambda **k: k
        bpy.data = Any()
        bpy.data.meshes = Any()

        def new(name=''):
            B.made += 1
            return Mesh()
        bpy.data.meshes.new = new
        bpy.utils = Any()
        bpy.utils.register_class = self.registered.append
        bpy.utils.unregister_class = self.registered.remove
        bpy.utils.register_manual_map = bpy.utils.unregister_manual_map = lambda *a: None
        ex = types.ModuleType('bpy_extras')
        ou = types.ModuleType('bpy_extras.object_utils')
        ou.AddObjectHelper = type('AddObjectHelper', (), {})

        def link(context, mesh, operator=None, **k):
            B.linked += 1
        ou.object_data_add = link
        ex.object_utils = ou
        self.mods = {'bpy': bpy, 'bpy.types': bpy.types, 'bpy.props': bpy.props, 'bpy_extras': ex, 'bpy_extras.object_utils': ou}


@op
def addon(job):
    """the demo add-on builds at a scale (in units of 1/1024), directly or by its operator"""
    B = Blender()
    rec = {'id': job['id'], 'scale': job['scale'], 'how': job['how'], 'answer': []}
    old = {k: sys.modules.get(k) for k in B.mods}
    sys.modules.update(B.mods)
    root = os.path.dirname(os.path.dirname(os.path.abspath(bps.__file__)))
    try:
        spec = importlib.util.spec_from_file_location('bpp_addon', os.path.join(root, '__init__.py'), submodule_search_locations=[root])
        m = importlib.util.module_from_spec(spec)
        sys.modules['bpp_addon'] = m
        spec.loader.exec_module(m)
        sc = Vector([x / 1024 for x in job['scale']])
        for n in range(job['times']):
            B.made = B.linked = 0
            if job['how'] == 'operator':
                m.register()
                o = B.registered[0]()
                o.scale = sc
                rec['answer'] = sorted(o.execute(None))
                m.unregister()
            else:
                o = types.SimpleNamespace(scale=sc)
                m.add_object(o, None)
        v, e, f = B.data
        C = 1 << 28
        rec['verts'] = [[fx(x[0], C, 4096), fx(x[1], C, 4096), fx(x[2], C, 4096)] for x in v]
        big = max(max(abs(x[0]), abs(x[1])) for x in v) or 1
        rec['small'] = [[fx(x[0] / big * 12000, s=1), fx(x[1] / big * 12000, s=1)] for x in v]
        rec['faces'] = [[int(i) for i in x] for x in f]
        rec.update(ok=True, made=B.made, linked=B.linked, edges=len(e))
    except Exception as ex:
        rec.update(ok=False, exc=excname(ex))
    finally:
        for k in [k for k in sys.modules if k.split('.')[0] == 'bpp_addon']:
            del sys.modules[k]
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return rec
