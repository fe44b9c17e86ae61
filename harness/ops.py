"""The operations real.py can perform on the library."""
import math
import sys as _sys
real = _sys.modules["real"]
S, fx, excname, CaseTimeout = real.S, real.fx, real.excname, real.CaseTimeout

import mathutils
from mathutils import Vector
from bpypolyskel import bpypolyskel as bps

OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def run(job):
    f = OPS[job['op']]
    try:
        rec = f(job)
    except CaseTimeout:
        rec = {'ok': False, 'exc': 'Timeout'}
    rec.setdefault('id', job['id'])
    return rec


# ---------------------------------------------------------------- polygonize
def build_call(job):
    """Lay the footprint out in a vertex list as the job's configuration says.

    contours: rings of fixed-point points.  cfg:
      rot   [k0, k1, ..]  start vertex of every ring
      order permutation of the blocks in the list (0 = outer contour)
      horder order of the holes in the holes description
      gaps  number of unrelated vertices before block 0, 1, .. and at the end
      off   [ox, oy] whole units added;  scale [n, d];  zb base elevation
      quarter number of quarter turns;  pyth [a, b, c] turned by the angle with cosine a/c, sine b/c
    """
    cfg = job.get('cfg', {})
    cs = job['contours']
    n = len(cs)
    rot = cfg.get('rot', [0] * n)
    cs = [c[k % len(c):] + c[:k % len(c)] for c, k in zip(cs, rot + [0] * n)]
    horder = cfg.get('horder', list(range(1, n)))
    cs = [cs[0]] + [cs[i] for i in horder]
    order = cfg.get('order', list(range(n)))
    gaps = cfg.get('gaps', [0] * (n + 1))
    ox, oy = cfg.get('off', [0, 0])
    sn, sd = cfg.get('scale', [1, 1])
    q = cfg.get('quarter', 0)
    zb = cfg.get('zb', 0)
    pa, pb, pc = cfg.get('pyth', [1, 0, 1])

    def turn(x, y):
        for _ in range(q % 4):
            x, y = -y, x
        return (x * pa - y * pb) / pc, (x * pb + y * pa) / pc

    verts = []
    first = [0] * n
    junk = 0
    for pos, b in enumerate(order):
        for _ in range(gaps[pos % len(gaps)]):
            junk += 1
            verts.append(Vector((1000.0 + 7 * junk, -500.0 - 3 * junk * junk, 77.0)))
        first[b] = len(verts)
        for x, y in cs[b]:
            x, y = turn(x, y)
            verts.append(Vector((x / S * sn / sd + ox, y / S * sn / sd + oy, float(zb))))
    for _ in range(gaps[len(order)] if len(gaps) > len(order) else 0):
        junk += 1
        verts.append(Vector((1000.0 + 7 * junk, -500.0 - 3 * junk * junk, 77.0)))
    holes = [(first[i], len(cs[i])) for i in range(1, n)]

    def back(v):
        x, y = (v[0] - ox) * sd / sn, (v[1] - oy) * sd / sn
        x, y = (x * pa + y * pb) / pc, (y * pa - x * pb) / pc
        for _ in range(q % 4):
            x, y = y, -x
        return [fx(x), fx(y), fx((v[2] - zb) * sd / sn, 1 << 20)]

    uv = None
    if cfg.get('uv') == 'given':
        uv = []
        for b in range(n):
            m = len(cs[b])
            for i in range(m):
                d = verts[first[b] + (i + 1) % m] - verts[first[b] + i]
                uv.append(d.normalized())
    elif cfg.get('uv') == 'empty':
        uv = []
    return cs, verts, first, holes, uv, back


def num(v):
    if isinstance(v, list):
        return v[0] / v[1]
    return float(v)


def vt(v):
    return tuple(float(c) for c in v)


@op
def roof(job):
    cfg = job.get('cfg', {})
    cs, verts, first, holes, uv, back = build_call(job)
    nin = len(verts)
    hinfo = holes if holes else (None if cfg.get('noholes', 'none') == 'none' else [])
    fmode = cfg.get('faces', 'none')
    faces = None if fmode == 'none' else [] if fmode == 'empty' else [[0, 1, 2], [2, 1, 0, 3]]
    before = None if faces is None else [list(f) for f in faces]
    vb = [vt(v) for v in verts]
    hb = None if hinfo is None else [tuple(h) for h in hinfo]
    ub = None if uv is None else [vt(v) for v in uv]
    tan = num(cfg.get('tan', 1))
    height = num(cfg.get('height', 0))
    rec = {'id': job['id'], 'contours': cs, 'first': first, 'nin': nin,
           'tn': cfg.get('tn', 1), 'td': cfg.get('td', 1), 'tol': cfg.get('tol', 15)}
    try:
        if cfg.get('call', 'full') == 'kw':
            ret = bps.polygonize(verts=verts, firstVertIndex=first[0], numVerts=len(cs[0]),
                                 holesInfo=hinfo, height=height, tan=tan, faces=faces, unitVectors=uv)
        elif cfg.get('call') == 'min':
            ret = bps.polygonize(verts, first[0], len(cs[0]), hinfo, tan=tan)
        elif cfg.get('call') == 'defaults':
            ret = bps.polygonize(verts, first[0], len(cs[0]), hinfo, faces=faces)
        else:
            ret = bps.polygonize(verts, first[0], len(cs[0]), hinfo, height, tan, faces, uv)
    except Exception as e:
        rec.update(ok=False, exc=excname(e))
        return rec
    try:
        new = list(ret)
        rec['samelist'] = (faces is None) or (ret is faces)
        rec['isnew'] = isinstance(ret, list)
        k = len(before) if before is not None else 0
        rec['kept'] = before is None or [list(f) for f in new[:k]] == before
        rec['prefix'] = [vt(v) for v in verts[:nin]] == vb and len(verts) >= nin
        rec['hsame'] = hb is None and hinfo is None or [tuple(h) for h in hinfo] == hb
        rec['usame'] = ub is None and uv is None or [vt(v) for v in uv] == ub
        rec['faces'] = [[int(i) for i in f] for f in new[k:]]
        rec['vertdim'] = all(len(v) == 3 for v in verts)
        rec['verts'] = [back(v) for v in verts]
        rec['ok'] = True
    except CaseTimeout:
        raise
    except Exception as e:
        rec.update(ok=False, exc='unusable result: ' + excname(e))
    return rec


@op
def pair(job):
    """two calls on the same footprint under the configurations a and b"""
    rec = {k: job[k] for k in ('id', 'kind', 't', 'tz', 'mode', 'pn', 'pd') if k in job}
    for k in 'ab':
        if k in job:
            rec[k] = roof({'id': job['id'], 'contours': job['contours'], 'cfg': job[k]})
    return rec


# ---------------------------------------------------------------- sessions
import os, json as _json

SESSION_OPTS = [dict(height=0.0, tan=1.0), dict(height=7.5, tan=0.25), dict(height=0.0, tan=0.5, uv=True)]


def in_child(f):
    """run f in a forked child of this (so far unused) process, return its JSON result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = _json.dumps(f()).encode()
            with os.fdopen(w, 'wb') as fo:
                fo.write(data)
            os._exit(0)
        except BaseException as e:
            try:
                with os.fdopen(w, 'wb') as fo:
                    fo.write(_json.dumps({'error': excname(e)}).encode())
            finally:
                os._exit(1)
    os.close(w)
    with os.fdopen(r, 'rb') as fi:
        data = fi.read()
    os.waitpid(pid, 0)
    return _json.loads(data) if data else {'error': 'child died'}


def fp_points(contours):
    return [[(x / S, y / S, 2.0) for x, y in c] for c in contours]


def skel_digest(sk):
    return [[list(vt(a.source)), float(a.height), [list(vt(s)) for s in a.sinks]] for a in sk]


def delta(old, new):
    k = 0
    while k < len(old) and k < len(new) and old[k] == new[k]:
        k += 1
    return {'k': k, 'n': len(old), 't': new[k:]}


def session_call(verts, start, rings, faces, opt):
    n = len(rings)
    holes, k = [], start + len(rings[0])
    for r in rings[1:]:
        holes.append((k, len(r)))
        k += len(r)
    uv = None
    if opt.get('uv'):
        uv = []
        k = start
        for r in rings:
            m = len(r)
            for i in range(m):
                uv.append((verts[k + (i + 1) % m] - verts[k + i]).normalized())
            k += m
    return bps.polygonize(verts, start, len(rings[0]), holes or None, opt['height'], opt['tan'], faces, uv)


@op
def session(job):
    """a history of calls (generated by the specification) on the real library"""
    rings = [fp_points(c) for c in job['footprints']]
    DBG = bps.debugOutputs

    def solo(f, o):
        def g():
            DBG['skeleton'] = 1
            verts = [Vector(p) for r in rings[f] for p in r]
            n = len(verts)
            ret = session_call(verts, 0, rings[f], None, SESSION_OPTS[o])
            return {'verts': [list(vt(v)) for v in verts[n:]], 'faces': [[int(i) for i in x] for x in ret],
                    'dbg': skel_digest(DBG['skeleton'])}
        return in_child(g)

    def play():
        vl = [[], []]
        fl = [[], []]
        start = [[], []]        # start of every block
        steps = []
        last = [[[], []], [[], []]]
        for h in job['ops']:
            st = {'ok': True}
            if h['op'] == 'place':
                v = h['v'] - 1
                start[v].append(len(vl[v]))
                vl[v].extend(Vector(p) for r in rings[h['f'] - 1] for p in r)
            elif h['op'] == 'dbg':
                if h['on']:
                    DBG['skeleton'] = 1
                else:
                    DBG.pop('skeleton', None)
            else:
                v = h['v'] - 1
                faces = fl[h['l'] - 1] if h['l'] else None
                s = start[v][h['b'] - 1]
                r = rings[h['f'] - 1]
                nb = len(vl[v])
                if h['op'] == 'call':
                    try:
                        ret = session_call(vl[v], s, r, faces, SESSION_OPTS[h['o'] - 1])
                        st['ret'] = [[int(i) for i in x] for x in ret] if faces is None else []
                        st['same'] = (ret is faces) if faces is not None else all(ret is not x for x in fl)
                    except Exception as e:
                        st['ok'] = False
                        st['exc'] = excname(e)
                    start[v].append(nb)
                else:
                    try:
                        k = h['k']
                        if k == 1:
                            bps.polygonize(vl[v], s, len(r[0]), None, 'high', 1.0, faces, None)
                        elif k == 2:
                            bps.polygonize(vl[v], len(vl[v]) + 5, len(r[0]), None, 0.0, 1.0, faces, None)
                        elif k == 3:
                            bps.polygonize(vl[v], s, len(r[0]), [(len(vl[v]) - 1, 4)], 0.0, 1.0, faces, None)
                        else:
                            bps.polygonize(vl[v], s, len(r[0]), None, 0.0, 1.0, faces, [Vector((1.0, 0.0, 0.0))])
                        break       # it did not fail: nothing is promised from here on
                    except Exception as e:
                        st['exc'] = excname(e)
                    if len(vl[v]) > nb:
                        start[v].append(nb)
            # what changed since the step before: entries kept in front, and the rest
            nv = [[list(vt(p)) for p in x] for x in vl]
            nf = [[[int(i) for i in f] for f in x] for x in fl]
            st['vl'] = [delta(o, n) for o, n in zip(last[0], nv)]
            st['fl'] = [delta(o, n) for o, n in zip(last[1], nf)]
            last[:] = [nv, nf]
            st['dbgset'] = len(DBG) > 0
            sk = DBG.get('skeleton')
            st['dbg'] = skel_digest(sk) if isinstance(sk, list) else None
            steps.append(st)
            if not st['ok']:
                break
        return {'steps': steps}

    sol = [[solo(f, o) for o in range(len(SESSION_OPTS))] for f in range(len(rings))]
    got = in_child(play)
    rec = {'id': job['id'], 'ops': job['ops'], 'ok': True}
    if 'error' in got or any('error' in x for y in sol for x in y):
        return {'id': job['id'], 'ok': False, 'exc': str(got.get('error') or [x.get('error') for y in sol for x in y])[:200],
                'ops': [], 'steps': []}
    ids, dids = {}, {}
    vid = lambda p: ids.setdefault(tuple(p), len(ids) + 1)
    did = lambda d: 0 if d is None else dids.setdefault(_json.dumps(d), len(dids) + 1)
    rec['fps'] = [[vid(p) for r in f for p in r] for f in rings]
    rec['solo'] = [[{'verts': [vid(p) for p in x['verts']], 'faces': x['faces'], 'dbg': did(x['dbg'])} for x in y] for y in sol]
    rec['steps'] = []
    for st in got['steps']:
        rec['steps'].append(dict(st, vl=[dict(x, t=[vid(p) for p in x['t']]) for x in st['vl']], dbg=did(st['dbg'])))
    return rec


# ---------------------------------------------------------------- skeletons
from bpypolyskel.bpyeuclid import Edge2


def project_skeleton(sk, corners, back):
    """nodes and arcs; ends are identified by their exact coordinates"""
    key = lambda v: (float(v[0]), float(v[1]))
    nodes, arcs = [], []
    where = {}
    cor = {}
    for i, c in enumerate(corners):
        cor.setdefault(key(c), i + 1)
    for k, a in enumerate(sk):
        where.setdefault(key(a.source), k + 1)
    for a in sk:
        nodes.append(back(a.source, a.height))
        e = []
        for s in a.sinks:
            q = key(s)
            e.append([0, cor[q]] if q in cor else [1, where[q]] if q in where else [2, 0])
        arcs.append(e)
    return nodes, arcs, [where[key(a.source)] for a in sk]


@op
def skel(job):
    """skeletonize() itself, on edge contours"""
    cfg = job.get('cfg', {})
    cs, verts, first, holes, uv, _ = build_call(dict(job, cfg=dict(cfg, gaps=[0], order=list(range(len(job['contours']))))))
    ox, oy = cfg.get('off', [0, 0])
    sn, sd = cfg.get('scale', [1, 1])
    pa, pb, pc = cfg.get('pyth', [1, 0, 1])

    def back(p, h=None):          # a turn by pyth is undone, other motions are not
        x, y = p[0] * sd / sn, p[1] * sd / sn
        r = [fx((x * pa + y * pb) / pc), fx((y * pa - x * pb) / pc)]
        return r if h is None else r + [fx(h * sd / sn)]
    rec = {'id': job['id']}
    rec['contours'] = [[back(verts[f + i]) for i in range(len(c))] for c, f in zip(cs, first)]
    try:
        contours = []
        for c, f in zip(cs, first):
            n = len(c)
            contours.append([Edge2(Vector(verts[f + i][:2]), Vector(verts[f + (i + 1) % n][:2])) for i in range(n)])
        corners = [e.p1 for c in contours for e in c]
        sk = bps.skeletonize(contours)
        rec['nodes'], rec['arcs'], rec['ids'] = project_skeleton(sk, corners, back)
        rec['ok'] = True
    except Exception as e:
        rec.update(ok=False, exc=excname(e), nodes=[], arcs=[], ids=[])
    return rec


@op
def debug(job):
    """polygonize with the debug key set: the roof and the skeleton shown"""
    D = bps.debugOutputs
    D['skeleton'] = 1
    try:
        rec = roof(dict(job, cfg=dict(job.get('cfg', {}), tan=1, height=0)))
        sk = D.get('skeleton')
    finally:
        D.pop('skeleton', None)
    rec['shown'] = False
    if not rec.get('ok'):
        return rec
    cfg = job.get('cfg', {})
    # the skeleton is relative to the center of the outer contour
    cs, verts, first, holes, uv, back = build_call(job)
    m = len(cs[0])
    c = Vector((0.0, 0.0, 0.0))
    for i in range(first[0], first[0] + m):
        c += verts[i]
    c /= m
    zb = float(cfg.get('zb', 0))
    corners = [verts[f + i] for k, f in zip(cs, first) for i in range(len(k))]
    corners = [((v - c).x, (v - c).y) for v in corners]
    if isinstance(sk, list) and all(isinstance(a, tuple) and hasattr(a, 'sinks') for a in sk):
        rec['shown'] = True
        rec['nodes'], rec['arcs'], rec['ids'] = project_skeleton(sk, corners, lambda p, h: back((p[0] + c.x, p[1] + c.y, h + zb)))
    return rec


@op
def rectskel(job):
    """skeleton of a rectilinear footprint whose corners are even lattice points"""
    rec = skel(dict(job, contours=[[[x * S, y * S] for x, y in c] for c in job['rings']]))
    # the rings as they were passed (start vertex, turn), moved to positive coordinates
    cs = rec.pop('contours')
    x0 = min(p[0] for c in cs for p in c) - 2 * S
    y0 = min(p[1] for c in cs for p in c) - 2 * S
    rec['rings'] = [[[(x - x0) // S, (y - y0) // S] for x, y in c] for c in cs]
    rec['nodes'] = [[x - x0, y - y0, h] for x, y, h in rec['nodes']]
    rec['turned'] = 'pyth' in job.get('cfg', {})
    return rec

import units  # noqa: registers more operations
