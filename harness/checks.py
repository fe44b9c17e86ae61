"""The checks, one per property: which behaviours of the real code are recorded
and which module of the specification judges them."""
import random, itertools, json, math, os
import core
from framework import check

DEV = os.environ.get('DEV')      # one case per record, to find the failing one

OFFS = [[0, 0], [100, -300], [-37, 1000]]
FAR = [[4000, 4000], [-9000, 7000]]


def variant(rng, cs, layout=True):
    """a configuration under which the corpus was validated, plus list layout and options"""
    n = len(cs)
    k = max(map(len, cs))
    r = rng.randrange(4)
    cfg = {}
    if r == 0:
        cfg['rot'] = [rng.randrange(k) if k <= 20 else 0] * n
    elif r == 1:
        cfg['quarter'] = rng.randrange(1, 4)
    elif r == 2:
        cfg['off'] = rng.choice(OFFS[1:])
    elif n > 2:
        cfg['horder'] = list(range(n - 1, 0, -1))
    if layout:
        cfg['gaps'] = [rng.choice([0, 1, 3, 17]) for _ in range(n + 1)]
        o = list(range(n))
        rng.shuffle(o)
        cfg['order'] = o
        cfg['faces'] = rng.choice(['none', 'empty', 'some'])
        cfg['zb'] = rng.choice([0, 3, -8])
        cfg['uv'] = rng.choice(['none', 'none', 'given']) if not (set(cfg) & {'rot', 'quarter', 'off', 'horder'}) else 'none'
        cfg['call'] = rng.choice(['full', 'kw'])
    return cfg


def roof_jobs(ctx, tag, slopes=((1, 1),), cap=None):
    jobs = []
    fps = core.corpus(tag)
    if cap and not ctx.thorough():
        ctx.rng.shuffle(fps)
        fps = fps[:cap]
    for o in fps:
        tn, td = ctx.rng.choice(slopes)
        tol = {'real': 15, 'regular': 7}.get(o['fam'], 4)
        base = {'tn': tn, 'td': td, 'tan': [tn, td], 'tol': tol}
        jobs.append({'id': o['id'] + '.0', 'op': 'roof', 'contours': o['contours'], 'cfg': dict(base)})
        for v in range(8 if ctx.thorough() else 1):
            c = variant(ctx.rng, o['contours'])
            tn, td = ctx.rng.choice(slopes)
            c.update(tn=tn, td=td, tan=[tn, td], tol=tol)
            if 'R' in o['tags'] and ctx.rng.random() < .4:
                c = dict({k: x for k, x in c.items() if k not in ('quarter', 'off')}, pyth=ctx.rng.choice(core.PYTH), tol=8)
            jobs.append({'id': '%s.%d' % (o['id'], v + 1), 'op': 'roof', 'contours': o['contours'], 'cfg': c})
    for i, rs in enumerate(polyominoes(ctx, 4, 4)):
        k = max(map(len, rs))
        for r in range(k) if ctx.thorough() else [ctx.rng.randrange(k)]:
            tn, td = ctx.rng.choice(slopes)
            jobs.append({'id': 'poly%d.%d' % (i, r), 'op': 'roof', 'contours': [[[x * 64, y * 64] for x, y in c] for c in rs],
                         'cfg': {'tn': tn, 'td': td, 'tan': [tn, td], 'tol': 4, 'rot': [r] * len(rs)}})
    for i, k in enumerate(ctx.known):
        if 'contours' in k:
            jobs.append({'id': 'known%d' % i, 'op': 'roof', 'contours': k['contours'],
                         'cfg': dict(k.get('cfg', {}), tn=1, td=1, tan=[1, 1])})
    return jobs


@check('C01', 'TLA+ roof contract (tiling clauses) checked by TLC on recorded calls',
       'TLC judges every recorded roof of the corpus')
def c01(ctx):
    ctx.validate('roofs', 'RoofTrace', roof_jobs(ctx, 'T'), env={'MODE': 'tiling'})


@check('C02', 'TLA+ roof contract (face clauses) checked by TLC on recorded calls',
       'TLC judges every recorded roof of the corpus')
def c02(ctx):
    ctx.validate('roofs', 'RoofTrace', roof_jobs(ctx, 'F'), env={'MODE': 'faces'})


@check('C03', 'TLA+ roof contract (plane clauses) checked by TLC on recorded calls',
       'TLC judges every recorded roof of the corpus')
def c03(ctx):
    ctx.validate('roofs', 'RoofTrace', roof_jobs(ctx, 'P', ((1, 1), (1, 2), (3, 4), (2, 1), (3, 1), (1, 5))),
                 env={'MODE': 'plane'})


def any_variant(rng, cs):
    """any combination of the optional arguments, and any place of the footprint"""
    n = len(cs)
    c = {'rot': [rng.randrange(60) for _ in cs], 'quarter': rng.randrange(4)}
    if n > 1:
        c['horder'] = rng.sample(range(1, n), n - 1)
        o = list(range(n))
        rng.shuffle(o)
        c['order'] = o
    c['gaps'] = [rng.choice([0, 0, 0, 2, 9]) for _ in range(n + 1)]
    c['faces'] = rng.choice(['none', 'empty', 'some'])
    c['uv'] = rng.choice(['none', 'given', 'empty'])
    c['noholes'] = rng.choice(['none', 'empty'])
    c['zb'] = rng.choice([0, 0, 5, -3, 100])
    c['call'] = rng.choice(['full', 'kw', 'full', 'kw', 'defaults', 'min'])
    if c['call'] == 'min':
        c['faces'] = 'none'
    c['height'], c['tan'] = rng.choice([(0, 1), (5, 0), (0, 0), (40, 2), ([1, 2], 1), (0, [1, 10]), (0, 3)])
    if rng.random() < .3:
        c['off'] = rng.choice([[0, 0], [100, -300], [-37, 1000], [4000, 4000]])
    if rng.random() < .4 and 'off' not in c:      # a turned footprint far from the origin is not rectilinear any more
        c['pyth'] = rng.choice(core.PYTH)
    return c


def random_footprint(rng):
    import fpgen as g
    k = rng.randrange(11)
    cs = (g.general(rng, 0, 14) if k == 0 else g.general(rng, 0, 24, nmin=14) if k == 1 else g.general(rng, rng.choice([1, 2, 3]), 10) if k == 2 else
          g.rect(rng, True) if k == 3 else g.rect(rng, False) if k == 4 else
          g.rect(rng, False, step=4, mx=1, W=rng.randint(2, 6), H=rng.randint(2, 6)) if k == 5 else
          g.octi(rng) if k == 6 else g.bay(rng) if k == 7 else g.convex(rng, rng.randint(3, 12)) if k == 8 else None)
    if cs is None:
        return g.symmetric(rng)
    return [[[int(x * 64), int(y * 64)] for x, y in c] for c in cs]


@check('C22', 'TLA+ definition of valid footprints and of the least a roof is, checked by TLC on recorded calls',
       'calls with every combination of optional arguments on the corpus, all polyominoes of a box, symmetric shapes and fresh random footprints')
def c22(ctx):
    rng = ctx.rng
    jobs = []

    def add(i, cs):
        jobs.append({'id': '%s.%d' % (i, len(jobs)), 'op': 'roof', 'contours': cs, 'cfg': any_variant(rng, cs)})

    for o in core.corpus():
        for _ in range(6 if ctx.thorough() else 1):
            add(o['id'], o['contours'])
    for o in json.load(open(os.path.join(core.VERIF, 'corpus', 'real.json'))):
        for _ in range(12 if ctx.thorough() else 2):
            add('real-' + o['name'], o['contours'])
    for i, rs in enumerate(polyominoes(ctx, 4, 4)):
        u = rng.choice([1, 2, 5]) * 64
        for _ in range(4 if ctx.thorough() else 1):
            add('poly%d' % i, [[[x * u, y * u] for x, y in c] for c in rs])
    for _ in range(40000 if ctx.thorough() else 6000):
        add('rnd', random_footprint(rng))
    ctx.validate('calls', 'RoofTrace', jobs, env={'MODE': 'exists'})


# ------------------------------------------------------------- pairs of calls
@check('C04', 'TLA+ pitch/height relation between recorded calls, checked by TLC',
       'TLC relates the elevations of runs with different height, tangent and base to a reference run')
def c04(ctx):
    jobs = []
    fps = core.corpus('T')
    ctx.rng.shuffle(fps)
    modes = [('tan', [1, 2]), ('tan', [3, 1]), ('tan', [1, 50]), ('height', [8, 1]), ('height', [1, 2]), ('height', [40, 1]),
             ('height-tan', [12, 1]), ('height-tan', [3, 4]), ('flat', [0, 1]), ('flat-default', [0, 1])]
    for i, o in enumerate(fps if ctx.thorough() else fps[:4200]):
        for m, q in (modes if ctx.thorough() else [modes[i % len(modes)], modes[(i * 7 + 3) % len(modes)]]):
            b = {'zb': ctx.rng.choice([0, 0, 3, -8, 100]), 'call': ctx.rng.choice(['full', 'kw'])}
            mode = m.split('-')[0]
            if mode == 'tan':
                b['tan'] = q
            elif mode == 'height':
                b['height'] = q
                b['tan'] = [1, 3] if m == 'height-tan' else 0
            else:
                b['tan'] = 0
                if m == 'flat-default':
                    b['call'] = 'defaults'
            b['faces'] = ctx.rng.choice(['none', 'empty', 'some'])
            jobs.append({'id': '%s.%s.%d' % (o['id'], m, len(jobs)), 'op': 'pair', 'kind': 'pitch', 'mode': mode, 'pn': q[0], 'pd': q[1],
                         'contours': o['contours'], 'a': {'tan': 1, 'tn': 1, 'td': 1}, 'b': b})
    ctx.validate('pitch', 'PairTrace', jobs)


@check('C05', 'TLA+ session specification: recorded calls and histories checked by TLC',
       'exhaustive model checking of the session design; TLC validates the list contract of single calls and of histories generated from the specification')
def c05(ctx):
    jobs = []
    fps = core.corpus('T')
    ctx.rng.shuffle(fps)
    for o in (fps if ctx.thorough() else fps[:3000]):
        for f in ('none', 'empty', 'some'):
            c = variant(ctx.rng, o['contours'])
            c.update(faces=f, tan=ctx.rng.choice([1, 0]), height=ctx.rng.choice([0, 0, 5]),
                     call=ctx.rng.choice(['full', 'kw']) if f != 'none' else ctx.rng.choice(['full', 'kw', 'min']),
                     noholes=ctx.rng.choice(['none', 'empty']))
            if c['uv'] == 'none' and ctx.rng.random() < .2:
                c['uv'] = 'empty'
            jobs.append({'id': '%s.%s' % (o['id'], f), 'op': 'pair', 'kind': 'contract', 'contours': o['contours'], 'a': c})
    ctx.validate('contract', 'PairTrace', jobs)
    sessions(ctx, 'lists', 3000 if ctx.thorough() else 500)


def histories(ctx, module, num, depth, cfg=None, seed=0):
    """histories printed by TLC's simulator"""
    out = core.tlc(module, ctx.scratch, cfg=cfg, args=['-simulate', 'num=%d' % (num // 2), '-depth', str(depth), '-seed', str(ctx.seed * 7919 + seed)],
                   workers=1)[1]
    hist = [json.loads(l[3:-1].replace('\\"', '"')) for l in out.splitlines() if l.startswith('"H|')]
    if not hist:
        raise core.MachineryError('no histories: ' + out[-1000:])
    ctx.rng.shuffle(hist)       # TLC also prints the siblings of the last step: keep a few of each
    seen, keep = {}, []
    for h in hist:
        k = json.dumps(h[:-1])
        seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 3:
            keep.append(h)
    return keep


def sessions(ctx, mode, num):
    ctx.model('session-design', 'SessionMC')
    hist = histories(ctx, 'SessionGen', num, 13, seed=len(mode))
    hist = [h for h in hist if any(x['op'] == 'call' for x in h)][:num]
    by = {}
    for o in core.corpus('T'):
        if len(o['contours']) == 1 and len(o['contours'][0]) <= 16:
            by.setdefault(len(o['contours'][0]), []).append(o)
    holes = [o for o in core.corpus('T') if len(o['contours']) > 1]
    jobs = []
    for i, h in enumerate(hist):
        n = ctx.rng.choice([k for k in by if len(by[k]) > 10])
        a, b = ctx.rng.sample(by[n], 2)
        moved = [[[x + 640, y - 1280] for x, y in c] for c in a['contours']]
        g = ctx.rng.choice(holes)
        fps = [a['contours'], moved, b['contours'], g['contours']]
        jobs.append({'id': 'h%d' % i, 'op': 'session', 'ops': h, 'footprints': fps})
    ctx.validate('histories', 'SessionTrace', jobs, env={'MODE': mode})


def same_jobs(ctx, tag, variants, t, cap):
    fps = core.corpus(tag)
    ctx.rng.shuffle(fps)
    jobs = []
    for o in (fps if ctx.thorough() else fps[:cap]):
        for k, b in enumerate(variants(o)):
            u = 8 if 'pyth' in b else t
            jobs.append({'id': '%s.%d' % (o['id'], k), 'op': 'pair', 'kind': 'same', 't': u, 'tz': u,
                         'contours': o['contours'], 'a': {}, 'b': b})
    return jobs


@check('C06', 'TLA+ same-roof relation between recorded calls, checked by TLC',
       'TLC compares the roofs for different layouts of the vertex list and with and without unit vectors')
def c06(ctx):
    def vs(o):
        n = len(o['contours'])
        out = []
        for u in ('none', 'given'):
            p = list(range(n))
            ctx.rng.shuffle(p)
            out.append({'gaps': [ctx.rng.choice([0, 1, 2, 5, 30]) for _ in range(n + 1)], 'order': p, 'uv': u,
                        'faces': ctx.rng.choice(['none', 'empty', 'some'])})
        if n > 1:
            p = list(range(n))[::-1]
            out.append({'order': p, 'gaps': [0] * (n + 1), 'uv': 'given'})
        if n > 2:
            out.append({'horder': list(range(n - 1, 0, -1)), 'order': ctx.rng.sample(range(n), n), 'uv': ctx.rng.choice(['none', 'given']),
                        'gaps': [ctx.rng.choice([0, 3]) for _ in range(n + 1)]})
        return out
    jobs = same_jobs(ctx, 'M', vs, 6, 2600)
    ctx.validate('layouts', 'PairTrace', jobs)
    hj = []
    for o in core.corpus('M', ('holes',)):
        for k, b in enumerate(vs(o)):
            hj.append({'id': '%s.h%d' % (o['id'], k), 'op': 'pair', 'kind': 'same', 't': 6, 'tz': 6,
                       'contours': o['contours'], 'a': {}, 'b': b})
    ctx.validate('layouts-holes', 'PairTrace', hj)


@check('C07', 'TLA+ same-roof relation between recorded calls, checked by TLC',
       'TLC compares the roofs of a footprint and of its moved, turned, scaled and renumbered copies')
def c07(ctx):
    def vs(o):
        n, k = len(o['contours']), max(map(len, o['contours']))
        out = [{'quarter': ctx.rng.randrange(1, 4)}, {'off': ctx.rng.choice(OFFS[1:] + FAR)}]
        for r in ctx.rng.sample(range(1, min(k, 12)), min(k - 1, 2)):
            out.append({'rot': [r] * n})
        if n > 2:
            out.append({'horder': list(range(n - 1, 0, -1))})
        if 'R' in o['tags']:
            p = {'pyth': ctx.rng.choice(core.PYTH)}
            out.append(p if ctx.rng.random() < .7 else dict(p, rot=[ctx.rng.randrange(k)] * n))
        return out
    ctx.validate('motions', 'PairTrace', same_jobs(ctx, 'M', vs, 6, 2600))
    ctx.validate('scales', 'PairTrace', same_jobs(ctx, 'S', lambda o: [{'scale': ctx.rng.choice([[2, 1], [4, 1], [1, 2], [3, 1]])}], 6, 2500))


@check('C08', 'TLA+ session specification: histories generated by TLC, replayed on the code and validated by TLC',
       'exhaustive model checking of the session design (small constants); random histories of 12 steps replayed with full state comparison')
def c08(ctx):
    sessions(ctx, 'all', 12000 if ctx.thorough() else 1500)


@check('C23', 'TLA+ session specification and skeleton contract: generated histories and recorded calls validated by TLC',
       'exhaustive model checking of the session design; random histories with the debug key switched on and off; the skeleton shown is related to the roof by TLC')
def c23(ctx):
    sessions(ctx, 'debug', 8000 if ctx.thorough() else 500)
    jobs = skel_jobs(ctx, 'E', 'debug', lambda o: variant(ctx.rng, o['contours']))
    ctx.validate('shown', 'SkelTrace', jobs, env={'MODE': 'debug'})


# ------------------------------------------------------------- skeletons
def skel_variant(ctx, o):
    n, k = len(o['contours']), max(map(len, o['contours']))
    c = {}
    r = ctx.rng.randrange(5)
    if r > 2 and 'R' in o['tags']:
        c['pyth'] = ctx.rng.choice(core.PYTH)
    elif r == 0:
        c['rot'] = [ctx.rng.randrange(k) if k <= 20 else 0] * n
    elif r == 1:
        c['quarter'] = ctx.rng.randrange(1, 4)
    elif n > 2:
        c['horder'] = list(range(n - 1, 0, -1))
    return c


def skel_jobs(ctx, tag, op, var):
    jobs = []
    for o in core.corpus(tag):
        jobs.append({'id': o['id'] + '.0', 'op': op, 'contours': o['contours'], 'cfg': {}})
        for v in range(8 if ctx.thorough() else 1):
            jobs.append({'id': '%s.%d' % (o['id'], v + 1), 'op': op, 'contours': o['contours'], 'cfg': var(o)})
    for i, k in enumerate(ctx.known):
        if 'contours' in k:
            jobs.append({'id': 'known%d' % i, 'op': op, 'contours': k['contours'], 'cfg': k.get('cfg', {})})
    return jobs


@check('C09', 'TLA+ skeleton contract (height clauses) checked by TLC on recorded skeletons',
       'TLC judges the nodes of every recorded skeleton of the corpus')
def c09(ctx):
    ctx.validate('nodes', 'SkelTrace', skel_jobs(ctx, 'N', 'skel', lambda o: skel_variant(ctx, o)), env={'MODE': 'height'})


@check('C11', 'TLA+ skeleton contract (graph clauses) checked by TLC on recorded skeletons',
       'TLC judges the graph of every recorded skeleton of the corpus')
def c11(ctx):
    ctx.validate('graphs', 'SkelTrace', skel_jobs(ctx, 'K', 'skel', lambda o: skel_variant(ctx, o)), env={'MODE': 'graph'})


# ------------------------------------------------------------- rectilinear footprints
def polyominoes(ctx, w, h):
    out = core.tlc('PolyGen', ctx.scratch, env={'GW': str(w), 'GH': str(h)})[1]
    P = sorted(json.loads(l[3:-1].replace('<<', '[').replace('>>', ']')) for l in out.splitlines() if l.startswith('"P|'))
    if not P:
        raise core.MachineryError('PolyGen printed nothing: ' + out[-1000:])
    return [[[[2 * (p // 1000), 2 * (p % 1000)] for p in r] for r in rs] for rs in P]


def rect_corpus():
    return json.load(open(os.path.join(core.VERIF, 'corpus', 'rect.json')))


@check('C10', 'TLA+ erosion model: exact straight skeletons of rectilinear footprints, compared with recorded skeletons by TLC',
       'model checking of the erosion; TLC enumerates all polyominoes of a 4 x 4 box (thorough: 5 x 4) and judges the recorded skeletons of these and of random rectilinear footprints crease by crease')
def c10(ctx):
    ctx.model('erosion', 'ErosionMC')
    jobs = []
    for i, rs in enumerate(polyominoes(ctx, 4, 4)):
        k = max(map(len, rs))
        for r in (range(k) if ctx.thorough() else [ctx.rng.randrange(k)]):
            jobs.append({'id': 'p%d.%d' % (i, r), 'op': 'rectskel', 'rings': rs, 'cfg': {'rot': [r] * len(rs)}})
        for p in core.PYTH if ctx.thorough() else [ctx.rng.choice(core.PYTH)]:
            jobs.append({'id': 'p%d.t%d' % (i, core.PYTH.index(p)), 'op': 'rectskel', 'rings': rs, 'cfg': {'pyth': p}})
    ctx.validate('polyominoes', 'RectTrace', jobs)
    if ctx.thorough():
        ctx.validate('polyominoes54', 'RectTrace', [{'id': 'q%d' % i, 'op': 'rectskel', 'rings': rs, 'cfg': {}}
                                                    for i, rs in enumerate(polyominoes(ctx, 5, 4))])
    jobs = []
    for o in rect_corpus():
        k = max(map(len, o['rings']))
        cfgs = [{}] + [{'rot': [r] * len(o['rings'])} for r in range(1, k if k <= 24 else 1)] + [{'quarter': q} for q in (1, 2, 3)]
        for n, c in enumerate(cfgs if ctx.thorough() else ctx.rng.sample(cfgs, 2)):
            jobs.append({'id': '%s.%d' % (o['id'], n), 'op': 'rectskel', 'rings': o['rings'], 'cfg': c})
    ctx.validate('rectilinear', 'RectTrace', jobs)


# ------------------------------------------------------------- single functions
def batches(prefix, opname, cases, n):
    n = 1 if DEV else n
    return [{'id': '%s%d' % (prefix, i // n), 'op': opname, 'cases': cases[i:i + n]} for i in range(0, len(cases), n)]


@check('C18', 'TLA+ definition of crossings, exhaustive lattice segments, recorded counts checked by TLC',
       'all pairs of segments of a small grid in both directions, and random sets of roof lines')
def c18(ctx):
    rng = ctx.rng
    w = 5 if ctx.thorough() else 4
    pts = [[x, y] for x in range(w) for y in range(w)]
    segs = [(p, r) for p in pts for r in pts if p < r]
    pairs = []
    for i, a in enumerate(segs):
        for b in segs[i:]:
            k = rng.randrange(8)
            p, r = a if k & 1 else a[::-1]
            s, t = b if k & 2 else b[::-1]
            if k & 4:
                p, r, s, t = s, t, p, r
            pairs.append([[p, [r]], [s, [t]]] if p != s or k < 3 else [[p, [r, t]]])
    ctx.validate('pairs', 'PrimTrace', batches('p', 'crossings', pairs, 60))
    sets = []
    for _ in range(40000 if ctx.thorough() else 4000):
        m, g = rng.randint(1, 7), rng.choice([3, 5, 9, 30])
        ox, oy = rng.choice([(0, 0), (0, 0), (500, -300), (-20, 7)])
        pt = lambda: [rng.randint(0, g) + ox, rng.randint(0, g) + oy]
        pool = [pt() for _ in range(m + 3)]
        nodes = []
        for _ in range(m):
            s = rng.choice(pool)
            nodes.append([s, [rng.choice(pool) for _ in range(rng.randint(0, 3))]])
        sets.append(nodes)
        if rng.random() < .3:       # the same lines in another order and direction
            lines = [(a, b) for a, bs in nodes for b in bs]
            rng.shuffle(lines)
            sets.append([[b, [a]] if rng.random() < .5 else [a, [b]] for a, b in lines])
    ctx.validate('sets', 'PrimTrace', batches('s', 'crossings', sets, 40))


@check('C19', 'TLA+ definitions of the primitives, exhaustive lattice input, recorded results checked by TLC',
       'every primitive on all arguments of a small lattice')
def c19(ctx):
    rng = ctx.rng
    g = range(3)
    P = [[x, y] for x in g for y in g]
    V = [[x, y] for x in range(-2, 3) for y in range(-2, 3) if x or y]
    cases = []
    for pa in P:
        for va in V:
            for vb in V:
                for pb in P:
                    n = 9 if ctx.thorough() else 1
                    for k in (range(9) if n == 9 else [rng.randrange(9)]):
                        cases.append(['EVR'[k % 3], pa, va, 'EVR'[k // 3], pb, vb])
    for _ in range(20000):
        z = lambda a: [rng.randint(-a, a), rng.randint(-a, a)]
        va, vb = z(6), z(6)
        if any(va) and any(vb):
            cases.append([rng.choice('EVR'), z(8), va, rng.choice('EVR'), z(8), vb])
    ctx.validate('meet', 'PrimTrace', batches('m', 'meet', cases, 400))
    cases = []
    while len(cases) < (60000 if ctx.thorough() else 6000):     # long and short ones, nearly parallel, meeting at a lattice point
        L = rng.choice((30, 120, 500))
        z = lambda a: [rng.randint(-a, a), rng.randint(-a, a)]
        va, vb = z(L), z(rng.choice((1, 3, 20, L)))
        if rng.random() < .5 and any(va):             # the direction of va, or close to it
            k = max(1, math.gcd(*va))
            vb = [va[0] // k + rng.randint(-1, 1), va[1] // k + rng.randint(-1, 1)]
        if not any(va) or not any(vb):
            continue
        c, i, j = z(50), rng.choice((-2, -1, 0, 1, 2)), rng.choice((-2, -1, 0, 1, 2))
        cases.append([rng.choice('EVR'), [c[n] - i * va[n] for n in (0, 1)], va, rng.choice('EVR'), [c[n] - j * vb[n] for n in (0, 1)], vb, 1])
    ctx.validate('meet-far', 'PrimTrace', batches('f', 'meet', cases, 400))
    Q = [[x, y] for x in range(3) for y in range(4)]
    cases = [list(map(list, c)) for c in itertools.product(Q, repeat=4)] if ctx.thorough() else \
        [[rng.choice(Q) for _ in range(4)] for _ in range(12000)]
    for _ in range(4000):
        cases.append([[rng.randint(-9, 9), rng.randint(-9, 9)] for _ in range(4)])
    ctx.validate('segments', 'PrimTrace', batches('s', 'segs', cases, 200))
    cases = []
    for p in P:
        for r in P:
            for x in P:
                if p != r:
                    cases.append([p, r, x, [rng.randint(-4, 4), rng.randint(-4, 4)]])
    for _ in range(4000):
        p, r, x = [[rng.randint(-7, 7), rng.randint(-7, 7)] for _ in range(3)]
        if p != r:
            cases.append([p, r, x, [rng.randint(-90, 90), rng.randint(-90, 90)]])
    ctx.validate('edges', 'PrimTrace', batches('e', 'edges', cases, 100))
    cases = []
    for p in Q:
        for r in Q:
            for x in Q:
                if (r[0] - p[0]) * (x[1] - p[1]) != (r[1] - p[1]) * (x[0] - p[0]):
                    n = rng.randint(3, 8)       # other points between do not matter
                    ps = [p] + [[rng.randint(-5, 5), rng.randint(-5, 5)] for _ in range(n - 2)] + [x]
                    ps[n // 2] = r
                    cases.append(ps)
    ctx.validate('circles', 'PrimTrace', batches('c', 'circles', cases, 60))


def plane_graphs(ctx, w, h):
    out = core.tlc('PlaneGen', ctx.scratch, env={'GW': str(w), 'GH': str(h)})[1]
    G = sorted(json.loads(l[3:-1].replace('<<', '[').replace('>>', ']').replace('{', '[').replace('}', ']'))
               for l in out.splitlines() if l.startswith('"P|'))
    if not G:
        raise core.MachineryError('PlaneGen printed nothing: ' + out[-1000:])
    return [[[i % w, i // w] for i in range(w * h)], G]


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def random_plane_graph(rng, size, nv):
    """connected planar graph with dead ends: points of a grid, added one by one"""
    allp = [[x, y] for x in range(size) for y in range(size)]
    pts = rng.sample(allp, nv)
    edges = []

    def free(i, j):
        a, b = pts[i], pts[j]
        for k, p in enumerate(pts):
            if k != i and k != j and orient(a, b, p) == 0 and \
                    min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]):
                return False
        for s, t in edges:
            c, d = pts[s], pts[t]
            if {s, t} & {i, j}:
                continue
            if orient(a, b, c) * orient(a, b, d) < 0 and orient(c, d, a) * orient(c, d, b) < 0:
                return False
        return True

    cand = [(i, j) for i in range(nv) for j in range(i + 1, nv)]
    rng.shuffle(cand)
    want = rng.randint(nv - 1, 3 * nv)
    comp = list(range(nv))
    for i, j in cand:                     # a spanning tree first
        if comp[i] != comp[j] and free(i, j):
            edges.append((i, j))
            a, b = comp[i], comp[j]
            comp = [b if c == a else c for c in comp]
    if len(set(comp)) > 1:
        return None
    for i, j in cand:
        if len(edges) < want and (i, j) not in edges and free(i, j):
            edges.append((i, j))
    return pts, [[i + 1, j + 1] for i, j in edges]


def plane_case(rng, pts, edges, shuffle=True):
    n = len(pts)
    if shuffle:
        perm = list(range(n))
        rng.shuffle(perm)
        pts = [pts[perm[i]] for i in range(n)]
        inv = {p + 1: i + 1 for i, p in enumerate(perm)}
        edges = [[inv[a], inv[b]] for a, b in edges]
        rng.shuffle(edges)
        edges = [e if rng.random() < .5 else e[::-1] for e in edges]
    k = rng.choice((1, 2, 7))
    m = (k, 0, 0, k)
    while rng.random() < .4:                          # sheared: directions very close to each other
        g = rng.choice((3, 20, 200))
        m = [rng.randint(-g, g) for _ in range(4)]
        if rng.random() < .6:                         # area unchanged
            k, l = rng.randint(-15, 15), rng.randint(-15, 15)
            m = [1 + k * l, k, l, 1] if rng.random() < .5 else [1, k, l, 1 + k * l]
        if abs(m[0] * m[3] - m[1] * m[2]) > 0:
            break
        m = (1, 0, 0, 1)
    dx, dy = rng.randint(-9, 9), rng.randint(-9, 9)
    return {'pts': [[m[0] * x + m[1] * y + dx, m[2] * x + m[3] * y + dy] for x, y in pts], 'edges': edges, 'n': rng.randrange(n),
            'loops': [rng.choice(edges)[0] for _ in range(rng.randint(0, 2))], 'again': rng.choices(edges, k=rng.choice((0, 0, 1, 3)))}


@check('C16', 'TLA+ faces as orbits of half-edges; TLC enumerates planar graphs and judges recorded embeddings and faces',
       'TLC enumerates all connected planar graphs on a 3 x 2 grid (thorough: 4 x 2), checks Euler\'s formula on them and judges the recorded faces of these and of larger random ones')
def c16(ctx):
    rng = ctx.rng
    pts, G = plane_graphs(ctx, 3, 2)
    cases = [plane_case(rng, pts, e, k > 0) for e in G for k in range(10 if ctx.thorough() else 4)]
    ctx.validate('grid', 'PlaneTrace', batches('g', 'plane', cases, 40))
    cases = []
    while len(cases) < (12000 if ctx.thorough() else 2500):
        size = rng.randint(3, 7)
        g = random_plane_graph(rng, size, rng.randint(4, min(size * size - 2, 9 if len(cases) % 3 else 20)))
        if g:
            cases.append(plane_case(rng, *g))
    ctx.validate('random', 'PlaneTrace', batches('r', 'plane', cases, 20))
    if ctx.thorough():
        pts, G = plane_graphs(ctx, 4, 2)
        ctx.validate('grid42', 'PlaneTrace', batches('h', 'plane', [plane_case(rng, pts, e) for e in G], 100))


def ghost_case(rng):
    """random skeleton on a small lattice with lines in (nearly) the same direction"""
    big = rng.random() < .5
    size = 8 if big else 4
    nn, nc = rng.randint(2, 6), rng.randint(1, 5)
    P = rng.sample([[x, y] for x in range(size + 1) for y in range(size + 1)], nn + nc)
    nodes, corners = [p + [rng.randint(1, 9)] for p in P[:nn]], P[nn:]
    arcs = [[] for _ in nodes]
    pos = lambda e: (nodes if e[0] else corners)[e[1] - 1]

    def line(k, e):
        if e != [1, k + 1] and e not in arcs[k] and not (e[0] == 1 and [1, k + 1] in arcs[e[1] - 1]):
            arcs[k].append(e)
    ends = [[0, i + 1] for i in range(nc)] + [[1, i + 1] for i in range(nn)]
    for k in range(nn):
        for _ in range(rng.randint(0, 3)):
            line(k, rng.choice(ends))
    for _ in range(rng.randint(1, 3)):          # nearly parallel pairs
        k = rng.randrange(nn)
        a = pos([1, k + 1])
        c = []
        for e in ends:
            for f in ends:
                if e < f and [1, k + 1] not in (e, f):
                    u = [pos(e)[i] - a[i] for i in (0, 1)]
                    v = [pos(f)[i] - a[i] for i in (0, 1)]
                    d, x = u[0] * v[0] + u[1] * v[1], u[0] * v[1] - u[1] * v[0]
                    if d > 0 and abs(x) * 5 < d:
                        c.append((e, f))
        if c:
            for e in rng.choice(c):
                line(k, e)
    for k in range(nn):
        if rng.random() < .1:
            arcs[k].append([1, k + 1])
        rng.shuffle(arcs[k])
    return {'rings': [corners], 'nodes': nodes, 'arcs': arcs}


@check('C13', 'TLA+ transition system of line replacements; TLC checks that recorded results are reachable and settled',
       'removal of ghost lines from random small skeletons, judged by reachability in the specification')
def c13(ctx):
    cases = [ghost_case(ctx.rng) for _ in range(60000 if ctx.thorough() else 8000)]
    ctx.validate('ghosts', 'GhostTrace', batches('g', 'ghosts', cases, 50))


ARC25 = [[25, 0], [24, 7], [20, 15], [15, 20], [7, 24], [0, 25], [-7, 24], [-15, 20], [-20, 15], [-24, 7], [-25, 0]]


def merge_case(rng, n, chains):
    """a footprint, with or without apse and hole, and nodes in groups less than 0.1 across"""
    U = 1024
    apse = rng.random() < .4
    ring = [[x * U, y * U] for x, y in (ARC25 if apse else [[25, 10], [-25, 10]])]
    d = rng.choice((90, 100, 140, 150, 180, 220))      # chamfered corners 0.12 .. 0.3 wide
    for sx, sy in ((-1, -1), (1, -1)):
        c = [sx * 25 * U, sy * 30 * U]
        if rng.random() < .6:
            pair = [[c[0] - sx * d, c[1]], [c[0], c[1] - sy * d]]
            ring += pair if sx > 0 else pair[::-1]
        else:
            ring.append(c)
    rings = [ring]
    if rng.random() < .3:
        rings.append([[x * U, y * U] for x, y in ([-20, -20], [-20, -25], [-10, -25], [-10, -20])])
    ncor = sum(map(len, rings))
    near = [[x, y] for x in range(-4, 5) for y in range(-4, 5)]
    far = [[x, y] for x in range(-24, 25, 3) for y in range(-19, 9, 3)]
    anchors = rng.sample(far, rng.randint(2, 6))
    if apse:
        anchors += rng.sample(near, rng.randint(1, 2))
    anchors = [a for i, a in enumerate(anchors) if all(abs(a[0] - b[0]) + abs(a[1] - b[1]) > 1 for b in anchors[:i])]
    nodes, grp = [], []
    for g, a in enumerate(anchors):
        b = [a[0] * U + rng.randint(-60, 60), a[1] * U + rng.randint(-60, 60)]
        h = rng.randint(500, 9000)
        if chains and rng.random() < .6:
            step = rng.choice(([80, 0], [0, -75], [50, 40], [-60, 30]))
            pts = [[b[0] + i * step[0] + rng.randint(-2, 2), b[1] + i * step[1] + rng.randint(-2, 2)] for i in range(rng.randint(3, 4))]
        elif not chains and rng.random() < .3:        # around the limit
            m = rng.randint(70, 140)
            i = rng.randint(0, m)
            pts = [b, [b[0] + i * rng.choice((1, -1)), b[1] + (m - i) * rng.choice((1, -1))]]
        else:
            pts = [[b[0] + rng.randint(-24, 24), b[1] + rng.randint(-24, 24)] for _ in range(rng.choice((1, 1, 2, 2, 3, 4)))]
        if any(abs(abs(p[0]) + abs(p[1]) - 3 * U) < 9 for p in pts):
            continue                                  # just at the limit of an apse center
        for p in pts:
            if p not in [m[:2] for m in nodes]:
                nodes.append(p + [h + rng.randint(-40, 40)])
                grp.append(g)
    used = sorted(set(grp))                           # the groups that were kept
    anchors, grp = [anchors[g] for g in used], [used.index(g) for g in grp]
    dup = []                                          # some nodes twice
    for i in range(len(nodes)):
        if rng.random() < .15:
            dup.append(i)
    for i in dup:
        nodes.append(list(nodes[i]))
        grp.append(grp[i])
    order = list(range(len(nodes)))
    rng.shuffle(order)
    nodes, grp = [nodes[i] for i in order], [grp[i] for i in order]
    arcs = [[] for _ in nodes]
    N = range(len(nodes))
    for g in range(len(anchors)):
        for f in range(g):
            if rng.random() < .4:
                a, b = rng.choice([i for i in N if grp[i] == g]), rng.choice([i for i in N if grp[i] == f])
                if rng.random() < .5:
                    a, b = b, a
                k = rng.choice([i for i in N if nodes[i][:2] == nodes[b][:2]])
                arcs[a].append([1, k + 1])
    seen = set()
    for a in N:                                       # inside the groups
        for b in range(a):
            ends = frozenset((tuple(nodes[a][:2]), tuple(nodes[b][:2])))
            if grp[a] == grp[b] and len(ends) == 2 and ends not in seen and rng.random() < .5:
                seen.add(ends)
                x, y = (a, b) if rng.random() < .5 else (b, a)
                arcs[x].append([1, y + 1])
    one = {}
    for c in range(1, ncor + 1):                      # pairs of neighbouring corners often go to one group
        g = one.get(c - 1) if rng.random() < .5 else None
        if rng.random() < .7:
            k = rng.choice([i for i in N if g is None or grp[i] == g])
            arcs[k].append([0, c])
            one[c] = grp[k]
    for a in arcs:
        rng.shuffle(a)
    return {'id': 'm%d' % n, 'op': 'merge', 'rings': rings, 'unit': U, 'nodes': nodes, 'arcs': arcs, 'apses': [[0, 0]] if apse else []}


@check('C12', 'TLA+ definition of the merged skeleton (groups, blocks, images of connections), checked by TLC on recorded calls',
       'merging of random groups and chains of nodes with details, apses and coincident nodes')
def c12(ctx):
    n = 20000 if ctx.thorough() else 1600
    ctx.validate('groups', 'MergeTrace', [merge_case(ctx.rng, i, False) for i in range(n)])
    ctx.validate('chains', 'MergeTrace', [merge_case(ctx.rng, i, True) for i in range(n // 2)])


def spiky(c):
    """a corner that turns by more than 150 degrees, or walls too long for exact comparisons"""
    for i in range(len(c)):
        u = [c[i][k] - c[i - 1][k] for k in (0, 1)]
        v = [c[(i + 1) % len(c)][k] - c[i][k] for k in (0, 1)]
        n = (u[0] ** 2 + u[1] ** 2) * (v[0] ** 2 + v[1] ** 2)
        x, d = u[0] * v[1] - u[1] * v[0], u[0] * v[0] + u[1] * v[1]
        if n == 0 or n > 3000000 or (d < 0 and 4 * x * x <= n):
            return True
    return False


def flat_contour(rng):
    """outer contours with many flat corners"""
    import math
    kind = rng.randrange(4)
    if kind == 0:                                     # convex, centrally symmetric
        vs = {}
        for _ in range(rng.randint(4, 14)):
            v = (rng.randint(-4, 4), rng.randint(0, 4))
            if v != (0, 0) and (v[1] > 0 or v[0] > 0):
                g = math.gcd(*v)
                vs[(v[0] // g, v[1] // g)] = v
        vs = sorted(vs.values(), key=lambda v: math.atan2(v[1], v[0]))
        p, c = [0, 0], []
        for v in vs + [(-x, -y) for x, y in vs]:
            c.append(p)
            p = [p[0] + v[0], p[1] + v[1]]
    elif kind == 1:                                   # star shaped
        n = rng.randint(8, 26)
        c = []
        for i in range(n):
            a, r = 2 * math.pi * (i + rng.random() * .5) / n, rng.randint(8, 9) if rng.random() < .85 else rng.randint(3, 12)
            p = [round(r * math.cos(a)), round(r * math.sin(a))]
            if p not in c:
                c.append(p)
    else:                                             # arcs, ends and corners left out at random
        c = []
        for q in range(2):
            a = ARC25[rng.randint(0, 5):11 - rng.randint(0, 5)]
            if len(a) > 4 and rng.random() < .3:
                a.remove(rng.choice(a[1:-1]))
            if rng.random() < .3:
                a = [[25, 0], [25, 18], [-25, 18], [-25, 0]] if kind == 2 else [[25, 0], [3, 21], [-25, 0]]
            sh = 12 if kind == 3 else 0
            c += [[x, y + sh] if q == 0 else [-x, -y - sh] for x, y in a if [x, y] not in ([25, 0], [-25, 0]) or kind == 3 or q == 0]
    if len(c) < 4 or spiky(c):
        return flat_contour(rng)
    r = rng.randrange(len(c))
    dx, dy = rng.randint(-5, 5), rng.randint(-5, 5)
    return [[x + dx, y + dy] for x, y in c[r:] + c[:r]]


@check('C14', 'TLA+ definition of apses (maximal circular runs, exact circle centers), recorded detections checked by TLC',
       'apses of random contours with arcs, from every start vertex')
def c14(ctx):
    rng = ctx.rng
    cases = []
    for _ in range(6000 if ctx.thorough() else 700):
        c = flat_contour(rng)
        k = len(c)
        for r in (range(k) if ctx.thorough() else rng.sample(range(k), 4)):
            cases.append(c[r:] + c[:r])
    ctx.validate('arcs', 'ContourTrace', batches('a', 'apses', cases, 40))


def bay_contour(rng):
    """a rectangle with bays on its sides; lengths around the limits"""
    f = rng.choice((1, 1, 2, 4, 8))                   # lattice units per unit
    segs, n = [], rng.randint(1, 3)
    w0 = max(1, f * rng.choice((1, 2, 4, 9, 10, 11)) // rng.choice((1, 1, 2)))
    for i in range(n):
        w = max(1, w0 + rng.randint(-1, 1))
        d = rng.randint(1, 4)
        d2 = d if rng.random() < .6 else max(1, d + rng.randint(-2, 2))
        segs.append((max(1, rng.choice((w // 3, (w * 7) // 20, w // 2, w, (w * 6) // 5, (w * 5) // 4, 2 * w))), w, d, d2))
    pts, x, y = [[0, 0]], 0, 0
    for g, w, d, d2 in segs:
        x += g
        pts += [[x, y], [x, y - d], [x + w, y - d], [x + w, y - d + d2]]
        x, y = x + w, y - d + d2
    x += max(1, rng.choice((segs[0][1] // 3, segs[0][1] // 2, segs[0][1], segs[0][1] * 2)))
    top = rng.randint(3, 6)
    pts += [[x, y], [x, top], [0, top]]
    if rng.random() < .5:                             # next wall not at a right angle
        pts[-1][0] -= rng.randint(1, 4)
    if rng.random() < .4:                             # corners out of square
        for _ in range(rng.randint(1, 3)):
            pts[rng.randrange(len(pts))][rng.randrange(2)] += rng.choice((-1, 1))
    return pts, f


def turned(rng, pts):
    a, b = rng.choice(((1, 0), (1, 0), (0, 1), (1, 1), (2, 1), (-1, 2), (-3, -1)))
    return [[x * a - y * b, x * b + y * a] for x, y in pts], a * a + b * b


@check('C15', 'TLA+ definition of dormers, recorded detections and skeletons of bays checked by TLC',
       'bays of contours with lengths around all limits, from every start vertex; ridges of the dormers of roomy footprints')
def c15(ctx):
    rng = ctx.rng
    cases = []
    rect = rect_corpus()
    n = 40000 if ctx.thorough() else 4000
    while len(cases) < n:
        if rng.random() < .8:
            pts, f = bay_contour(rng)
        else:
            o = rng.choice(rect)
            pts, f = o['rings'][0], rng.choice((1, 1, 2, 3, 4))
        pts, _ = turned(rng, pts)
        if spiky(pts):
            continue
        r = rng.randrange(len(pts))
        cases.append([pts[r:] + pts[:r], f])
    ctx.validate('bays', 'ContourTrace', batches('b', 'bays', cases, 40))
    jobs = []
    for i in range(3000 if ctx.thorough() else 500):
        pts, u = roomy_contour(rng)
        for r in (range(len(pts)) if ctx.thorough() else rng.sample(range(len(pts)), 4)):
            p = pts[r:] + pts[:r]
            jobs.append({'id': 'r%d.%d' % (i, r), 'op': 'skel', 'contours': [[[x * 64 // u, y * 64 // u] for x, y in p]], 'ring': p, 'unit': u})
    ctx.validate('ridges', 'ContourTrace', jobs, project=lambda j, r: dict(r, kind='ridges', ring=j['ring'], unit=j['unit']))


def roomy_contour(rng):
    """one to three bays, with much room, on a rectangle"""
    u = rng.choice((1, 2, 4))
    w0 = rng.randint(2, 9)
    h = 5 * w0 + rng.randint(0, 3)
    chains, x = [], 0
    for side in (0, 1):                               # bays on the lower and on the upper side
        pts, x = [], 0
        for _ in range(rng.randint(1, 2) if side == 0 else rng.randint(0, 1)):
            w, d = w0 - rng.randint(0, w0 // 3), rng.randint(1, 3)
            g = 2 * w0 + rng.randint(0, 4)
            pts += [[x + g, 0], [x + g, -d], [x + g + w, -d], [x + g + w, 0]]
            x += g + w
        chains.append((pts, x + 2 * w0 + rng.randint(0, 4)))
    W = max(x for _, x in chains)
    pts = [[0, 0]] + chains[0][0] + [[W, 0], [W, h]] + [[W - x, h - y] for x, y in chains[1][0]] + [[0, h]]
    p, _ = turned(rng, pts)
    if spiky(p):
        return roomy_contour(rng)
    return p, u


@check('C17', 'TLA+ same-roof relation between the roof of a skeleton and of the same skeleton with dead ends and needless nodes added',
       'dead ends, chains, forks and nodes within lines are added to real skeletons; TLC compares the roofs built from them')
def c17(ctx):
    fps = core.corpus('C')
    ctx.rng.shuffle(fps)
    hol = [o for o in fps if len(o['contours']) > 1]
    jobs = []
    for o in (fps if ctx.thorough() else fps[:1800] + hol[:300]):
        for k in range(4 if ctx.thorough() else 2):
            jobs.append({'id': '%s.%d.%d' % (o['id'], k, len(jobs)), 'op': 'cleanup', 't': 6, 'tz': 6, 'contours': o['contours'],
                         'seed': ctx.rng.randrange(1 << 30)})
    ctx.validate('cleanup', 'PairTrace', jobs)


@check('C20', 'TLA+ transition system of the shrinking outline and of the event queue: recorded shrinkings replayed by TLC',
       'model checking of the transition system; TLC replays every event of the recorded shrinkings on it and compares the outlines between the events')
def c20(ctx):
    fps = core.corpus('T')
    ctx.rng.shuffle(fps)
    jobs = []
    for o in (fps if ctx.thorough() else fps[:3000]):
        jobs.append({'id': o['id'], 'op': 'shrink', 'contours': o['contours'], 'cfg': {}})
    ctx.validate('shrinking', 'ShrinkTrace', jobs)
    jobs = []
    for o in rect_corpus():
        jobs.append({'id': o['id'], 'op': 'shrink', 'rings': o['rings'], 'cfg': {}})
    ctx.validate('rectilinear', 'ShrinkTrace', jobs)
    ctx.model('shrink-design', 'ShrinkMC', cfg=None if ctx.thorough() else 'ShrinkMCSmall.cfg')
    ctx.model('queue-design', 'QueueMC')
    hist = histories(ctx, 'QueueMC', 40000 if ctx.thorough() else 4000, 25, cfg='QueueGen.cfg')
    ctx.validate('queue', 'QueueTrace', [{'id': 'q%d' % i, 'op': 'queue', 'ops': h} for i, h in enumerate(hist)])


@check('C21', 'TLA+ contract of the closed building, checked by TLC on recorded meshes of the add-on',
       'TLC judges the meshes the add-on hands to (a stand-in of) Blender at uniform and non-uniform scales, directly and by its operator')
def c21(ctx):
    rng = ctx.rng
    jobs = []
    vals = [512, 768, 1024, 1280, 1536, 2048, 3072]
    for sx in vals:
        for sy in vals:
            jobs.append([sx, sy, rng.choice([256, 1024, 1024, 4096])])
    for _ in range(6000 if ctx.thorough() else 500):
        a = rng.randrange(300, 6000)
        b = rng.choice([a, a, rng.randrange(max(300, a // 3), a * 3)])
        jobs.append([a, b, rng.choice([1, a, rng.randrange(1, 8000)])])
    jobs = [{'id': 's%d' % i, 'op': 'addon', 'scale': s, 'how': rng.choice(['operator', 'function']), 'times': rng.choice([1, 1, 1, 2])}
            for i, s in enumerate(jobs)]
    ctx.validate('buildings', 'BuildTrace', jobs)
