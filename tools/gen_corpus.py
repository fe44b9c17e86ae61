"""Generates /verif/corpus/footprints.json.

For every candidate footprint the real library is run on variants of it (every
start vertex, quarter turns, translations) and TLC judges the results with the
roof contract.  A footprint keeps, as `tags`, the clause groups that hold on
all of its variants: T (tiling), F (faces), P (planes).  Footprints are kept
when T holds on all variants.  The rest is reported (rates, examples)."""
import sys, os, json, math, random, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import core, fpgen as g

S = 64
real = json.load(open(sys.argv[1]))
scalef = float(sys.argv[2]) if len(sys.argv) > 2 else 1.0
rng = random.Random(20240607)
cand = []


def add(f, cs, unit=S):
    cand.append((f, [[[int(x * unit), int(y * unit)] for x, y in c] for c in cs]))


def N(k):
    return range(int(k * scalef))


for i in N(1200): add('simple', g.general(rng, 0, 12))
for i in N(300): add('simple16', g.general(rng, 0, 18, nmin=13))
for i in N(900): add('holes', g.general(rng, rng.choice([1, 1, 2, 3]), 10))
for i in N(700): add('rect', g.rect(rng, True))
for i in N(600): add('rectnog', g.rect(rng, False))
for i in N(400): add('rectbig', g.rect(rng, False, W=rng.randint(4, 6), H=rng.randint(4, 6), mx=6))
for i in N(500): add('octi', g.octi(rng))
for i in N(400): add('bay', g.bay(rng))
for i in N(400): add('convex', g.convex(rng, rng.randint(3, 10)))
for i in N(400):   # fine lattice: coordinates are multiples of 1/64
    cs = g.general(rng, rng.choice([0, 0, 1]), 10, R=6400, mind=200)
    add('fine', cs, 1)
for i in N(400):   # house-sized
    cs = g.general(rng, rng.choice([0, 0, 1]), 9, R=960, mind=60)
    add('house', cs, 1)
for i in N(150):   # polygonal apse on a rectangle, not circular
    n = rng.randint(7, 10)
    R = rng.uniform(8, 20)
    e = rng.uniform(.6, 1.4)
    L = rng.uniform(10, 40)
    pts = [(-L, -R), (0, -R)] + [(e * R * math.sin(math.pi * k / n) + rng.uniform(-.3, .3), -R * math.cos(math.pi * k / n)) for k in range(1, n)] + [(0, R), (-L, R)]
    add('apse', [[(round(x * S), round(y * S)) for x, y in pts]], 1)
for n in range(3, 25):
    for R in (10, 37, 80):
        for ph in (0, .1):
            pts = [(R * math.cos(2 * math.pi * k / n + ph), R * math.sin(2 * math.pi * k / n + ph)) for k in range(n)]
            add('regular', [[(round(x * S), round(y * S)) for x, y in pts]], 1)
for r in real:
    m = max(abs(c) for ring in r['contours'] for p in ring for c in p)
    if m > 9000 or sum(map(len, r['contours'])) > 60:
        continue
    cand.append(('real', r['contours']))
rng = random.Random(77)
for i in N(200): add('round', g.around(rng, rng.randint(11, 22)))
for i in N(300): add('long', g.stretched(rng, 10))
for i in N(200): add('court', g.general(rng, rng.choice([2, 3, 4, 5]), 9, R=200))
for i in N(300):   # rectilinear, turned by the angles of 3-4-5 and 5-12-13 (exact on the grid)
    cs = g.rect(rng, rng.random() < .3)
    a, b = rng.choice([(3, 4), (4, 3), (-3, 4), (-4, 3), (12, 5), (5, 12)])
    add('turned', [[(a * x - b * y, b * x + a * y) for x, y in c] for c in cs], 4 if a + b == 17 else 12)
for i in N(200):
    cs = g.octi(rng)
    a, b = rng.choice([(3, 4), (4, 3), (-3, 4), (-4, 3)])
    add('turned', [[(a * x - b * y, b * x + a * y) for x, y in c] for c in cs], 12)

jobs = []
for i, (f, cs) in enumerate(cand):
    n = len(cs)
    k = max(map(len, cs))
    rots = range(k) if k <= 20 else sorted(rng.sample(range(k), 12))
    vs = [{'rot': [r] * n} for r in rots]
    vs += [{'quarter': 1}, {'quarter': 2}, {'quarter': 3}, {'off': [100, -300]}, {'off': [-37, 1000]}, {'uv': 'given'}]
    if n > 2:
        vs.append({'horder': list(range(n - 1, 0, -1))})
    for v, c in enumerate(vs):
        jobs.append({'id': '%d.%d' % (i, v), 'op': 'roof', 'contours': cs, 'cfg': c})
print(len(cand), 'candidates', len(jobs), 'runs', flush=True)
fails = collections.defaultdict(set)
B = 20000
with core.Scratch() as s:
    for a in range(0, len(jobs), B):
        recs = core.run_real(jobs[a:a + B], s, tag='r%d' % a)
        v, st, notes = core.judge('RoofTrace', recs, s, env={'MODE': 'all'})
        for k, cl in v.items():
            fails[int(k.split('.')[0])] |= set(cl)
        print(a, st, flush=True)
G = {'T': {'manifold', 'ccw', 'simple', 'returns', 'indices'},
     'F': {'distinct', 'base', 'one-per-wall', 'returns', 'indices'},
     'P': {'plane', 'walls-at-base', 'base', 'returns', 'indices'}}
# tags M (same roof after a motion) and S (after scaling)
pf = collections.defaultdict(set)
jobs = []
for i, (f, cs) in enumerate(cand):
    n, k = len(cs), max(map(len, cs))
    vs = [('M', {'rot': [r] * n}) for r in range(1, min(k, 12))]
    vs += [('M', {'quarter': q}) for q in (1, 2, 3)] + [('M', {'off': o}) for o in ([100, -300], [-37, 1000])] + [('M', {'uv': 'given'})]
    if n > 2:
        vs.append(('M', {'horder': list(range(n - 1, 0, -1))}))
    vs += [('S', {'scale': q}) for q in ([2, 1], [4, 1], [1, 2], [3, 1])]
    for v, (tag, c) in enumerate(vs):
        jobs.append({'id': '%d.%d.%s' % (i, v, tag), 'op': 'pair', 'kind': 'same', 't': 6, 'tz': 6, 'contours': cs, 'a': {}, 'b': c})
with core.Scratch() as s:
    for a in range(0, len(jobs), B):
        recs = core.run_real(jobs[a:a + B], s, tag='p%d' % a)
        v, st, notes = core.judge('PairTrace', recs, s)
        for k, cl in v.items():
            if cl:
                pf[int(k.split('.')[0])].add(k.split('.')[2])
        print(a, st, flush=True)
out = []
stat = collections.Counter()
bad = []
for i, (f, cs) in enumerate(cand):
    tags = ''.join(t for t in 'TFP' if not (fails[i] & G[t]))
    base = tags
    tags += ''.join(t for t in 'MS' if t not in pf[i])
    stat[f, tags] += 1
    if base:
        out.append({'id': '%s%d' % (f, i), 'fam': f, 'tags': tags, 'contours': cs})
    if base != 'TFP':
        bad.append({'fam': f, 'fails': sorted(fails[i]), 'contours': cs})
for k in sorted(stat.items()):
    print(k)
with open(os.path.join(core.VERIF, 'corpus', 'footprints.json'), 'w') as fo:
    fo.write('[\n' + ',\n'.join(json.dumps(o, separators=(',', ':')) for o in out) + '\n]\n')
json.dump(bad, open('/tmp/x/bad.json', 'w'))
