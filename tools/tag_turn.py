"""Adds the tag R (turns) to footprints of the corpus: turned by any of the
angles of core.PYTH, the specification accepts what the other tags promise (T, F, P, N, K, M)
for every start vertex tried."""
import sys, os, json, random, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import core
path = os.path.join(core.VERIF, 'corpus', 'footprints.json')
fps = json.load(open(path))
rng = random.Random(11)
bad = collections.Counter()
why = collections.Counter()
fam = {o['id']: o['fam'] for o in fps}
with core.Scratch() as s:
    for tag, module, mode, op in (('T', 'RoofTrace', 'tiling', 'roof'), ('F', 'RoofTrace', 'faces', 'roof'), ('P', 'RoofTrace', 'plane', 'roof'),
                                  ('N', 'SkelTrace', 'height', 'skel'), ('K', 'SkelTrace', 'graph', 'skel'), ('M', 'PairTrace', '', 'pair')):
        jobs = []
        for o in fps:
            n, k = len(o['contours']), max(map(len, o['contours']))
            if tag in o['tags'] and o['fam'] not in ('real', 'regular'):
                for i, p in enumerate(core.PYTH):
                    for j, r in enumerate(sorted({0, rng.randrange(k), rng.randrange(k)})):
                        c = {'pyth': p, 'rot': [r] * n}
                        job = {'id': '%s.%d.%d' % (o['id'], i, j), 'op': op, 'contours': o['contours'], 'cfg': dict(c, tn=1, td=1, tan=[1, 1], tol=8)}
                        if op == 'pair':
                            job.update(kind='same', t=8, tz=8, a={}, b=c)
                        jobs.append(job)
        for a in range(0, len(jobs), 20000):
            v = core.judge(module, core.run_real(jobs[a:a + 20000], s, tag='%s%d' % (tag, a)), s, env={'MODE': mode})[0]
            for i, cl in v.items():
                if cl:
                    bad[i.split('.')[0]] += 1
                    why[fam[i.split('.')[0]], tag, ','.join(cl)] += 1
        print(tag, len(jobs), len(bad), flush=True)
for k, c in sorted(why.items()):
    print(c, k)
for o in fps:
    o['tags'] = o['tags'].replace('R', '') + ('' if bad[o['id']] or o['fam'] in ('real', 'regular') else 'R')
with open(path, 'w') as fo:
    fo.write('[\n' + ',\n'.join(json.dumps(o, separators=(',', ':')) for o in fps) + '\n]\n')
