"""tag_corpus.py TAG MODULE MODE OP: (re)computes one tag of corpus/footprints.json:
the footprints of which every variant (start vertex, quarter turn, translation)
is accepted by the specification get it."""
import sys, os, json, random, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import core
tag, module, mode, op = sys.argv[1:5]
path = os.path.join(core.VERIF, 'corpus', 'footprints.json')
fps = json.load(open(path))
rng = random.Random(7)
jobs = []
for o in fps:
    cs = o['contours']
    n, k = len(cs), max(map(len, cs))
    rots = range(k) if k <= 20 else sorted(rng.sample(range(k), 12))
    vs = [{'rot': [r] * n} for r in rots] + [{'quarter': q} for q in (1, 2, 3)]
    vs += [{'off': [100, -300]}, {'off': [-37, 1000]}] if op != 'skel' else []
    if n > 2:
        vs.append({'horder': list(range(n - 1, 0, -1))})
    for v, c in enumerate(vs):
        jobs.append({'id': '%s.%d' % (o['id'], v), 'op': op, 'contours': cs, 'cfg': c})
bad = collections.defaultdict(set)
B = 20000
with core.Scratch() as s:
    for a in range(0, len(jobs), B):
        recs = core.run_real(jobs[a:a + B], s, tag='r%d' % a)
        v, st, notes = core.judge(module, recs, s, env={'MODE': mode})
        for k, cl in v.items():
            bad[k.split('.')[0]] |= set(cl)
        print(a, len(jobs), notes[:1], flush=True)
stat, why = collections.Counter(), collections.Counter()
for o in fps:
    t = o['tags'].replace(tag, '')
    b = bad[o['id']]
    o['tags'] = t if b else t + tag
    stat[o['fam'], not b] += 1
    for c in b:
        why[o['fam'], c] += 1
for k in sorted(stat.items()):
    print(k)
for k in sorted(why.items()):
    print('  ', k)
with open(path, 'w') as fo:
    fo.write('[\n' + ',\n'.join(json.dumps(o, separators=(',', ':')) for o in fps) + '\n]\n')
