"""Adds the tag C (clear) to footprints of the corpus: one face per wall, no
corner of a face below 10 degrees, no corner within 3 degrees of 180 at which
only two faces meet.  Near those limits (8.1 degrees, 1.8 degrees) the clean-up
of faces legitimately depends on nodes added within lines."""
import sys, os, json, math
from collections import Counter
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import core
P = os.path.join(core.VERIF, 'corpus', 'footprints.json')
fps = json.load(open(P))
with core.Scratch() as s:
    recs = core.run_real([{'id': i, 'op': 'roof', 'contours': o['contours'], 'cfg': {}} for i, o in enumerate(fps)], s)
n = 0
for o, r in zip(fps, recs):
    ok = len(r['faces']) == sum(map(len, o['contours']))
    use = Counter(v for f in r['faces'] for v in f)
    for f in r['faces']:
        for a, b, c in zip(f[-1:] + f[:-1], f, f[1:] + f[:1]):
            p, q, w = (r['verts'][i] for i in (a, b, c))
            ang = (math.atan2(p[1] - q[1], p[0] - q[0]) - math.atan2(w[1] - q[1], w[0] - q[0])) % (2 * math.pi)
            ang = math.degrees(ang)
            if min(ang, 360 - ang) < 10 or abs(ang - 180) < 3 and (b < r['nin'] or use[b] == 2):
                ok = False
    o['tags'] = o['tags'].replace('C', '') + ('C' if ok else '')
    n += ok
with open(P, 'w') as f:
    f.write('[\n' + ',\n'.join(json.dumps(o, separators=(',', ':')) for o in fps) + '\n]\n')
print(n, len(fps))
