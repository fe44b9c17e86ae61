"""Captures the footprints of the repository's tests (arguments of polygonize),
snapped to the 1/64 grid.  Output: JSON list of {name, contours}."""
import sys, os, json, glob, importlib.util
R = '/repo'
sys.path.insert(0, R)
from bpypolyskel import bpypolyskel as b
out = []
cur = [None]
def fake(verts, firstVertIndex, numVerts, holesInfo=None, height=0., tan=0., faces=None, unitVectors=None):
    rings = [verts[firstVertIndex:firstVertIndex + numVerts]]
    for s, n in holesInfo or []:
        rings.append(verts[s:s + n])
    allp = [v for r in rings for v in r]
    cx = round((min(v.x for v in allp) + max(v.x for v in allp)) / 2)
    cy = round((min(v.y for v in allp) + max(v.y for v in allp)) / 2)
    out.append({'name': cur[0], 'contours': [[[round((v.x - cx) * 64), round((v.y - cy) * 64)] for v in r] for r in rings]})
    raise KeyboardInterrupt
b.polygonize = fake
def call(f):
    try: f()
    except BaseException: pass
for d in ('tests', 'tests_special', 'debug'):
    for p in sorted(glob.glob(R + '/' + d + '/**/test_*.py', recursive=True)):
        cur[0] = d + '/' + os.path.basename(p)[5:-3]
        spec = importlib.util.spec_from_file_location('m_' + os.path.basename(p)[:-3], p)
        m = importlib.util.module_from_spec(spec)
        n0 = len(out)
        try: spec.loader.exec_module(m)
        except BaseException: pass
        if len(out) == n0:
            for k in dir(m):
                if k.startswith('test') and len(out) == n0:
                    call(lambda: getattr(m, k)())
json.dump(out, open(sys.argv[1], 'w'))
print(len(out), len({o['name'] for o in out}))
