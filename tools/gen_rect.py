"""Rectilinear footprints for C10: which polyominoes of the 4 x 4 box (all of
them, enumerated by spec/PolyGen) deviate from the specification on the
unchanged tree, and a corpus of random rectilinear footprints that do not.
Writes corpus/rect.json and prints the findings (run by hand, never by a check)."""
import sys, os, json, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
import core, fpgen as g, framework


def polys(W, H, s):
    rc, out, st = core.tlc('PolyGen', s, env={'GW': str(W), 'GH': str(H)})
    P = sorted(json.loads(l[3:-1].replace('<<', '[').replace('>>', ']')) for l in out.splitlines() if l.startswith('"P|'))
    return [[[[2 * (p // 1000), 2 * (p % 1000)] for p in r] for r in rs] for rs in P]


def rand(rng):
    f = rng.choice(['gp', 'nog', 'unit', 'gp'])
    if f == 'gp':
        cs = g.rect(rng, True, step=2, mx=3, W=rng.randint(2, 4), H=rng.randint(2, 4))
    elif f == 'nog':
        cs = g.rect(rng, False, step=2, mx=4, W=rng.randint(2, 4), H=rng.randint(2, 4))
    else:
        cs = g.rect(rng, False, step=4, mx=1, W=rng.randint(2, 6), H=rng.randint(2, 6))
    ox, oy = cs[0][0][0] % 2, cs[0][0][1] % 2
    return f, [[(x + ox, y + oy) for x, y in c] for c in cs]


def variants(rs):
    k = max(map(len, rs))
    out = [{'rot': [r] * len(rs)} for r in range(k if k <= 24 else 1)]
    return out + [{'quarter': q} for q in (1, 2, 3)]


def run(cands, s, vs):
    jobs = [{'id': '%d.%d' % (i, n), 'op': 'rectskel', 'rings': rs, 'cfg': v}
            for i, (f, rs) in enumerate(cands) for n, v in enumerate(vs(rs))]
    recs = core.run_real(jobs, s)
    v, st, notes = core.judge('RectTrace', recs, s)
    bad = {}
    for j in jobs:
        if v[j['id']]:
            bad.setdefault(int(j['id'].split('.')[0]), set()).update(v[j['id']])
    return bad


def main():
    rng = random.Random(int(sys.argv[1]))
    with core.Scratch() as s:
        P = [('poly', x) for x in polys(4, 4, s)]
        bad = run(P, s, lambda rs: [{'rot': [r] * len(rs)} for r in range(max(map(len, rs)))])
        for head in (True, False):
            ins = [[P[i][1], sorted(bad[i])] for i in sorted(bad) if ('HEADON' in bad[i]) == head]
            print('finding: ' + json.dumps({'property': 'C10', 'inputs': ins, 'what':
                  ('%d polyominoes of a 4 x 4 box whose reflex corners meet head-on' if head else
                   '%d polyominoes of a 4 x 4 box in which several events coincide') % len(ins)}, separators=(',', ':')))
        P = [('poly', x) for x in polys(5, 4, s)]
        bad = run(P, s, lambda rs: [{}])
        ins = [[P[i][1], sorted(bad[i])] for i in sorted(bad)]
        print('finding: ' + json.dumps({'property': 'C10', 'inputs': ins, 'what':
              '%d polyominoes of a 5 x 4 box in which several events coincide' % len(ins)}, separators=(',', ':')))
        seen, cands = set(), []
        while len(cands) < int(sys.argv[2]):
            f, rs = rand(rng)
            k = str(framework.canon(rs))
            if k not in seen:
                seen.add(k)
                cands.append((f, rs))
        bad = run(cands, s, variants)
        keep = [{'id': '%s%d' % (f, i), 'fam': f, 'rings': rs} for i, (f, rs) in enumerate(cands) if i not in bad]
        sys.stderr.write('%d of %d random footprints kept, %d polyominoes listed\n' % (len(keep), len(cands), 0))
        with open(os.path.join(core.VERIF, 'corpus', sys.argv[3]), 'w') as f:
            f.write('[' + ',\n'.join(json.dumps(o, separators=(',', ':')) for o in keep) + ']\n')


main()
