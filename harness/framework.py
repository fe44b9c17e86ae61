"""Check framework: registry, verdict handling, evidence, known findings."""
import os, sys, json, time, random, traceback, hashlib
import core

CHECKS = {}


def check(pid, technique, note):
    def deco(f):
        CHECKS[pid] = (f, technique, note)
        return f
    return deco


def canon(contours):
    """start-vertex independent form of a footprint"""
    out = []
    for c in contours:
        c = [tuple(p) for p in c]
        k = c.index(min(c))
        out.append(tuple(c[k:] + c[:k]))
    return (out[0],) + tuple(sorted(out[1:]))


class Ctx:
    def __init__(self, pid, scratch, tier, seed):
        self.pid, self.scratch, self.tier, self.seed = pid, scratch, tier, seed
        self.rng = random.Random('%s-%d' % (pid, seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.parts = []
        self.samples = []
        self.viol = []          # (suite, id, clauses, job, rec)
        self.known_hits = []
        self.notes = []
        self.skipped = []
        self.known = [k for k in core.load_known() if k['property'] == pid]
        self.known_fp = {}      # footprint -> [(clauses, what)]
        for k in self.known:
            for cs, cl in k.get('inputs', []) + ([[k['contours'], k['clauses']]] if 'contours' in k else []):
                self.known_fp.setdefault(canon(cs), []).append((set(cl), k['what']))
        self.distinct = set()

    def thorough(self):
        return self.tier == 'thorough'

    # --- run jobs on the real code and let TLC judge the records
    def validate(self, suite, module, jobs, env=None, cfg=None, project=None, env_real=None, **kw):
        if not jobs:
            return {}
        recs = core.run_real(jobs, self.scratch, tag=suite, extra_env=env_real)
        if project:
            recs = [project(j, r) for j, r in zip(jobs, recs)]
        return self.judge(suite, module, jobs, recs, env, cfg, **kw)

    def judge(self, suite, module, jobs, recs, env=None, cfg=None, **kw):
        keep_j, keep_r = [], []
        nskip = 0
        for j, r in zip(jobs, recs):
            if r.get('skip'):
                nskip += 1
                if len(self.skipped) < 20:
                    self.skipped.append('%s: %s' % (suite, r['skip']))
            else:
                keep_j.append(j)
                keep_r.append(r)
        if not keep_r:
            self.parts.append({'suite': suite, 'module': module, 'records': 0, 'skipped': nskip})
            return {}
        verd, stats, notes = core.judge(module, keep_r, self.scratch, env=env, cfg=cfg, tag=suite + '_recs', **kw)
        self.states += stats['distinct']
        self.transitions += stats['generated']
        self.traces += len(keep_r)
        self.notes += notes
        nf = 0
        for j, r in zip(keep_j, keep_r):
            self.distinct.add(hashlib.md5(json.dumps([suite, {k: v for k, v in j.items() if k != 'id'}],
                                                     sort_keys=True).encode()).hexdigest())
            cl = verd[str(r['id'])]
            if cl:
                nf += 1
                self.fail(suite, r['id'], cl, j, r)
        self.parts.append({'suite': suite, 'module': module, 'records': len(keep_r), 'skipped': nskip,
                           'states': stats['distinct'], 'rejected': nf})
        if len(self.samples) < 4 and keep_j:
            self.samples.append({'suite': suite, 'job': keep_j[len(keep_j) // 2],
                                 'verdict': verd[str(keep_r[len(keep_j) // 2]['id'])]})
        return verd

    def model(self, suite, module, cfg=None, env=None, expect_ok=True, **kw):
        """plain model checking of a specification module; a violated invariant of the
        model itself is a machinery error (the code is judged by conformance only)"""
        rc, out, stats = core.tlc(module, self.scratch, env=env, cfg=cfg, **kw)
        if stats is None or (expect_ok and 'No error has been found' not in out):
            raise core.MachineryError('model %s failed:\n%s' % (module, out[-3000:]))
        self.states += stats['distinct']
        self.transitions += stats['generated']
        self.parts.append({'suite': suite, 'module': module, 'states': stats['distinct'],
                           'transitions': stats['generated'], 'kind': 'model'})
        return out

    def fail(self, suite, cid, clauses, job, rec):
        fp = job.get('contours') or job.get('rings')
        for cl, what in self.known_fp.get(canon(fp), []) if fp else []:
            if set(clauses) <= cl:
                self.known_hits.append((what, cid))
                return
        self.viol.append((suite, cid, clauses, job, rec))

    def finish(self):
        d = os.path.join(core.VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d):
            if f.startswith(self.pid + '_'):
                os.remove(os.path.join(d, f))
        for what in sorted({w for w, _ in self.known_hits}):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        for n, (suite, cid, cl, job, rec) in enumerate(self.viol):
            if n >= int(os.environ.get("SHOW", 10)):
                print('... %d more' % (len(self.viol) - n))
                break
            p = os.path.join(d, '%s_%d.json' % (self.pid, n))
            with open(p, 'w') as f:
                json.dump({'property': self.pid, 'suite': suite, 'id': cid, 'failing_clauses': cl,
                           'job': job, 'record': rec}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            print('  suite %s, case %s, failing clauses: %s%s' % (
                suite, cid, ', '.join(cl), ' (%s)' % rec.get('exc') if rec.get('exc') else ''))
        level = 'model_checking'
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'distinct_inputs': len(self.distinct), 'suites': self.parts,
               'samples': self.samples or ['none'], 'skipped': self.skipped,
               'known_findings_seen': sorted({w for w, _ in self.known_hits}), 'spec_notes': self.notes[:40]}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': ASSUME, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.viol)}
        os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(core.VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d records of the real code judged by TLC, %d states, %d rejected, %.1f s' % (
            self.pid, self.tier, self.traces, self.states, len(self.viol), time.time() - self.t0))
        return 1 if self.viol else 0


ASSUME = ['TLC evaluates the specification correctly',
          'the recorder (harness/ops.py) projects what the library returned faithfully to fixed-point integers',
          'coverage is that of the inputs explored; nothing is proved beyond them']


def main(argv):
    pid = argv[1]
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import checks  # noqa: registers
    if pid == 'list':
        for k in sorted(CHECKS):
            print(k)
        return 0
    with core.Scratch() as s:
        ctx = Ctx(pid, s, core.TIER, core.SEED)
        if len(argv) > 3 and argv[2] == '--replay':
            rep = json.load(open(argv[3]))
            ctx.only = rep
            recs = core.run_real([rep['job']], s)
            print(json.dumps(recs[0], indent=1)[:4000])
            return 0
        try:
            CHECKS[pid][0](ctx)
        except core.MachineryError as e:
            print('ERROR of the check machinery: %s' % e)
            if ctx.viol:
                return ctx.finish()
            return 2
        return ctx.finish()





