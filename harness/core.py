"""Driver: run jobs against the real code in parallel, let TLC judge the
records, report.  Python 3 standard library only."""
import sys, os, json, subprocess, tempfile, shutil, re, time, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
JAR = '/opt/veriftools/tla/tla2tools.jar'
NCPU = os.cpu_count() or 4
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')


class MachineryError(Exception):
    pass


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='verif_')
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def real_env(scratch, extra=None):
    e = dict(os.environ)
    e.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
             PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'), VERIF_REPO=REPO,
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    e.update(extra or {})
    return e


def run_real(jobs, scratch, nproc=None, extra_env=None, tag='r'):
    """Returns the records in job order.  A worker that dies yields a record
    ok=False for the job it died on and the rest is retried."""
    nproc = min(nproc or NCPU, max(1, len(jobs)))
    shards = [jobs[i::nproc] for i in range(nproc)]
    recs = {}
    env = real_env(scratch, extra_env)
    todo = [(k, s) for k, s in enumerate(shards)]
    rnd = 0
    while todo:
        procs = []
        for k, s in todo:
            a = os.path.join(scratch, '%s_jobs_%d_%d' % (tag, k, rnd))
            b = os.path.join(scratch, '%s_recs_%d_%d' % (tag, k, rnd))
            with open(a, 'w') as f:
                for j in s:
                    f.write(json.dumps(j) + '\n')
            open(b, 'w').close()
            procs.append((k, s, b, subprocess.Popen(
                [PY, os.path.join(VERIF, 'harness', 'real.py'), a, b], env=env,
                stdout=subprocess.DEVNULL, stderr=open(b + '.err', 'w'), cwd=scratch)))
        nxt = []
        for k, s, b, p in procs:
            rc = p.wait()
            got = [json.loads(l) for l in open(b) if l.endswith('\n')]
            for j, r in zip(s, got):
                recs[j['id']] = r
            if len(got) < len(s):
                err = open(b + '.err').read()[-300:]
                if len(got) == 0 and rnd == 0 and 'ops.py' in err and 'import' in err:
                    pass
                bad = s[len(got)]
                recs[bad['id']] = {'id': bad['id'], 'ok': False,
                                   'exc': 'worker died rc=%d %s' % (rc, err.strip().split('\n')[-1][:100])}
                rest = s[len(got) + 1:]
                if rest:
                    nxt.append((k, rest))
        todo = nxt
        rnd += 1
        if rnd > 400:
            raise MachineryError('workers keep dying')
    return [recs[j['id']] for j in jobs]


def tlc(module, scratch, env=None, cfg=None, workers=None, args=(), timeout=840, heap='6g', simulate=None):
    """Run TLC on spec/<module>.tla; returns (stdout, stats)."""
    meta = tempfile.mkdtemp(prefix='tlc_', dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
           '-Djava.io.tmpdir=' + meta,
           '-cp', JAR + ':' + os.environ.get('TLA_CM', '/opt/veriftools/tla/CommunityModules-deps.jar'),
           'tlc2.TLC', '-workers', str(workers or NCPU), '-metadir', meta, '-noGenerateSpecTE',
           '-deadlock', '-config', cfg or module + '.cfg']
    cmd += list(args) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, 'spec'), env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, text=True)
    except subprocess.TimeoutExpired as ex:
        raise MachineryError('TLC timed out on ' + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    stats = {'generated': int(m.group(1).replace(',', '')), 'distinct': int(m.group(2).replace(',', ''))} if m else None
    return p.returncode, out, stats


LINE = re.compile(r'^"?([A-Z])\|(.*?)"?$', re.M)


def judge(module, recs, scratch, env=None, cfg=None, tag='recs', **kw):
    """Feed records to a trace-checking module; returns ({id: [clauses]}, stats, notes).

    A record on which the specification cannot even be evaluated (garbage far
    outside the recorded types) stops TLC; such records are isolated by
    bisection and rejected with the clause "malformed"."""
    verd, notes, tot = {}, [], {'generated': 0, 'distinct': 0}
    budget = [14]

    def go(part, depth):
        path = os.path.join(scratch, '%s_%d.ndjson' % (tag, depth))
        with open(path, 'w') as f:
            for r in part:
                f.write(json.dumps(r) + '\n')
        e = {'RECS': path}
        e.update(env or {})
        budget[0] -= 1
        rc, out, stats = tlc(module, scratch, env=e, cfg=cfg, **kw)
        for m in LINE.finditer(out):
            if m.group(1) == 'V':
                i, cl = m.group(2).split('|', 1)
                verd[i] = [c for c in cl.split(',') if c]
            elif m.group(1) == 'N':
                notes.append(m.group(2))
        for k in tot:
            tot[k] += stats[k] if stats else 0
        left = [r for r in part if str(r['id']) not in verd]
        if not left:
            return
        if len(left) == len(part) and (stats is None or stats['distinct'] <= 1):
            if len(part) > 1 or stats is None:
                raise MachineryError('TLC failed on %s (rc=%d):\n%s' % (module, rc, out[-3000:]))
        if len(left) == 1 or budget[0] <= 0:
            for r in left:
                verd[str(r['id'])] = ['malformed']
            notes.append('malformed: ' + out[-600:].replace('\n', ' '))
            return
        h = len(left) // 2
        go(left[:h], depth + 1)
        go(left[h:], depth + 1)

    go(recs, 0)
    return verd, tot, notes


def load_known():
    """known_findings.txt: 'finding: {json}' lines; 'fixed: ..' lines suppress nothing"""
    known = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: '):
                known.append(json.loads(l[9:]))
    return known


# turns by the angles with cosine a/c and sine b/c
PYTH = [[3, 4, 5], [4, 3, 5], [5, 12, 13], [8, 15, 17], [20, 21, 29], [-7, 24, 25], [-3, 4, 5]]


def corpus(tag=None, fams=None):
    out = []
    for o in json.load(open(os.path.join(VERIF, 'corpus', 'footprints.json'))):
        if (tag is None or tag in o['tags']) and (fams is None or o['fam'] in fams):
            out.append(o)
    return out
