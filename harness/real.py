"""Runs the real code (imported from /repo) on jobs and records what it did.

Usage: python real.py JOBS.ndjson OUT.ndjson     (one JSON object per line)

Every job has "id" and "op"; the answer is one JSON object with only integers,
booleans, strings and arrays: the projection of the observed behaviour on the
state of the specification (fixed-point coordinates, S units per unit).
This file does not judge anything; the verdicts are TLC's.
"""
import sys, os, json, signal, math, resource, time

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
S = 64
CLAMP = 16000
TIMEOUT = int(os.environ.get('VERIF_CASE_TIMEOUT', '20'))


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


def fx(v, clamp=CLAMP, s=S):
    """fixed point, clamped so that the specification's integers cannot overflow"""
    try:
        v = float(v)
    except Exception:
        return clamp
    if v != v:
        return clamp
    v = v * s
    if v > clamp:
        return clamp
    if v < -clamp:
        return -clamp
    return int(math.floor(v + 0.5))


def excname(e):
    return (type(e).__name__ + ': ' + str(e))[:120]


def main():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(3000)
    sys.modules['real'] = sys.modules['__main__']
    import ops
    signal.signal(signal.SIGALRM, _alarm)
    devnull = open(os.devnull, 'w')
    late = 0
    with open(sys.argv[1]) as f, open(sys.argv[2], 'w') as out:
        for line in f:
            job = json.loads(line)
            if late >= 6:               # calls that do not come back must not use up all the time
                out.write(json.dumps({'id': job['id'], 'skip': 'not run: several calls took too long'}) + '\n')
                continue
            t0 = time.time()
            limit = TIMEOUT if late < 2 else TIMEOUT / 5
            old = sys.stdout
            sys.stdout = devnull
            try:
                signal.setitimer(signal.ITIMER_REAL, limit)
                rec = ops.run(job)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                sys.stdout = old
            late += time.time() - t0 >= limit
            out.write(json.dumps(rec) + '\n')
            out.flush()


if __name__ == '__main__':
    main()
