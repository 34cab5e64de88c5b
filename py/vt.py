"""Machinery shared by all checks: building, running jobs on the model MPI runtime, validating traces with TLC, reporting."""
import os, sys, json, time, subprocess, tempfile, shutil, hashlib, re, random
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
SPEC = V + '/spec'
OUT = V + '/out'
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = max(2, min(8, os.cpu_count() or 4))
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')

class CheckError(Exception):
    pass

class Job:
    """One program with one schedule: n ranks, scheduling/network options, environment, script lines."""
    def __init__(self, id, n, lines, env=None, lc=1, variant='ompi4', expect=None, **opt):
        self.id, self.n, self.lines, self.env, self.lc, self.variant, self.expect = id, n, lines, dict(env or {}), lc, variant, expect
        self.opt = dict(seed=1, sched=0, net=2, order=1, send=2, reuse=1, unified=1, blk=0, segred=0, acc=0, dunit=0, steps=60000)
        self.opt.update(opt)
        self.prefix = None
        self.np = 0          # processes of the library's world, if fewer than n
        self.choices = 0
    def text(self):
        o = ' '.join('%s=%s' % kv for kv in self.opt.items())
        e = ','.join('%s=%s' % (k, str(v).replace(',', ';').replace(' ', '~')) for k, v in self.env.items())
        s = 'J %s n=%d lc=%d %s%s%s\n' % (self.id, self.n, self.lc, o + (' np=%d' % self.np if self.np else ''), ' choices=1' if self.choices else '', ' env=' + e if e else '')
        s += '\n'.join(self.lines) + '\n'
        if self.prefix:
            s += 'C ' + ','.join(map(str, self.prefix)) + '\n'
        return s + 'E\n'

NARROW = re.compile(r'at=[cz]\b.*\bsc=-?\d+,-?\d+,-?[1-9]|\bsc=-?\d+,-?\d+,-?[1-9].*at=[cz]\b|\brmw |f=u\b|f=pf|f=psf|\bsel |\bpoll ')
def widen(j, rng, p=0.22, small=False):
    """some programs run with cells of many equal elements: the same behaviour with transfers and messages of up to a megabyte"""
    if rng.random() < p and not getattr(j, 'narrow', False) and j.opt.get('wide', 1) == 1 and not j.opt.get('gap') and not any(NARROW.search(l) for l in j.lines):
        j.opt['wide'] = rng.choice([3, 16, 100, 1000, 1021, 4096, 4099, 10007, 10007, 20011]) if len(j.lines) < 120 and not small else rng.choice([3, 16, 100])
    return j

class Result:
    __slots__ = ('job', 'trace', 'outcome', 'ch', 'wd')
    def __init__(self, job, trace, outcome, ch=None, wd=None):
        self.job, self.trace, self.outcome, self.ch, self.wd = job, trace, outcome, ch, wd

def build(outdir, variant):
    p = subprocess.run([V + '/build.sh', outdir, variant], capture_output=True, text=True, env=dict(os.environ, REPO=REPO))
    if p.returncode or not os.path.exists(outdir + '/run'):
        raise CheckError('build of variant %s failed:\n%s' % (variant, (p.stderr or p.stdout)[-3000:]))
    return outdir + '/run'

def _run_batch(binary, jobs, timeout):
    """Runs jobs in one runner process; returns list of Results (None entries where the runner died)."""
    p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', cwd='/')
    try:
        out, _ = p.communicate(''.join(j.text() for j in jobs), timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
    res, cur, k = [], None, 0
    for line in out.splitlines():
        if line.startswith('{"e":"job",'):
            cur = [line]
        elif cur is not None:
            cur.append(line)
            if line.startswith('{"e":"jobend"'):
                d = json.loads(line)
                if d.get('ch') is not None:
                    cur[-1] = '{"e":"jobend","id":"%s","outcome":%d}' % (d['id'], d['outcome'])
                res.append(Result(jobs[k], cur, d['outcome'], d.get('ch'), d.get('wd')))
                k += 1
                cur = None
    return res

def run_jobs(binaries, jobs, timeout=600):
    """binaries: variant -> path. Keeps the order of jobs. Widened programs that need more memory than the model machine has run narrower."""
    out = _run_jobs(binaries, jobs, timeout)
    for i, r in enumerate(out):
        if jobs[i].opt.get('wide', 1) >= 1000 and r.trace[-2:] and any('"exhausted"' in l and '"heap"' in l for l in r.trace[-2:]):
            jobs[i].opt['wide'] = 100
            out[i] = _run_jobs(binaries, [jobs[i]], timeout)[0]
    return out

def _run_jobs(binaries, jobs, timeout):
    """binaries: variant -> path. Keeps the order of jobs."""
    batches = []
    by = {}
    for i, j in enumerate(jobs):
        by.setdefault(j.variant, []).append(i)
    for v, idx in by.items():
        m = max(1, min(40, (len(idx) + NCPU - 1) // NCPU))
        for a in range(0, len(idx), m):
            batches.append((v, idx[a:a + m]))
    out = [None] * len(jobs)
    def go(b):
        v, idx = b
        rest = list(idx)
        tries = 0
        while rest:
            rs = _run_batch(binaries[v], [jobs[i] for i in rest], timeout)
            for i, r in zip(rest, rs):
                out[i] = r
            if len(rs) == len(rest):
                break
            rest = rest[len(rs):]
            tries += 1
            if not rs or tries > 3:     # the runner did not survive this job: alone, once more
                j = jobs[rest[0]]
                one = _run_batch(binaries[v], [j], 120)
                out[rest[0]] = one[0] if one else Result(j, ['{"e":"job","id":"%s","n":%d,"lc":%d}' % (j.id, j.n, j.lc), '{"e":"died"}'], 1)
                rest = rest[1:]
                tries = 0
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(go, batches))
    for r in out:
        if r.outcome == 9:
            msg = [l for l in r.trace if '"harness"' in l]
            raise CheckError('harness error in job %s: %s' % (r.job.id, msg[-1] if msg else '?'))
    return out

# ---------------------------------------------------------------- TLC
def tlc(cfg, module, env=None, args=(), timeout=300, heap='3g', specdir=SPEC, workers=1, tmp=None):
    md = tempfile.mkdtemp(prefix='tlc', dir=tmp)
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-XX:TieredStopAtLevel=1' if workers == 1 and timeout <= 60 else '-XX:+TieredCompilation',
           '-DTLA-Library=%s:%s/user' % (SPEC, SPEC), '-cp', CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', md, '-noGenerateSpecTE', '-config', cfg] + list(args) + [module]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, cwd=specdir, env=dict(os.environ, **(env or {})), timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        return -1, 'TIMEOUT'
    finally:
        shutil.rmtree(md, ignore_errors=True)

UNDECIDED = []
STATS = dict(states=0, transitions=0, events=0, traces=0)

def _validate_file(path, n, timeout):
    """-> number of accepted events (n: all), or None with an evaluation error; text"""
    rc, out = tlc('ArmciTrace.cfg', 'ArmciTrace.tla', env={'TRACE': path}, timeout=timeout)
    m = re.search(r'<<"REACHED", (\d+), (\d+)>>', out)
    g = re.search(r'(\d+) states generated, (\d+) distinct states', out)
    if g:
        STATS['transitions'] += int(g.group(1)); STATS['states'] += int(g.group(2))
    if m and int(m.group(2)) == n:
        return int(m.group(1)), out
    return None, out

def _first_bad(results, tmp, timeout):
    """Validates the concatenated traces; returns (index of first rejected job, event index within the job, text) or None."""
    fd, path = tempfile.mkstemp(suffix='.ndjson', dir=tmp)
    n = 0
    with os.fdopen(fd, 'w') as f:
        for r in results:
            f.write('\n'.join(r.trace) + '\n')
            n += len(r.trace)
    try:
        k, out = _validate_file(path, n, timeout)
    finally:
        os.unlink(path)
    if k is None:
        if len(results) > 1:
            h, t2 = ((len(results) + 3) // 4, 25) if out.startswith('TIMEOUT') else ((len(results) + 1) // 2, timeout)
            for i in range(0, len(results), h):
                x = _first_bad(results[i:i + h], tmp, t2)
                if x: return (x[0] + i,) + x[1:]
            return None
        # the specification cannot be evaluated on this trace: find the event by cutting the trace
        tr = results[0].trace
        if out.startswith('TIMEOUT'):
            STATS['undecided'] = STATS.get('undecided', 0) + 1; UNDECIDED.append(results[0])
            return None
        if not any(x in out for x in ('Attempted to', 'evaluating', 'CHOOSE', 'In applying', 'Error: The')) or 'OutOfMemory' in out:
            raise CheckError('TLC gives no answer:\n' + out[-3000:])
        lo, hi = 0, len(tr)
        while hi - lo > 1:
            mid = (lo + hi) // 2
            fd, path = tempfile.mkstemp(suffix='.ndjson', dir=tmp)
            with os.fdopen(fd, 'w') as f:
                f.write('\n'.join(tr[:mid]) + '\n')
            kk, o2 = _validate_file(path, mid, timeout)
            os.unlink(path)
            if kk is None:
                hi = mid
            else:
                if kk < mid:
                    return (0, kk, '')
                lo = mid
        return (0, lo, 'the event has no meaning in the specification: ' + out[-1500:])
    if k == n:
        return None
    for i, r in enumerate(results):
        if k < len(r.trace):
            return (i, k, '')
        k -= len(r.trace)
    return None

def validate(results, tmp, timeout=80, maxbad=3, chunk_events=None):
    """All traces against ArmciTrace. Returns list of (Result, event index)."""
    total = sum(len(r.trace) for r in results)
    per = chunk_events or max(1500, min(12000, total // (NCPU - 1) + 1))
    chunks, cur, c = [], [], 0
    for r in results:
        cur.append(r); c += len(r.trace)
        if c >= per:
            chunks.append(cur); cur, c = [], 0
    if cur:
        chunks.append(cur)
    bad = []
    def go(ch):
        rest = list(ch)
        while rest and len(bad) < maxbad:
            b = _first_bad(rest, tmp, timeout)
            if b is None:
                break
            bad.append((rest[b[0]], b[1]))
            rest = rest[b[0] + 1:]
    with ThreadPoolExecutor(NCPU - 1) as ex:
        list(ex.map(go, chunks))
    STATS['events'] += total
    STATS['traces'] += len(results)
    return bad
