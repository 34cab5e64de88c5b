#!/usr/bin/env python3
"""check.py PID [quick|thorough]      decides one property on /repo's working tree
   check.py --replay FILE             re-runs a recorded violation
Exit 0: held on everything explored; 1 with a VIOLATION line: broken; 2: the check itself failed."""
import os, sys, re, json, time, random, tempfile, shutil, traceback, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt
from vt import *
import registry, user

def save(pid, r, k, kind='trace'):
    os.makedirs(OUT, exist_ok=True)
    h = hashlib.sha1((r.job.text() + str(k)).encode()).hexdigest()[:10]
    path = '%s/%s-%s.json' % (OUT, pid, h)
    j = r.job
    json.dump(dict(property=pid, kind=kind, job=dict(id=j.id, n=j.n, lines=j.lines, env=j.env, lc=j.lc, variant=j.variant, opt=j.opt, prefix=j.prefix, choices=j.choices),
                   rejected_event_index=k, rejected_event=r.trace[k] if k < len(r.trace) else None, trace=r.trace), open(path, 'w'), indent=1)
    return path

def load(path):
    d = json.load(open(path)); j = d['job']
    J = Job(j['id'], j['n'], j['lines'], env=j['env'], lc=j['lc'], variant=j['variant'], **j['opt'])
    J.prefix, J.choices = j['prefix'], j['choices']
    return d, J

class Ctx:
    def __init__(s, pid, tier, seed, tmp):
        s.pid, s.tier, s.seed, s.tmp, s.bins, s.t0 = pid, tier, seed, tmp, {}, time.time()
        s.cov = collections.Counter(); s.jobs = 0; s.samples = []; s.bad = []; s.models = []; s.envs = set(); s.extra = {}; s.notes = []; s.absent = set()
    def left(s, limit):
        return limit - (time.time() - s.t0)
    def need(s, variants):
        miss = [v for v in variants if v not in s.bins]
        with ThreadPoolExecutor(4) as ex:
            for v, b in zip(miss, ex.map(lambda v: build('%s/b_%s' % (s.tmp, v), v), miss)):
                s.bins[v] = b
    def judge(s, results, maxbad=2):
        """validates, confirms every rejection by running the job again"""
        for r in results:
            for l in r.trace:
                s.cov[l[6:l.index('"', 6)]] += 1
            s.envs.add((r.job.variant,) + tuple(sorted(r.job.env.items())))
        s.jobs += len(results)
        if not s.samples and results:
            r = results[len(results) // 2]
            s.samples.append(dict(job=r.job.text().split('\n')[:40], events=len(r.trace), trace_head=r.trace[:12]))
        # schedules that lead to the same trace are validated once
        uniq, todo = set(), []
        for r in results:
            h = hash((r.job.lc, r.outcome, '\n'.join(r.trace[1:-1])))
            if h not in uniq: uniq.add(h); todo.append(r)
        s.distinct = getattr(s, 'distinct', 0) + len(todo)
        for r, k in validate(todo, s.tmp, maxbad=maxbad):
            for _ in range(2):
                r2 = run_jobs(s.bins, [r.job])[0]
                b2 = validate([r2], s.tmp, maxbad=1)
                if b2:
                    break
            if b2:
                s.bad.append((r2, b2[0][1]))
            else:
                s.notes.append('rejection of job %s not repeated' % r.job.id)
    def other_builds(s, variants):
        """builds of other configurations of the library; one that cannot be built is left out, unless an interface function is missing"""
        for v in variants:
            try: s.need([v])
            except CheckError as e:
                m = sorted(set(re.findall(r'undefined reference to .(P?ARMCIX?_\w+|p?armci_msg_\w+)', str(e))))
                if m:
                    path = '%s/%s-build-%s.txt' % (OUT, s.pid, v); os.makedirs(OUT, exist_ok=True); open(path, 'w').write(str(e))
                    s.extra.setdefault('violations', []).append(dict(text='the %s build lacks %s' % (v, ', '.join(m)), replay=path))
                else: s.notes.append('build %s left out: %s' % (v, str(e)[-300:]))
                s.absent.add(v)
    def run(s, jobs):
        for j in jobs:
            if j.variant in s.absent: j.variant = 'ompi4'
        s.need(sorted(set(j.variant for j in jobs)))
        rs = run_jobs(s.bins, jobs)
        s.judge(rs)
        return rs

def dfs(ctx, mk, limit, batch=500, deadline=600):
    """all schedules of a program (up to limit runs): stateless search over the scheduling choices"""
    J0 = mk
    seen = 0; stack = [[]]; pending = []; complete = True
    while stack and seen < limit and not ctx.bad and ctx.left(deadline) > 0:
        cur = []
        while stack and len(cur) < batch and seen + len(cur) < limit:
            p = stack.pop()
            j = Job('%s_%d' % (J0.id, seen + len(cur)), J0.n, J0.lines, env=J0.env, lc=J0.lc, variant=J0.variant, **J0.opt)
            j.opt['sched'] = 5; j.prefix = p or None; j.choices = 1
            cur.append(j)
        rs = ctx.run(cur)
        for j, r in zip(cur, rs):
            p = j.prefix or []
            if r.ch is None: continue
            for i in range(len(r.ch) - 1, len(p) - 1, -1):
                for a in range(r.wd[i]):
                    if a != r.ch[i]:
                        stack.append(r.ch[:i] + [a])
        seen += len(cur)
    return seen, not stack

def model(ctx, m):
    """a closed design-level model: must satisfy its properties; with `expect`, a deviating design that must violate that one"""
    if ctx.left(m.get('needs', 30)) < 0: return
    rc, out = tlc('design/' + m['cfg'] + '.cfg', 'design/' + m['cfg'].split('_')[0] + '.tla', timeout=m.get('timeout', 300), heap=m.get('heap', '4g'), workers=m.get('workers', NCPU if m.get('tier') else 2), tmp=ctx.tmp, args=m.get('args', ()))
    g = re.search(r'(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found', out)
    want = m.get('expect')
    ok = ('No error has been found' in out) if not want else re.search(want, out)
    if '-simulate' in m.get('args', ()) and not want: ok = 'Error:' not in out and 'states checked' in out
    if not ok:
        raise CheckError('model %s: %s' % (m['cfg'], out[-2500:]))
    if not g: g = re.search(r'(\d+) states checked()', out)
    ctx.models.append(dict(model=m['cfg'], generated=int(g.group(1) or 0) if g else 0, distinct=int(g.group(2) or 0) if g else 0, **({'violates_as_it_must': want} if want else {})))

def evidence(ctx, c, violations):
    os.makedirs(V + '/evidence', exist_ok=True)
    ms = sum(m['distinct'] for m in ctx.models); mt = sum(m['generated'] for m in ctx.models)
    cov = dict(states=STATS['states'] + ms, transitions=STATS['transitions'] + mt, traces_validated_against_impl=STATS['traces'], runs=ctx.jobs, samples=ctx.samples,
               events_validated=STATS['events'], events_by_kind=dict(ctx.cov), configurations=len(ctx.envs), programs=ctx.jobs, models=ctx.models, undecided_traces=STATS.get('undecided', 0), **ctx.extra)
    if ctx.notes: cov['notes'] = ctx.notes
    d = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=c['level'], coverage=cov, assumptions=registry.ASSUMPTIONS + c.get('assume', []), wall_s=round(time.time() - ctx.t0, 1), violations=violations)
    json.dump(d, open('%s/evidence/%s.json' % (V, ctx.pid), 'w'), indent=1)

def known(pid):
    out = []
    try:
        for l in open(V + '/known_findings.txt'):
            if l.startswith('finding: property=%s ' % pid):
                out.append(l.split(' ', 2)[2].strip())
    except FileNotFoundError:
        pass
    return out

def go(pid, tier):
    c = registry.CHECKS[pid]
    tmp = tempfile.mkdtemp(prefix='vp_', dir='/tmp')
    ctx = Ctx(pid, tier, SEED, tmp)
    thorough = tier == 'thorough'
    limit = c.get('tlimit', 780) if thorough else c.get('qlimit', 300)
    try:
        pre = set(c.get('variants', [])) or {'ompi4', 'mpich', 'ompi5'}
        if c.get('gens'): ctx.need(sorted(pre))
        ctx.other_builds(c.get('builds', []))
        # 1. closed models
        ms = [m for m in c.get('models', []) if m.get('tier', 'quick') == 'quick' or thorough]
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda m: model(ctx, m), [m for m in ms if m.get('tier', 'quick') == 'quick']))
        for m in ms:
            if m.get('tier', 'quick') != 'quick': model(ctx, m)
        # 2. special engines
        for f in c.get('special', []):
            f(ctx)
        # 3. regression programs
        for f in c.get('fixed', []):
            if not ctx.bad: ctx.run(f())
        # 4. systematic schedules
        for f, ql, tl in c.get('dfs', []):
            if ctx.bad: break
            for J in f(random.Random('%s-%d-dfs' % (pid, SEED)), tier):
                if ctx.bad: break
                n, full = dfs(ctx, J, tl if thorough else ql, deadline=limit)
                ctx.extra.setdefault('systematic', []).append(dict(program=J.id, schedules=n, exhausted=full))
        # 5. random programs
        rnd = 0; order = {}
        while not ctx.bad:
            jobs = []; wrng = random.Random('%s-%d-%d-wide' % (pid, SEED, rnd))
            for gi, (g, q) in enumerate(c.get('gens', [])):
                rng = random.Random('%s-%d-%d-%d' % (pid, SEED, rnd, gi))
                for i in range(q * (2 if thorough else 1)):
                    j = g(rng, i, tier)
                    if j is None: continue
                    j.id = '%s_%d_%d_%s' % (pid, rnd, gi, j.id)
                    jobs.append(widen(j, wrng, small=pid == 'P29'))
            for fam, k in c.get('enum', []):
                rng = random.Random('%s-%d-%d-%s' % (pid, SEED, rnd, fam))
                k = k * (3 if thorough else 1)
                if fam not in order:
                    all_ = user.all_programs(fam, tmp); order[fam] = [list(all_), 0, len(all_)]
                    random.Random('%s-%d-%s' % (pid, SEED, fam)).shuffle(order[fam][0])
                ps, done, total = order[fam]
                part = ps[done % total:done % total + k]; order[fam][1] += len(part)
                js = user.convert(fam, part, rng, rnd)
                for j in js: j.id = '%s_%s' % (pid, j.id); widen(j, wrng, 0.05)
                jobs += js
                ctx.extra.setdefault('enumerated', {})[fam] = dict(programs=total, run=min(total, order[fam][1]), specification='spec/user/%s.tla' % user.FAM[fam][0], constants=user.FAM[fam][1])
            if not jobs: break
            t = time.time()
            ctx.run(jobs)
            rnd += 1
            if not thorough or ctx.left(limit) < 1.2 * (time.time() - t): break
        vs = 0
        kn = known(pid)
        for r, k in ctx.bad:
            path = save(pid, r, k)
            ev = r.trace[k] if k < len(r.trace) else '(end)'
            if any(s in ev for s in kn):
                continue
            vs += 1
            print('rejected event of job %s (%s): %s' % (r.job.id, r.job.variant, ev[:400]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        for s in ctx.extra.get('violations', []):
            vs += 1
            print(s['text'][:2000]); print('VIOLATION property=%s replay=%s' % (pid, s['replay']))
        for s in kn: print('KNOWN-FINDING: property=%s %s' % (pid, s))
        ctx.extra.pop('violations', None)
        evidence(ctx, c, vs)
        print('%s %s: %d programs, %d events, %d states, %.1fs' % (pid, tier, ctx.jobs, STATS['events'], STATS['states'], time.time() - ctx.t0))
        for x in ctx.notes: print('note:', x)
        return 1 if vs else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def replay(path):
    d, J = load(path)
    tmp = tempfile.mkdtemp(prefix='vp_', dir='/tmp')
    try:
        b = build(tmp + '/b', J.variant)
        r = run_jobs({J.variant: b}, [J])[0]
        bad = validate([r], tmp, maxbad=1)
        if bad:
            print('\n'.join(r.trace[max(0, bad[0][1] - 15):bad[0][1] + 1]))
            print('VIOLATION property=%s replay=%s' % (d['property'], path))
            return 1
        print('accepted (%d events)' % len(r.trace))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    try:
        if sys.argv[1] == '--replay':
            sys.exit(replay(sys.argv[2]))
        sys.exit(go(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else TIER))
    except CheckError as e:
        print('ERROR:', e); sys.exit(2)
    except Exception:
        traceback.print_exc(); sys.exit(2)
