"""Generators of programs (scripts for the driver).  Everything is derived from the given random.Random."""
from vt import Job
CS = dict(b=1, i=4, l=8, o=8, f=4, d=8)
ACC = {'i': 'i', 'l': 'l', 'f': 'f', 'd': 'd'}

class Exhausted(Exception):
    """no unused values are left for this program"""

def cs(l):
    return ','.join(map(str, l))

class Prog:
    """A program under construction."""
    limit = 500          # values used at most
    def __init__(s, rng, n):
        s.rng, s.n, s.lines, s.val, s.bval, s.al = rng, n, [], 0, 0, {}
        s.all('mpiinit lv=3'); s.hin = {}; s.dflt = False
    def all(s, c):
        s.lines.append('* ' + c)
    def at(s, r, c, th=0):
        s.lines.append('%d%s %s' % (r, '.%d' % th if th else '', c))
    def init(s, k=None, dflt=False):
        if k is None:      # any of the ways to start
            k = s.rng.choice(['plain'] * 6 + ['args', 'mpi', 'thread th=%d' % s.rng.randint(0, 3), 'threadcomm th=3', 'thread th=3'])
        s.all('init k=' + k); s.dflt = False
        if dflt and s.n > 1 and s.rng.random() < 0.1:      # another default group: only ARMCI_Group_create depends on it
            mem = sorted(s.rng.sample(range(s.n), s.rng.randint(1, s.n))); s.dflt = True
            s.all('gcreate G=29 mem=' + ','.join(map(str, mem)))
            for r in mem: s.at(r, 'gdef G=29')
    def fresh(s, k=1, ty='i'):
        """k values never stored before: multiples of 8192 (accumulated contributions stay below); for bytes small numbers"""
        if ty == 'b':
            if s.bval + k > 248:
                raise Exhausted()
            v = s.bval + 1
            s.bval += k
            return v
        v = (s.val + 1) * 8192
        s.val += k
        if s.val > s.limit:
            raise Exhausted()
        return v
    def malloc(s, A, ty, sizes, mem=None, g=-1, api='', slack=0):
        """sizes: per member"""
        mem = list(range(s.n)) if mem is None else mem
        s.al[A] = dict(ty=ty, mem=mem, n=dict(zip(mem, sizes)), g=g)
        for r, z in zip(mem, sizes):
            s.at(r, 'malloc A=%d mem=%s n=%d ty=%s%s%s%s' % (A, cs(mem), z, ty, ' g=%d' % g if g >= 0 else '', ' api=' + api if api else '', ' slack=%d' % slack if slack else ''))
    def free(s, A, api=''):
        a = s.al.pop(A)
        for r in a['mem']:
            s.at(r, 'free A=%d%s%s' % (A, ' g=%d' % a['g'] if a['g'] >= 0 else '', ' api=' + api if api else ''))
    def bar(s, k='A'):
        s.all('bar k=' + k)
    def finish(s, free=True, fin=True):
        s.bar()
        for A in list(s.al):
            if s.al[A]['ty']:
                for r in s.al[A]['mem']:
                    z = s.al[A]['n'][r]
                    if z:
                        s.at(r, 'ld A=%d c=0 n=%d' % (A, z))
        s.bar()
        if free:
            ks = list(s.al); s.rng.shuffle(ks)
            for A in ks:
                s.free(A)
        if fin:
            s.all('finalize'); s.all('mpifin')
    def targets(s, A):
        return [r for r in s.al[A]['mem'] if s.al[A]['n'][r] > 0]

    # ---------------- transfers: each returns the command text (without the rank)
    def loc(s, need, ty, la=None, lo=0):
        return ''
    def contig(s, op, t, A, ro, n, ty=None, at=None, sc=None, nb=0, h=-1, lo=None, ext=None, v=None, la=-1, extra=''):
        a = s.al[A]; ty = ty or a['ty']
        if la >= 0:
            lo = lo or 0
            loc = ' la=%d' % la
        else:
            lo = s.rng.randint(0, 2) if lo is None else lo
            if at in ('c', 'z'): lo -= lo % 2
            ext = lo + n + s.rng.randint(0, 2) if ext is None else ext
            loc = ' ext=%d' % ext
        k = 1
        if op != 'get' and la < 0:
            vv, k = s.values(ext, op, ty, sc, at)
            loc += ' v=%d vs=%d' % (vv, k)
        return 'x op=%s f=c t=%d A=%d ro=%d cnt=%d lo=%d ty=%s%s%s%s%s' % (op, t, A, ro, n, lo, ty, loc, s.accs(op, at or ty, sc), s.nbs(nb, h), extra)
    def values(s, ext, op, ty, sc, at):
        """origin values: unique, and divisible by the denominators of the scale"""
        m = 1
        if sc:
            m = sc[1] * sc[3]
        if op == 'acc' and m >= 1 << 20: return m, 0
        if op == 'acc':
            base = s.rng.randint(1, 99) * m
            return base, m * s.rng.choice([1, 2, 3, 5, 7])
        return s.fresh(ext, ty), 1 if ty == 'b' else 8192
    def accs(s, op, at, sc):
        if op != 'acc':
            return ''
        r = ' at=%s' % at
        if sc:
            r += ' sc=' + cs(sc)
        return r
    def nbs(s, nb, h):
        r = ' nb=1' if nb else ''
        if nb and h >= 0:
            r += ' h=%d' % h
        return r
    def scale(s, at):
        r = s.rng
        if r.random() < 0.25:
            return None
        if at in ('i', 'l'):
            return [r.choice([1, 2, 3, -1, -2, 5]), 1, 0, 1]
        if at in ('f', 'd'):
            return [r.choice([1, 2, 3, -1, -3, 1, 3]), r.choice([1, 1, 2, 4]), 0, 1]
        return [r.choice([1, 2, -1, 3, 0]), r.choice([1, 1, 2]), r.choice([0, 1, -1, 2, 3]), r.choice([1, 1, 2])]
    def strided(s, op, t, A, ro, cnt, rs, lo, ls, ext, ty=None, at=None, sc=None, nb=0, h=-1, la=-1, form='s', extra=''):
        a = s.al[A]; ty = ty or a['ty']
        loc = ' la=%d' % la if la >= 0 else ' ext=%d' % ext
        if op != 'get' and la < 0:
            vv, k = s.values(ext, op, ty, sc, at)
            loc += ' v=%d vs=%d' % (vv, k)
        return 'x op=%s f=%s t=%d A=%d ro=%d cnt=%s rs=%s ls=%s lo=%d ty=%s%s%s%s%s' % (op, form, t, A, ro, cs(cnt), cs(rs), cs(ls), lo, ty, loc, s.accs(op, at or ty, sc), s.nbs(nb, h), extra)
    def vector(s, op, t, A, segs, ext, ty=None, at=None, sc=None, nb=0, h=-1, la=-1, priv=0):
        """segs: list of (len, [(a,r,l)...])"""
        a = s.al[A]; ty = ty or a['ty']
        if la >= 0: ext = priv             # the private part of a mixed local side
        loc = (' la=%d' % la if la >= 0 else '') + (' ext=%d' % ext if ext else '')
        if op != 'get' and ext:
            vv, k = s.values(ext, op, ty, sc, at)
            loc += ' v=%d vs=%d' % (vv, k)
        iov = ';'.join('%d@%s' % (ln, ','.join('%d.%d.%d' % z for z in l)) for ln, l in segs)
        return 'x op=%s f=v t=%d A=%d iov=%s ty=%s%s%s%s' % (op, t, A, iov, ty, loc, s.accs(op, at or ty, sc), s.nbs(nb, h))

def span(cnt, st):
    """cells from the first to after the last element of a strided block"""
    return cnt[0] + sum((c - 1) * x for c, x in zip(cnt[1:], st)) if min(cnt) > 0 else 0

def strides(rng, cnt, tight=0.4, ragged=False, unit=1):
    """strides (in cells) for the counts: blocks do not overlap; unless ragged each stride is a multiple of the next inner one"""
    st, ext = [], cnt[0]
    for i in range(1, len(cnt)):
        x = ext if (i == 1 or ragged) else st[-1] * cnt[i - 1]
        if ragged and st: x = max(x, st[-1])      # strides do not decrease
        if rng.random() >= tight:
            x += rng.randint(0, 3)
        x += (-x) % (unit if i == 1 or ragged else st[-1])
        st.append(x)
        ext = (cnt[i] - 1) * x + ext
    return st

def counts(rng, levels, budget, even=False):
    while True:
        c = [rng.choice([1, 1, 2, 3, 4])] + [rng.choice([1, 2, 2, 3]) for _ in range(levels)]
        if even:
            c[0] = 2 * ((c[0] + 1) // 2)
        p = 1
        for x in c:
            p *= x
        if p <= budget:
            return c

def fit_strided(P, rng, op, t, A, la=-1, at=None, maxl=3, ragged=False, form='s', nb=0, h=-1, budget=24, extra='', lsize=None, lbase=0, cntf=counts):
    """a random strided transfer within slice t of A"""
    a = P.al[A]; size = a['n'][t]; even = at in ('c', 'z')
    for _ in range(200):
        L = rng.choice([0, 1, 1, 2, 2, 3][:2 + maxl + 1]) if maxl < 4 else rng.randint(0, maxl)
        L = min(L, maxl)
        cnt = cntf(rng, L, budget, even)
        u = 2 if even else 1
        rs = strides(rng, cnt, ragged=ragged, unit=u); ls = strides(rng, cnt, ragged=ragged, unit=u) if rng.random() < 0.7 else list(rs)
        need, lneed = span(cnt, rs), span(cnt, ls)
        if need > size:
            continue
        ro = rng.randint(0, (size - need) // u) * u
        if la >= 0:
            if lneed > lsize: continue
            lo = lbase + rng.randint(0, (lsize - lneed) // u) * u; ext = 0
        else:
            lo = rng.randint(0, 1) * u; ext = lo + lneed + rng.randint(0, 1)
            if ext > max(150, 2 * budget): continue
        sc = P.scale(at) if op == 'acc' else None
        return P.strided(op, t, A, ro, cnt, rs, lo, ls, ext, at=at, sc=sc, nb=nb, h=h, la=la, form=form, extra=extra)
    return None

def fit_vector(P, rng, op, t, As, la=-1, at=None, nb=0, h=-1, nsmax=6, cross=False, overlap=False, lsize=None, lbase=0, mixed=False):
    """a random vector transfer; segments disjoint at the target and in the local buffer. cross: several allocations; overlap: accumulate segments may overlap"""
    u = 2 if at in ('c', 'z') else 1
    A0 = rng.choice(As)
    lastov = overlap and op == 'acc' and rng.random() < 0.4     # only the last segment overlaps, within one allocation
    if lastov: cross = overlap = False
    ppos = 0                               # mixed: some of the local segments lie in a private buffer
    used = {}; segs = []; lpos = lbase + rng.randint(0, 1) * u
    ltot = lbase + lsize if la >= 0 else 120
    for _ in range(rng.choice([1, 1, 2, 3])):
        ln = rng.choice([1, 1, 2, 3, 4]) * u
        l = []
        for _ in range(rng.randint(1, nsmax)):
            A = rng.choice(As) if cross else A0
            size = P.al[A]['n'].get(t, 0)
            if size < ln: continue
            for _ in range(8):
                r = rng.randint(0, (size - ln) // u) * u
                cells = set((A, c) for c in range(r, r + ln))
                if (overlap and op == 'acc') or not (cells & set(used)):
                    if mixed and rng.random() < 0.5 and ppos < 100:
                        for c in cells: used[c] = 1
                        l.append((A, r, 100000 + ppos)); ppos += ln + rng.choice([0, 0, 1]) * u
                        break
                    if lpos + ln > ltot: break
                    for c in cells: used[c] = 1
                    l.append((A, r, lpos)); lpos += ln + rng.choice([0, 0, 1]) * u
                    break
        if l and lastov and lpos + ln <= ltot:
            A, r, _ = rng.choice(l); size = P.al[A]['n'][t]
            r2 = [x for x in range(r - ln + u, r + ln, u) if 0 <= x <= size - ln]
            l.append((A, rng.choice(r2), lpos)); lpos += ln
        if l: segs.append((ln, l))
    if not segs: return None
    if rng.random() < 0.3 and op != 'x':   # the order of the local segments is free
        for ln, l in segs:
            ls = [z[2] for z in l]; rng.shuffle(ls)
            for i, z in enumerate(l): l[i] = (z[0], z[1], ls[i])
    sc = P.scale(at) if op == 'acc' else None
    return P.vector(op, t, A0, segs, lpos + 1, at=at, sc=sc, nb=nb, h=h, la=la, priv=ppos)
