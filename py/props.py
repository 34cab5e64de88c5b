"""Per property: the programs it is exercised with."""
import random, itertools
from vt import Job
from gen import *

def rcfg(rng, weak=0.0):
    """schedule, network and heap behaviour of a run"""
    return dict(seed=rng.randint(1, 10**6), sched=rng.choice([0, 0, 1, 2, 2, 3, 4]), net=rng.choice([0, 1, 1, 2, 2, 2]),
                send=rng.randint(0, 2), reuse=rng.randint(0, 1), unified=1 if rng.random() < 0.9 else 0, order=1, acc=rng.choice([0, 0, 0, 1, 1, 4]), dunit=int(rng.random() < 0.35), adj=int(rng.random() < 0.35))

ENV = {  # harmless tuning variables and the values worth trying
    'ARMCI_STRIDED_METHOD': ['IOV', 'DIRECT'], 'ARMCI_IOV_METHOD': ['AUTO', 'CONSRV', 'BATCHED', 'DIRECT'],
    'ARMCI_IOV_CHECKS': ['0', '1'], 'ARMCI_IOV_BATCHED_LIMIT': ['0', '1', '2', '3'], 'ARMCI_IOV_DTYPE_CHUNK': ['0', '1', '2', '3', '7'],
    'ARMCI_SHR_BUF_METHOD': ['COPY', 'NOGUARD'], 'ARMCI_USE_WIN_ALLOCATE': ['0', '1'], 'ARMCI_MSG_BARRIER_SYNCS': ['0', '1'],
    'ARMCI_EXPLICIT_NB_PROGRESS': ['0', '1'], 'ARMCI_USE_ALLOC_SHM': ['0', '1'], 'ARMCI_DISABLE_SHM_ACC': ['0', '1'],
    'ARMCI_USE_SAME_OP': ['0', '1'], 'ARMCI_RMA_ATOMICITY': ['0', '1'], 'ARMCI_RMA_ORDERING': ['', 'none', 'rar,raw,war,waw', 'raw,waw', 'rar'],
    'ARMCI_NO_FLUSH_LOCAL': ['0', '1'], 'ARMCI_RMA_NOCHECK': ['0', '1'], 'ARMCI_USE_REQUEST_ATOMICS': ['0', '1'],
    'ARMCI_FLUSH_REQUEST_ATOMICS': ['0', '1'], 'ARMCI_CACHE_RANK_TRANSLATION': ['0', '1'], 'ARMCI_NONCOLLECTIVE_GROUPS': ['0', '1'],
    'ARMCI_DEBUG_ALLOC': ['0', '1'], 'ARMCI_VERBOSE': ['0', '1'], 'ARMCI_ACCUMULATE_GRANULARITY': ['8', '1048576'],
}
XFER = ['ARMCI_STRIDED_METHOD', 'ARMCI_IOV_METHOD', 'ARMCI_IOV_CHECKS', 'ARMCI_IOV_BATCHED_LIMIT', 'ARMCI_IOV_DTYPE_CHUNK']
COMPL = ['ARMCI_SHR_BUF_METHOD', 'ARMCI_USE_WIN_ALLOCATE', 'ARMCI_EXPLICIT_NB_PROGRESS', 'ARMCI_RMA_ATOMICITY', 'ARMCI_NO_FLUSH_LOCAL', 'ARMCI_RMA_NOCHECK']
ATOM = ['ARMCI_USE_REQUEST_ATOMICS', 'ARMCI_FLUSH_REQUEST_ATOMICS', 'ARMCI_RMA_ATOMICITY', 'ARMCI_NO_FLUSH_LOCAL', 'ARMCI_USE_WIN_ALLOCATE', 'ARMCI_USE_SAME_OP']
GRP = ['ARMCI_NONCOLLECTIVE_GROUPS', 'ARMCI_CACHE_RANK_TRANSLATION']

def renv(rng, names, p=0.5):
    return {k: rng.choice(ENV[k]) for k in names if rng.random() < p}
def variant(rng):
    return rng.choice(['ompi4', 'ompi4', 'mpich', 'ompi5'])

def lcmode(rng, env, o):
    """is location consistency promised?  With a transport that keeps the order of operations (order=1), or, on any transport, when every
    transfer is remotely complete on return or atomic"""
    if rng.random() < 0.3:
        o['order'] = 0
        return 0
    return 1

# ------------------------------------------------------------------ generic memory programs
def acctype(rng, ty):
    if ty in ('b', 'o'): return None
    if ty in ('f', 'd') and rng.random() < 0.35:
        return 'c' if ty == 'f' else 'z'
    return ACC[ty]

def transfer(rng, P, k, t, A, nb=0, h=-1, la=-1, lbase=0, lsize=None, ragged=False, cross=None, overlap=False, maxl=3, bufopts=True):
    """one transfer of kind k (put, get, acc + form suffix) to process t; None if it does not fit"""
    a = P.al[A]; ty = a['ty']; size = a['n'].get(t, 0); op, form = k[:3], k[3:]
    if not size: return None
    at = acctype(rng, ty) if op == 'acc' else None
    if op == 'acc' and not at: return None
    u = 2 if at in ('c', 'z') else 1
    bo = ''
    if bufopts and la < 0:     # how the private buffer is obtained and whether it is freed as soon as the operation is complete
        bo = rng.choice(['', '', ' free=1', ' lk=m', ' lk=m free=1'])
        if op == 'acc' and ty != 'i' and rng.random() < 0.35: bo += ' sx=1'
    try:
        if form in ('pf', 'psf'):
            fs = [(B, c) for B in P.al for c in P.al[B].get('flags', {}).get(t, [])]
            if not fs: return None
            B, c = fs[0]; P.al[B]['flags'][t].remove(c)
            ex = ' fa=%d fc=%d fv=%d' % (B, c, P.fresh())
            if form == 'psf': r = fit_strided(P, rng, op, t, A, nb=0, form='psf', extra=ex, ragged=ragged, la=la, lbase=lbase, lsize=lsize)
            else:
                n = rng.randint(1, min(size, 8))
                r = P.contig(op, t, A, rng.randint(0, size - n), n).replace('f=c', 'f=pf') + ex
            return r and r + bo
        if form == '':
            n = rng.randint(1, min(size, 8)) // u * u
            if la >= 0: n = min(n, lsize // u * u)
            if not n: return None
            if size > 40 and rng.random() < 0.3: n = u       # a single element, at either end of a large part
            ro = (size - n) // u * u if size > 40 and rng.random() < 0.3 else rng.randint(0, (size - n) // u) * u
            lo = lbase + rng.randint(0, (lsize - n) // u) * u if la >= 0 else None
            return P.contig(op, t, A, ro, n, at=at, sc=P.scale(at) if at else None, nb=nb, h=h, la=la, lo=lo) + bo
        if form == 's':
            r = fit_strided(P, rng, op, t, A, at=at, nb=nb, h=h, la=la, lsize=lsize, lbase=lbase, ragged=ragged, maxl=maxl)
            return r and r + bo
        if form == 'v':
            As = [A] if not cross else [B for B in cross if P.al[B]['ty'] == ty and P.al[B]['n'].get(t, 0)]
            r = fit_vector(P, rng, op, t, As, at=at, nb=nb, h=h, la=la, lsize=lsize, lbase=lbase, cross=bool(cross), overlap=overlap, mixed=la >= 0 and rng.random() < 0.4)
            return r and r + bo
        if form == 'u':
            if ty == 'b' or (op == 'get' and nb): return None
            return 'x op=%s f=u t=%d A=%d ro=%d cnt=1 lo=0 ext=1 ty=%s%s%s' % (op, t, A, rng.randint(0, size - 1), ty, ' v=%d' % P.fresh(1, ty) if op == 'put' else '', P.nbs(nb, h))
    except Exhausted:
        return None
    return None

class Rank:
    """what a rank has outstanding while its script is generated"""
    def __init__(s): s.open, s.n = {}, 0

def nb_before(rng, P, r, st, nb, h):
    if not nb: return
    st.n += 1
    if h >= 0:
        if h not in st.open:
            P.hin.setdefault(r, set())
            if rng.random() < 0.6 or h not in P.hin[r]:
                P.at(r, 'hinit h=%d' % h); P.hin[r].add(h)
                if rng.random() < 0.25: P.at(r, 'hagg h=%d' % h)
        st.open[h] = st.open.get(h, 0) + 1

def complete_some(rng, P, r, st):
    if not st.n: return
    q = rng.random()
    if q < 0.6 and st.open:
        h = rng.choice(list(st.open))
        P.at(r, 'wait h=%d' % h if q < 0.35 else 'test h=%d max=300' % h)
        st.n -= st.open.pop(h)
    elif q < 0.8:
        P.at(r, 'waitproc t=%d' % rng.randint(0, P.n - 1))
    else:
        P.at(r, 'waitall'); st.n = 0; st.open = {}

def complete_rest(rng, P, r, st):
    if not st.n: return
    hs = list(st.open); rng.shuffle(hs)
    if rng.random() < 0.6:
        for h in hs: P.at(r, rng.choice(['wait h=%d', 'test h=%d max=300', 'wait h=%d']) % h)
        st.open = {}
    if rng.random() < 0.3:
        for t in range(P.n): P.at(r, 'waitproc t=%d' % t)
    else:
        P.at(r, 'waitall')
    st.n = 0

def memprog(rng, P, ops, phases=2, per=4, nb=0.45, sync='A', noself=False, **kw):
    """ops: weights of operation kinds"""
    kinds = [k for k, w in ops.items() for _ in range(w)]
    for ph in range(phases):
        for r in range(P.n):
            st = Rank(); As = [A for A in P.al if r in P.al[A]['mem'] or P.al[A]['g'] < 0]
            for _ in range(rng.randint(0, per)):
                if not As: break
                k = rng.choice(kinds); A = rng.choice(As); ts = [t for t in P.targets(A) if not noself or t != r]
                if k == 'ld':
                    z = P.al[A]['n'].get(r, 0)
                    if z: P.at(r, 'ld A=%d c=0 n=%d' % (A, z))
                elif k == 'fence':
                    P.at(r, 'fence' + (' t=%d' % rng.randint(0, P.n - 1) if rng.random() < 0.6 else ''))
                elif k == 'wait': complete_some(rng, P, r, st)
                elif k == 'yield': P.at(r, 'yield n=%d' % rng.randint(1, 5))
                elif not ts: continue
                elif k == 'rmw':
                    if P.al[A]['ty'] in ('i', 'o'): P.at(r, rmwcmd(rng, P, rng.choice(ts), A))
                else:
                    isnb = 1 if rng.random() < nb and not (k == 'getu') else 0
                    h = rng.randint(0, 2) if isnb and rng.random() < 0.75 else -1
                    c = transfer(rng, P, k, rng.choice(ts), A, nb=isnb, h=h, **kw)
                    if c:
                        nb_before(rng, P, r, st, isnb, h)
                        P.at(r, c)
            complete_rest(rng, P, r, st)
        if sync: P.bar(sync)

def rmwcmd(rng, P, t, A, cells=None):
    z = P.al[A]['n'][t]; c = rng.choice(cells) if cells else rng.randint(0, z - 1)
    if rng.random() < 0.4:
        if rng.random() < 0.15: return 'rmw op=swap A=%d t=%d c=%d v=%d' % (A, t, c, rng.choice([0, 0, 1]))
        small = 10**9 if P.al[A]['ty'] == 'o' and rng.random() < 0.3 else 0      # a long that an int could hold
        try: return 'rmw op=swap A=%d t=%d c=%d v=%d' % (A, t, c, small + P.fresh())
        except Exhausted: pass
    return 'rmw op=fadd A=%d t=%d c=%d v=%d' % (A, t, c, rng.choice([1, 1, 2, 3, -1, 7, 0, rng.randint(-1000000, 1000000)]))

def base(rng, n=None, envs=(), p=0.5, nalloc=2, types='iildfb', size=12, var=None):
    n = n or rng.choice([2, 3, 3, 4])
    P = Prog(rng, n); P.init(dflt=True)
    for A in range(nalloc):
        P.malloc(A, rng.choice(types), [rng.choice([0, 1, 5, size, size]) if rng.random() < 0.3 else rng.randint(4, size) for _ in range(n)])
    P.bar()
    return P

def job(id, P, rng, env=None, lc=1, var=None, **over):
    o = rcfg(rng); 
    if lc == 'auto': lc = lcmode(rng, env or {}, o)
    o.update(over)
    if o['seed'] % 5 < 2 and not any(' gop ' in l or ' sel ' in l for l in P.lines): o['lunit'] = 1
    return Job(id, P.n, P.lines, env=spell(env, o['seed']), lc=lc, variant=var or variant(rng), **o)

BOOL = {k for k, v in ENV.items() if v == ['0', '1']} - {'ARMCI_VERBOSE'}
def spell(env, seed):
    """the other ways of writing a boolean: enabled by a value that begins with t, T, y, Y or 1, and by no other"""
    r = random.Random(seed * 7919 + 5); env = dict(env or {})
    for k in sorted(env):
        if k in BOOL and env[k] in ('0', '1') and r.random() < 0.15:
            env[k] = r.choice(['T', 't', 'true', 'TRUE', 'y', 'Y', 'yes', '10', '1 '] if env[k] == '1' else ['F', 'f', 'false', 'n', 'N', 'no', '', '01', '-1', 'off', ' 1'])
    return env

def gen_mem(ops, envs, nalloc=2, phases=2, per=4, types='iildfb', size=12, nb=0.45, p=0.4, kw={}, **over):
    def g(rng, i, tier):
        P = base(rng, nalloc=nalloc, types=types, size=size)
        memprog(rng, P, ops, phases=phases, per=per, nb=nb, **kw)
        P.finish()
        return job('m%d' % i, P, rng, env=renv(rng, envs, p), lc='auto', **over)
    return g

# ------------------------------------------------------------------ origin buffers in global memory (P26)
def gen_globuf(rng, i, tier):
    """origins and destinations are parts of the caller's own slices: of a separate allocation, or of the upper half of the same one"""
    n = rng.choice([2, 2, 3])
    P = Prog(rng, n); P.init(dflt=True)
    ty = rng.choice('iildfb')
    P.malloc(0, ty, [24] * n)              # cells 0..11: targets; 12..23: buffers
    P.malloc(1, ty, [24] * n)              # buffers only
    P.malloc(2, 'i', [24] * n)             # messages
    P.malloc(3, rng.choice('io'), [12] * n)     # results of rmw
    P.bar()
    plain = rng.random() < 0.3               # no single-element operations: may run with wide cells
    targets = {0: dict(P.al[0], n={r: 12 for r in range(n)})}
    full = dict(P.al)
    kinds = ['put', 'get', 'acc', 'puts', 'gets', 'accs', 'putv', 'getv', 'accv', 'pf'] if ty != 'b' else ['put', 'get', 'puts', 'gets', 'putv', 'getv']
    if plain: kinds = [k for k in kinds if k != 'pf']
    for ph in range(2):
        for r in range(n):
            st = Rank(); pos = {0: 12, 1: 0}
            filled = {}
            for b in (0, 1):               # fill the buffers
                lo, hi = (12, 24) if b == 0 else (0, 24)
                try: v = P.fresh(hi - lo, ty)
                except Exhausted: continue
                P.at(r, 'st A=%d c=%d n=%d v=%d' % (b, lo, hi - lo, v)); filled[b] = 1
            if len(filled) < 2 : continue
            for _ in range(rng.randint(1, 5)):
                k = rng.choice(kinds)
                la = rng.choice([0, 1]); room = 24 - pos[la]
                if room < 3: continue
                if k[:3] == 'acc' : # values in the buffer must be small
                    z = rng.randint(2, min(6, room)) // 2 * 2; P.at(r, 'st A=%d c=%d n=%d v=%d' % (la, pos[la], z, rng.randint(1, 9) * 4))
                    lsize = z
                else: lsize = min(room, rng.choice([4, 8, 12]))
                isnb = 1 if rng.random() < 0.4 and k != 'pf' else 0
                h = rng.randint(0, 2) if isnb and rng.random() < 0.7 else -1
                P.al = targets
                c = None
                if k == 'pf':
                    nn = rng.randint(1, min(4, lsize))
                    try: c = 'x op=put f=pf t=%d A=0 ro=%d cnt=%d lo=%d ty=%s la=%d fa=2 fc=%d fv=%d' % (rng.randint(0, n - 1), rng.randint(0, 12 - nn), nn, pos[la], ty, la, 12 + r * 4 + ph, P.fresh())
                    except Exhausted: pass
                elif k[:3] == 'acc':       # exact values for the scale: no divisors
                    c = transfer(rng, P, k, rng.randint(0, n - 1), 0, nb=isnb, h=h, la=la, lbase=pos[la], lsize=lsize)
                    if c and ' sc=' in c:
                        w = c.split(' sc=')[1].split()[0].split(',')
                        if int(w[1]) not in (1, 2, 4) or int(w[3]) not in (1, 2, 4): c = None
                        elif any(int(x) > 1 for x in (w[1], w[3])): c = c.replace(' sc=' + ','.join(w), ' sc=%s,1,%s,1' % (w[0], w[2]))
                else:
                    c = transfer(rng, P, k, rng.randint(0, n - 1), 0, nb=isnb, h=h, la=la, lbase=pos[la], lsize=lsize)
                P.al = full
                if c:
                    pos[la] += lsize
                    nb_before(rng, P, r, st, isnb, h); P.at(r, c)
                if rng.random() < 0.15: complete_some(rng, P, r, st)
                if rng.random() < 0.3 and not plain: P.at(r, 'rmw op=%s A=3 t=%d c=%d v=%d la=3 lc=%d' % (rng.choice(['fadd', 'fadd', 'swap']), rng.randint(0, n - 1), rng.randint(0, 3), rng.choice([1, 1, 0, -1, 5000]), rng.randint(4, 11)))
            complete_rest(rng, P, r, st)
        P.bar()
        if rng.random() < 0.5:             # messages from and into global memory
            z = rng.randint(1, 4); a, b = rng.sample(range(n), 2); v = P.fresh(z)
            P.at(a, 'st A=2 c=16 n=%d v=%d' % (z, v))
            P.at(a, 'snd t=%d tag=4 n=%d la=2 lc=16' % (b, z)); P.at(b, 'rcv%s t=%d tag=4 n=%d la=2 lc=%d' % (rng.choice(['', 'any']), a, z + rng.choice([0, 0, 1, 2]), 18))
            P.bar()
        if rng.random() < 0.5:
            root = rng.randint(0, n - 1); v = P.fresh(3)
            P.at(root, 'st A=2 c=16 n=3 v=%d' % v); P.all('bcast api=b n=3 root=%d la=2 lc=16' % root)
            P.bar()
        if rng.random() < 0.5:
            P.all('st A=2 c=20 n=2 v=%d' % rng.randint(1, 50)); P.bar()
    P.finish()
    env = renv(rng, ['ARMCI_SHR_BUF_METHOD'], 0.8); env.update(renv(rng, XFER + ['ARMCI_USE_WIN_ALLOCATE', 'ARMCI_RMA_ATOMICITY'], 0.3))
    return job('gb%d' % i, P, rng, env=env, lc=0)

# ------------------------------------------------------------------ accumulate (P05) and read-modify-write (P06)
def procs(rng, usual, many=(7, 8, 9, 10, 12, 16, 17)):
    """the number of processes of a program: usually few, sometimes more than any power of two that is usual"""
    return rng.choice(many) if rng.random() < 0.06 else rng.choice(usual)

def gen_acc(rng, i, tier):
    """many processes accumulate into the same few cells"""
    n = rng.choice([2, 3, 4]); P = Prog(rng, n); P.init(dflt=True)
    ty = rng.choice('ildf'); size = rng.choice([4, 6, 8])
    for A in range(rng.choice([1, 2])): P.malloc(A, ty, [size] * n)
    P.bar()
    memprog(rng, P, rng.choice([dict(acc=1, accs=1, accv=1), dict(acc=3, wait=1), dict(accs=1), dict(accv=1), dict(acc=3, accs=2, accv=2, rmw=1, wait=1)]), phases=2, per=5, nb=0.4, overlap=False)
    P.finish()
    env = renv(rng, XFER + COMPL + ['ARMCI_RMA_ORDERING', 'ARMCI_ACCUMULATE_GRANULARITY', 'ARMCI_USE_SAME_OP', 'ARMCI_DISABLE_SHM_ACC'], 0.35)
    return job('ac%d' % i, P, rng, env=env, lc='auto')

def gen_rmw(rng, i, tier):
    n = procs(rng, [2, 3, 3, 4, 5]); P = Prog(rng, n); P.init(dflt=True)
    for A, ty in enumerate(rng.choice(['i', 'o', 'io', 'oi'])): P.malloc(A, ty, [rng.randint(1, 3) for _ in range(n)])
    P.bar()
    hot = rng.random() < 0.6; t0 = rng.randint(0, n - 1)
    for ph in range(2):
        for r in range(n):
            for _ in range(rng.randint(1, 6)):
                A = rng.choice([a for a in P.al if a != 5]); t = t0 if hot else rng.randint(0, n - 1)
                k = rng.random()
                if k < 0.8: P.at(r, rmwcmd(rng, P, t, A, [0] if hot else None))
                elif k < 0.9:
                    c = transfer(rng, P, 'acc', t, A)
                    if c: P.at(r, c)
                elif k < 0.95: P.at(r, 'x op=get f=u t=%d A=%d ro=0 cnt=1 lo=0 ext=1 ty=%s' % (t, A, P.al[A]['ty']))
                else: P.at(r, 'fence t=%d' % t)
        P.bar()
    P.finish()
    return job('rm%d' % i, P, rng, env=renv(rng, ATOM + ['ARMCI_RMA_ORDERING'], 0.45), lc='auto')

# ------------------------------------------------------------------ location consistency (P07)
def gen_lc(rng, i, tier):
    """sequences of operations of one process on the same few cells"""
    n = rng.choice([2, 2, 3]); P = Prog(rng, n); P.init(dflt=True)
    ty = rng.choice('iildf'); size = rng.choice([1, 2, 4]); na = rng.choice([1, 1, 2])
    for A in range(na): P.malloc(A, ty, [size] * n)
    P.bar()
    noflush = rng.random() < 0.15; atom = rng.random() < 0.3; weak = (noflush or atom) and rng.random() < 0.7
    nbp = 0.0 if (noflush and weak and not atom) else 0.4
    ops = rng.choice([dict(put=3, get=3, acc=1), dict(put=2, puts=2, get=2, gets=1, acc=1, accs=1), dict(put=2, putv=2, getv=1, get=1, accv=1), dict(putu=2, getu=2, put=1, get=1, rmw=2), dict(put=2, get=2, acc=2, rmw=1, puts=1, gets=1)])
    if nbp: ops = dict(ops, wait=3)
    if rng.random() < 0.3: ops = dict(ops, fence=1)
    far = rng.random() < 0.6            # all operations go to other processes
    if far and weak: ops = dict(put=1, get=1, puts=3, gets=2, putv=2, getv=1, **({'wait': 2} if nbp else {}))
    memprog(rng, P, ops, phases=rng.choice([1, 2]), per=9 if far else 7, nb=nbp / 2 if far else nbp, noself=far)
    P.finish()
    env = renv(rng, XFER + ATOM + COMPL, 0.2)
    env.update({'ARMCI_NO_FLUSH_LOCAL': str(int(noflush)), 'ARMCI_RMA_ATOMICITY': str(int(atom))})
    net = {} if not far else dict(net=rng.choice([1, 2]))
    if weak:
        env.pop('ARMCI_SHR_BUF_METHOD', None)
        if atom and rng.random() < 0.7: env.update({'ARMCI_STRIDED_METHOD': 'DIRECT', 'ARMCI_IOV_METHOD': rng.choice(['BATCHED', 'DIRECT', 'DIRECT'])})
    return job('lc%d' % i, P, rng, env=env, lc=1, order=0 if weak else 1, **net)

# ------------------------------------------------------------------ strided (P08) and vector (P09)
def gen_strided(rng, i, tier):
    n = 2; P = Prog(rng, n); P.init(dflt=True)
    ty = rng.choice('iildfb'); P.malloc(0, ty, [rng.choice([30, 60, 100])] * n); P.malloc(1, ty, [40, rng.choice([0, 40])]); P.bar()
    maxl = rng.choice([2, 3, 3, 4, 6])
    memprog(rng, P, rng.choice([dict(puts=2, gets=2, accs=1), dict(puts=1), dict(gets=2, puts=1), dict(accs=2, gets=1)]), phases=2, per=3, nb=0.35, ragged=rng.random() < 0.3, maxl=maxl)
    P.finish()
    env = renv(rng, XFER, 0.6); env.update(renv(rng, COMPL, 0.15))
    return job('st%d' % i, P, rng, env=env, lc=0)

def gen_vector(rng, i, tier):
    n = rng.choice([2, 3]); P = Prog(rng, n); P.init(dflt=True)
    ty = rng.choice('iildfb'); na = rng.choice([1, 2, 3])
    for A in range(na): P.malloc(A, ty, [rng.choice([12, 20, 30])] * n)
    P.bar()
    checks = rng.random() < 0.5
    cross = list(range(na)) if checks and na > 1 else None
    memprog(rng, P, rng.choice([dict(putv=2, getv=2, accv=1), dict(putv=1), dict(getv=2, putv=1), dict(accv=2, getv=1)]), phases=2, per=3, nb=0.35, cross=cross, overlap=checks)
    P.finish()
    env = renv(rng, XFER, 0.6); env.update(renv(rng, COMPL, 0.15)); env['ARMCI_IOV_CHECKS'] = str(int(checks))
    return job('ve%d' % i, P, rng, env=env, lc=0)

# ------------------------------------------------------------------ mutexes (P10, P11, P23)
def crit(P, rng, r, m, t, H=-1, cell=None, body=None, trial=False):
    """one critical section"""
    hh = ' H=%d w=%d' % (H, t) if H >= 0 else ''
    if trial and H >= 0:
        P.at(r, 'trylock m=%d t=%d%s auto=%d' % (m, t, hh, rng.randint(1, 4))); return
    P.at(r, 'lock m=%d t=%d%s' % (m, t, hh))
    if body == 'rw' and cell:   # unprotected read-modify-write inside the critical section: exposes broken exclusion in the memory model too
        P.at(r, 'yield n=%d' % rng.randint(1, 3))
    elif rng.random() < 0.7: P.at(r, 'yield n=%d' % rng.randint(1, 6))
    P.at(r, 'unlock m=%d t=%d%s' % (m, t, hh))

def gen_mutex(rng, i, tier):
    """the default mutexes: contention, unequal counts, nesting in a fixed order"""
    n = procs(rng, [2, 3, 3, 4, 5, 6], (7, 8, 9, 10, 12, 16, 17, 33, 34, 40)); P = Prog(rng, n); P.init(dflt=True)
    cnt = [rng.choice([0, 1, 1, 2, 3]) for _ in range(n)] if rng.random() < 0.5 else [rng.choice([1, 2])] * n
    if not sum(cnt): cnt[0] = 1
    if rng.random() < 0.15: cnt = [0] * n; cnt[rng.randint(0, n - 1)] = 2
    if rng.random() < 0.05: cnt[rng.randint(0, n - 1)] = rng.choice([5, 8, 9, 17])
    rounds = rng.choice([1, 1, 2])
    for _ in range(rounds):
        for r in range(n): P.at(r, 'mcreate n=%d' % cnt[r])
        ms = [(m, t) for t in range(n) for m in range(cnt[t])]
        hot = ms if rng.random() < 0.3 else [rng.choice(ms)]
        if rng.random() < 0.3: P.bar()
        for r in range(n):
            for _ in range(rng.randint(1, 4)):
                m, t = rng.choice(hot) if rng.random() < 0.85 else rng.choice(ms)
                if rng.random() < 0.15 and len(ms) > 1:
                    (m1, t1), (m2, t2) = sorted(rng.sample(ms, 2))
                    P.at(r, 'lock m=%d t=%d' % (m1, t1)); P.at(r, 'lock m=%d t=%d' % (m2, t2)); P.at(r, 'yield n=2')
                    a = [(m1, t1), (m2, t2)]; rng.shuffle(a)
                    for x in a: P.at(r, 'unlock m=%d t=%d' % x)
                else: crit(P, rng, r, m, t)
                if rng.random() < 0.2: P.at(r, 'yield n=%d' % rng.randint(1, 8))
        P.bar('M' if rng.random() < 0.5 else 'A')
        P.all('mdestroy')
        cnt = [rng.choice([1, 2]) for _ in range(n)]
    P.all('finalize'); P.all('mpifin')
    return job('mx%d' % i, P, rng, env=renv(rng, ['ARMCI_NO_FLUSH_LOCAL', 'ARMCI_USE_WIN_ALLOCATE', 'ARMCI_RMA_NOCHECK'], 0.2), blk=1, lc=0)

def gen_handles(rng, i, tier):
    """mutex handles on groups, together with the default mutexes"""
    n = procs(rng, [2, 3, 4, 4, 5], (7, 8, 9, 10, 12, 16, 17, 33, 34)); P = Prog(rng, n); P.init()
    noncol = rng.random() < 0.4
    groups = {0: list(range(n))}
    for g in range(1, rng.choice([2, 3])):
        mem = rng.sample(range(n), rng.randint(1, n))
        if noncol: mem.sort()
        for r in (range(n) if not noncol else mem): P.at(r, 'gcreate G=%d mem=%s' % (g, cs(mem)))
        groups[g] = mem
    dflt = rng.random() < 0.5
    if dflt: P.all('mcreate n=1')
    hs = {}
    for H in range(rng.choice([1, 2, 3])):
        g = rng.choice(list(groups)); cnt = [rng.choice([0, 1, 1, 2, 3, 3, 9] if rng.random() < 0.1 else [0, 1, 1, 2, 3]) for _ in groups[g]]
        if not sum(cnt): cnt[rng.randint(0, len(cnt) - 1)] = 1
        for r, c in zip(groups[g], cnt): P.at(r, 'hmcreate H=%d g=%d n=%d' % (H, g, c))
        hs[H] = (g, cnt)
    for ph in range(rng.choice([1, 2])):
        for r in range(n):
            for _ in range(rng.randint(1, 4)):
                H = rng.choice(list(hs) + ([-1] if dflt else []))
                if H < 0: crit(P, rng, r, 0, rng.randint(0, n - 1)); continue
                g, cnt = hs[H]
                if r not in groups[g]: continue
                ok = [(m, k) for k in range(len(cnt)) for m in range(cnt[k])]
                if not ok: continue
                m, k = rng.choice(ok) if rng.random() < 0.4 else ok[-1]
                crit(P, rng, r, m, groups[g][k], H, trial=rng.random() < 0.25)
        if ph == 0 and rng.random() < 0.5 and hs:   # destroy one handle and create another in its place
            P.bar()
            H = rng.choice(list(hs)); g, cnt = hs.pop(H)
            for r in groups[g]: P.at(r, 'hmdestroy H=%d' % H)
            H2 = 4 + H; g = rng.choice(list(groups)); cnt = [rng.choice([1, 2]) for _ in groups[g]]
            for r, c in zip(groups[g], cnt): P.at(r, 'hmcreate H=%d g=%d n=%d' % (H2, g, c))
            hs[H2] = (g, cnt)
    P.bar()
    ks = list(hs); rng.shuffle(ks)
    for H in ks:
        for r in groups[hs[H][0]]: P.at(r, 'hmdestroy H=%d' % H)
    if dflt: P.all('mdestroy')
    P.all('finalize'); P.all('mpifin')
    env = renv(rng, ['ARMCI_CACHE_RANK_TRANSLATION', 'ARMCI_USE_WIN_ALLOCATE'], 0.3); env['ARMCI_NONCOLLECTIVE_GROUPS'] = str(int(noncol))
    return job('mh%d' % i, P, rng, env=env, blk=1, lc=0)
