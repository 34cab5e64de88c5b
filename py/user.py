"""Programs enumerated by TLC from the user-side specifications in spec/user, turned into driver scripts."""
import random, json, os, tempfile, shutil
import vt
from props import *
import props2 as q

def programs(module, consts, tmp, timeout=240):
    """all values TLC prints for the module with these constants"""
    d = tempfile.mkdtemp(dir=tmp)
    cfg = d + '/p.cfg'
    open(cfg, 'w').write('SPECIFICATION Spec\nCONSTANTS %s\nINVARIANT Emitted\nCHECK_DEADLOCK FALSE\n' % '\n'.join('%s = %s' % kv for kv in consts.items()))
    try:
        rc, out = vt.tlc(cfg, module + '.tla', specdir=vt.SPEC + '/user', timeout=timeout, tmp=d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    r = [json.loads(json.loads(l)[1:]) for l in out.splitlines() if l.startswith('"@')]
    if 'No error has been found' not in out or not r:
        raise vt.CheckError('programs of %s: %s' % (module, out[-1500:]))
    return sorted(r, key=json.dumps)

S = lambda xs: '{' + ', '.join('"%s"' % x if isinstance(x, str) else str(x) for x in xs) + '}'

# ------------------------------------------------------------------ handles (P04, P03)
def handles(rng, prog, id):
    P = Prog(rng, 2); P.init()
    for A in range(2): P.malloc(A, 'i', [12, 12])
    P.bar(); P.at(1, 'st A=0 c=0 n=12 v=7'); P.at(1, 'st A=1 c=0 n=12 v=40'); P.bar()
    hin, cell = set(), 0
    def h_(h):
        if h and h not in hin: P.at(0, 'hinit h=%d' % h); hin.add(h)
    form = rng.choice(['', '', 's', 'v'])
    for i, c in enumerate(prog):
        if c[0] in ('nb', 'bl'):
            op, t = (c[1], c[3]) if c[0] == 'nb' else (c[1], c[2])
            h = c[2] if c[0] == 'nb' else 0
            h_(h); A = i % 2 if rng.random() < 0.4 else 0
            lo = rng.choice(['', ' free=1', ' lk=m free=1'])
            kw = dict(nb=1, h=h if h else -1) if c[0] == 'nb' else {}
            if c[0] == 'bl' or form == '': P.at(0, P.contig(op, t, A, cell, 2, at='i', **kw) + lo)
            elif form == 's': P.at(0, P.strided(op, t, A, cell, [1, 2], [1], 0, [2], 3, at='i', **kw) + lo)
            else: P.at(0, P.vector(op, t, A, [(1, [(A, cell, 0), (A, cell + 1, 2)])], 3, at='i', **kw) + lo)
            cell += 2
        elif c[0] == 'wait': P.at(0, 'wait h=%d' % c[1])
        elif c[0] == 'test': P.at(0, 'test h=%d max=%d' % (c[1], rng.choice([1, 2, 300])))
        elif c[0] == 'agg': h_(c[1]); P.at(0, '%s h=%d' % (rng.choice(['hagg', 'hagg', 'hunagg']), c[1]))
        elif c[0] == 'fence': P.at(0, 'fence t=%d' % c[1])
        elif c[0] == 'waitproc': P.at(0, 'waitproc t=%d' % c[1])
        else: P.at(0, 'waitall')
    P.at(0, 'waitall'); P.finish()
    return job(id, P, rng, env=renv(rng, XFER + ['ARMCI_EXPLICIT_NB_PROGRESS', 'ARMCI_RMA_ATOMICITY', 'ARMCI_USE_WIN_ALLOCATE'], 0.2), lc=1, net=rng.choice([1, 2]))

# ------------------------------------------------------------------ allocations, life cycle (P12, P19)
def memory(reinit):
    def f(rng, prog, id):
        n = 2; P = Prog(rng, n); live = {}; up = 0; k = 0
        if not reinit: P.init()
        for c in prog:
            if c[0] == 'init': P.all('init k=%s th=3' % rng.choice(['plain', 'args', 'thread'])); P.all('inited')
            elif c[0] == 'finalize':
                P.all('finalize' if c[1] else 'finalize last=0'); P.all('inited')
                if c[1]: P.al = {}
            elif c[0] == 'malloc':
                P.malloc(c[1], 'i', [3 if c[2] >> r & 1 else 0 for r in range(n)]); P.bar()
            elif c[0] == 'free': P.free(c[1])
            elif c[0] == 'use':
                for A in sorted(P.al):
                    for t in P.targets(A):
                        P.at((t + k) % n, P.contig('put', t, A, 0, 1)); P.at((t + k + 1) % n, P.contig('get', t, A, 1, 2)); k += 1
                        P.at(t, P.contig('acc', t, A, 2, 1, at='i'))
                P.bar()
        if not reinit: P.finish(free=rng.random() < 0.5)
        else:
            up = sum((c[0] == 'init') - (c[0] == 'finalize') for c in prog)
            for i in range(up): P.all('finalize' if i == up - 1 else 'finalize last=0'); P.all('inited')
            P.all('mpifin')
        return job(id, P, rng, env=renv(rng, ['ARMCI_USE_WIN_ALLOCATE', 'ARMCI_DEBUG_ALLOC', 'ARMCI_CACHE_RANK_TRANSLATION'], 0.3), lc=0)
    return f

# ------------------------------------------------------------------ groups (P14, P13)
def groups(noncol):
    def f(rng, prog, id):
        n = 3; P = Prog(rng, n); P.init(); mem = {0: [0, 1, 2]}; A = 0
        for c in prog:
            k, g = c[0], c[1]
            if k == 'create':
                P_, l, m = c[2], c[3], c[4]
                for r in (m if noncol else mem[P_]): P.at(r, 'gchild G=%d P=%d mem=%s' % (g, P_, cs(l)) if P_ or rng.random() < .5 else 'gcreate G=%d mem=%s' % (g, cs(l)))
                mem[g] = m
            elif k == 'split':
                for i, r in enumerate(c[4]): P.at(r, 'gsplit G=%d P=%d color=%d key=%d' % (g, c[2], i % 2, -i))
                mem[g] = c[3]
            elif k == 'dup':
                for r in c[4]: P.at(r, 'gdup G=%d P=%d' % (g, c[2]))
                mem[g] = c[3]
            elif k == 'free':
                for r in c[2]: P.at(r, 'gfree G=%d' % g)
                del mem[g]
            else:
                for r in c[2]:
                    P.at(r, 'gquery G=%d' % g); P.at(r, 'bar k=G g=%d' % g); P.at(r, 'bcast api=g g=%d n=2 root=%d v=%d' % (g, c[2][-1], r * 10))
                if rng.random() < 0.5:
                    P.malloc(A, 'i', [3] * len(c[2]), mem=c[2], g=g)
                    for r in c[2]: P.at(r, 'bar k=G g=%d' % g)
                    P.at(c[2][0], P.contig('put', c[2][-1], A, 0, 2)); P.at(c[2][0], 'fence')
                    for r in c[2]: P.at(r, 'bar k=G g=%d' % g)
                    P.free(A); A += 1
        P.bar(); P.all('finalize'); P.all('mpifin')
        return job(id, P, rng, env=dict(renv(rng, ['ARMCI_CACHE_RANK_TRANSLATION'], 0.6), ARMCI_NONCOLLECTIVE_GROUPS=str(int(noncol))), lc=0)
    return f

# ------------------------------------------------------------------ batches of one-line programs
def batch(size, head, line, tail):
    """several programs in one job"""
    def f(rng, progs, id):
        P = Prog(rng, 1); ctx = head(rng, P)
        for p in progs: line(rng, P, p, ctx)
        return tail(rng, P, ctx, id)
    f.size = size
    return f

def tree_head(rng, P): P.lines = ['* mpiinit lv=3', '* init k=plain']; return []
def tree_line(rng, P, p, ctx):
    if len(p) > 3: P.at(0, 'ct ops=' + ';'.join('i:%d:%d' % tuple(x) for x in p) + ';w;' + ';'.join('l:%d:%d' % (x, x + w) for x, w in [(3 * rng.randint(0, len(p)) - 1, rng.randint(0, 3)) for _ in range(2)]) + ';d')
    else: P.at(0, 'ct ops=' + ';'.join('i:%d:%d' % tuple(x) for x in p) + ';' + ';'.join('l:%d:%d' % (a, b) for a in range(5) for b in range(a, 5) if rng.random() < .4) + ';w;d')
def tree_tail(rng, P, ctx, id): P.all('finalize'); P.all('mpifin'); return job(id, P, rng, lc=0)

def coll_head(rng, P):
    P.n = 3; P.lines = []; P.all('mpiinit lv=3'); P.init(); P.all('gcreate G=1 mem=2,0,1'); return {}
def gop_line(rng, P, p, ctx):
    api, op, ty, s, ln = p; g = 1 if api in 'gx' and rng.random() < 0.6 else 0
    raw = 1 if op in ('*', 'or', 'land', 'lor', 'band', 'bor') else rng.choice([0, 1])
    rg = {'*': (-9, 9), 'land': (0, 2), 'lor': (0, 1), 'or': (0, 1 << 20), 'band': (0, 1 << 20), 'bor': (0, 1 << 20)}.get(op, rng.choice([(-3, 3), (-100000, 100000), (-9, -1)]))
    for r in ([2, 0, 1] if g else range(3)):
        P.at(r, 'gop api=%s op=%s ty=%s v=%s g=%d s=%s raw=%d' % (api, op, ty, cs([rng.randint(*rg) for _ in range(ln)]), g, s, raw))
def bcast_line(rng, P, p, ctx):
    api, s, root, ln = p
    for r in range(3): P.at(r, 'bcast api=%s n=%d root=%d v=%d%s' % (api, ln, root, r * 1000 + rng.randint(0, 99), ' s=' + s if api in 'sg' else '') + (' g=1' if api == 'g' else ''))
def sel_line(rng, P, p, ctx):
    api, s, op, ty, m = p; npay = rng.choice([1, 2, 4]); rg = rng.choice([(-3, 3), (-1000, 1000), (-5, -1), (1, 5)])
    for r in range(3): P.at(r, 'sel op=%s ty=%s contrib=%d v=%d np=%d pay=%d s=%s api=%s' % (op, ty, r in m, rng.randint(*rg), npay, r * 100 + rng.randint(0, 9), s, api))
def coll_tail(rng, P, ctx, id):
    P.bar(); P.all('finalize'); P.all('mpifin')
    return job(id, P, rng, env=renv(rng, ['ARMCI_SHR_BUF_METHOD', 'ARMCI_CACHE_RANK_TRANSLATION'], 0.3), lc=0)

# transfers: one allocation per job, the configuration is that of the job
def mem_head(tys):
    def f(rng, P):
        P.n = 2; P.lines = []; P.all('mpiinit lv=3'); P.init(); ty = rng.choice(tys)
        for A, t in enumerate([ty] if len(tys) == 1 or len(tys) > 3 else tys): P.malloc(A, t, [200, 200])
        P.bar(); return {}
    return f
def shape_line(rng, P, p, ctx):
    op, cnt, rsl, lsl, nb = p; ty = P.al[0]['ty']
    if op == 'acc' and ty in 'bo': op = 'put'
    def st(sl):
        s = []
        for i in range(1, len(cnt)): s.append(cnt[0] + sl if i == 1 else s[-1] * cnt[i - 1] + sl * s[-1] * (i % 2))
        return s
    rs, ls = st(rsl), st(lsl); need, lneed = span(cnt, rs), span(cnt, ls)
    if need > 200 or lneed > 140: return
    t = rng.randint(0, 1); ro = rng.randint(0, 200 - need); lo = rng.randint(0, 2)
    try: c = P.strided(op, t, 0, ro, cnt, rs, lo, ls, lo + lneed + 1, at=ACC.get(ty), sc=P.scale(ACC.get(ty)) if op == 'acc' else None, nb=nb)
    except Exhausted: return
    P.at(0, c)
    if nb: P.at(0, 'waitall')
    P.at(0, 'fence')
def acc_line(rng, P, p, ctx):
    at, si, n, nb, form, same = p
    A = 'ildf'.index({'c': 'f', 'z': 'd'}.get(at, at))
    sc = {0: None, 1: [3, 1, 0, 1], 2: [-1, 1, 0, 1], 3: [1, 1, 0, 1]}[si]
    if at in 'fd': sc = {0: None, 1: [3, 2, 0, 1], 2: [-1, 4, 0, 1], 3: [1, 1, 0, 1]}[si]
    if at in 'cz': sc = {0: None, 1: [2, 1, 3, 1], 2: [0, 1, -1, 2], 3: [1, 1, 0, 1]}[si]; n = 2 * n
    t = 0 if same else 1; r = rng.randint(0, 70) * 2
    if form == '': c = P.contig('acc', t, A, r, n, at=at, sc=sc, nb=nb)
    elif form == 's': c = P.strided('acc', t, A, r, [n, 2], [n + 2], 0, [n + 4], 2 * n + 4, at=at, sc=sc, nb=nb)
    else: c = P.vector('acc', t, A, [(n, [(A, r, 0), (A, r + n + 2, n + 2)])], 2 * n + 2, at=at, sc=sc, nb=nb)
    if at != 'i' and rng.random() < 0.4: c += ' sx=1'
    P.at(0, c)
    if nb: P.at(0, 'waitall')
    P.at(0, 'fence t=%d' % t)
def acc_head(rng, P):
    P.n = 2; P.lines = []; P.all('mpiinit lv=3'); P.init()
    for A, t in enumerate('ildf'): P.malloc(A, t, [160, 160])
    P.bar(); return {}
def rmw_line(rng, P, p, ctx):
    op, ty, t, r, c = p
    P.at(r, 'rmw op=%s A=%d t=%d c=%d v=%d' % (op, 'io'.index(ty), t, c, P.fresh() if op == 'swap' else rng.choice([1, 3, -2, 1000])))
def rmw_head(rng, P):
    P.n = 3; P.lines = []; P.all('mpiinit lv=3'); P.init()
    for A, t in enumerate('io'): P.malloc(A, t, [2, 2, 2])
    P.bar(); return {}
def xfer_tail(env):
    def f(rng, P, ctx, id):
        P.finish()
        return job(id, P, rng, env=renv(rng, env, 0.5), lc=1, steps=200000)
    return f
def pack_head(rng, P): P.lines = []; P.all('mpiinit lv=3'); P.init(); return {}
def pack_line(rng, P, p, ctx):
    w, cnt, sl = p; s = []
    for i in range(1, len(cnt)): s.append(cnt[0] + sl if i == 1 else s[-1] * cnt[i - 1] + sl)
    lo = rng.randint(0, 3)
    P.at(0, '%s cnt=%s st=%s lo=%d ext=%d' % ('packs' if w else 'unpacks', cs(cnt), cs(s), lo, lo + span(cnt, s) + rng.randint(0, 3)))
def pack_tail(rng, P, ctx, id): P.all('finalize'); P.all('mpifin'); return job(id, P, rng, lc=0)

def bound(rng, p, id):
    """one transfer at the first or last cells of a slice; two further allocations may lie around it"""
    op, f, e, o, n, nb = p; n0 = n
    P = Prog(rng, 2); P.init(); ty = rng.choice('io') if op == 'rmw' else rng.choice('iildf' if op in ('acc', 'val') else 'iildfb')
    size = 6; guard = rng.random() < .5
    if guard: P.malloc(1, ty, [4, 4])
    P.malloc(0, ty, [size, size], slack=rng.choice([0, 0, CS_[ty] - 1]))
    if guard: P.malloc(2, ty, [4, 4])
    P.bar(); r = rng.randint(0, 1); t = rng.randint(0, 1)
    # first cell: relative to the start, or such that the last cell is relative to the end
    ext = n if f == '' else 2 * n
    ro = o if e == 'lo' else size - ext + o
    try:
        if op == 'rmw': c = 'rmw op=%s A=0 t=%d c=%d v=%d' % (rng.choice(['fadd', 'swap']), t, ro, 8192 * 300)
        elif op == 'val': c = 'x op=%s f=u t=%d A=0 ro=%d cnt=1 lo=0 ext=1 ty=%s v=%d' % (rng.choice(['put', 'get']), t, ro, ty, 8192 * 300)
        elif f == '': c = P.contig(op, t, 0, ro, n, at=ACC.get(ty), nb=nb)
        elif f == 's': c = P.strided(op, t, 0, ro, [n, 2], [n], 0, [n], 2 * n, at=ACC.get(ty), nb=nb)
        else: c = P.vector(op, t, 0, [(n, [(0, ro, 0), (0, ro + n, n)])], 2 * n, at=ACC.get(ty), nb=nb)
    except Exhausted: return None
    P.at(r, c)
    if nb: P.at(r, 'waitall')
    P.bar(); P.all('finalize'); P.all('mpifin')
    # memory of different allocations may touch only if the transfer is contiguous and starts inside its own
    adj = int(f == '' and op in ('put', 'get', 'acc') and 0 <= ro < size and rng.random() < 0.5)
    j = job(id, P, rng, env=renv(rng, XFER + ATOM, 0.4), lc=0, adj=adj); j.narrow = not (f == '' and 0 <= ro <= size)
    return j
from gen import CS as CS_

def messages(rng, prog, id):
    P = Prog(rng, 3); P.init(); v = 1
    for a, b, t, n, any in prog:
        P.at(a, 'snd t=%d tag=%d n=%d v=%d' % (b, t, n, v)); v += n + 1
        P.at(b, ('rcvany tag=%d n=%d' % (t, n + rng.choice([0, 1]))) if any else 'rcv t=%d tag=%d n=%d' % (a, t, n + rng.choice([0, 1])))
    P.all('finalize'); P.all('mpifin')
    return job(id, P, rng, lc=0)

# ------------------------------------------------------------------ forbidden calls (P30)
def misuse(rng, prog, id):
    n = 2; P = Prog(rng, n); P.lines = []; r = rng.randint(0, 1); A = -1; who = [r]; H = rng.randint(0, 1)
    for c in prog[:-1]:
        if c[0] == 'mpi':
            if c[1] != 9: P.all('mpiinit lv=%d' % c[1])
        elif c[0] == 'init': P.all('init k=%s th=0' % rng.choice(['plain', 'args', 'thread', 'mpi']))
        elif c[0] == 'finalize': P.all('finalize' if c[1] else 'finalize last=0')
        elif c[0] == 'mcreate': P.all('mcreate n=%d' % c[1])
        elif c[0] == 'malloc': A += 1; P.malloc(A, rng.choice('il'), [4, 4]); P.bar()
        elif c[0] == 'free': P.free(A)
        elif c[0] == 'hmcreate': P.all('hmcreate H=%d g=0 n=%d' % (H, c[1]))
        elif c[0] == 'hmdestroy': P.all('hmdestroy H=%d' % H)
        else: P.all(c[0])
    k, a, b, w, f = prog[-1]
    if k in ('init', 'free') or (k == 'mcreate' and a == 0): who = [0, 1]
    if k == 'address': b = 1 - r
    if k == 'init' and b == 9: b = -1
    if k in ('free', 'abegin', 'aend'): a = A if a == 0 else -1
    for x in who: P.at(x, 'mis k=%s a=%d b=%d s=%s f=%d A=%d t=%d H=%d' % (k, a, b, '' if w == 'h' else w, f, max(A, 0), 1 - r, H if w == 'h' else -1))
    if k != 'init': P.all('finalize'); P.all('mpifin')
    hard = k in q.NOBELTS and (mtx_absent(prog) or k not in ('lock', 'unlock', 'mcreate')) or (k == 'acc' and w == 'x')
    return job(id, P, rng, lc=0, reuse=0, adj=0, var=rng.choice(['ompi4', 'mpich', 'ompi5', 'noweak'] + (['nobelts'] * 2 if hard else [])))
def mtx_absent(prog):
    up = False
    for c in prog[:-1]:
        if c[0] == 'mcreate': up = True
        if c[0] == 'mdestroy': up = False
    c = prog[-1]
    return c[3] != 'h' and ((up and c[0] == 'mcreate') or (not up and c[0] != 'mcreate'))

# ------------------------------------------------------------------ tuning variables (P31)
def tune(rng, prog, id):
    n = 2; P = Prog(rng, n); P.init(); env = {k: v for k, v in prog}; A = 0; nonc = env.get('ARMCI_NONCOLLECTIVE_GROUPS') == '1'; m = rng.randint(0, 1)
    for r in ([m] if nonc else [0, 1]): P.at(r, 'gcreate G=1 mem=%d' % m)
    for x in (0, 1, 128, 129):
        for y in (0, 1, 128, 129):
            P.malloc(A, 'b', [x, y], api=rng.choice(['', 'memdev'])); A += 1
        P.malloc(A, 'b', [x], mem=[m], g=1); A += 1
    P.at(0, 'mcreate n=1'); P.at(1, 'mcreate n=%d' % rng.randint(0, 2)); P.all('mdestroy')
    P.at(m, 'hmcreate H=0 g=1 n=1'); P.at(m, 'hmdestroy H=0')
    for a in list(P.al):
        if P.al[a]['g'] == 1 or rng.random() < 0.2: P.free(a)
    P.at(m, 'gfree G=1'); P.finish()
    return job(id, P, rng, env=env, lc=0, hints=1)

# family -> (module, constants, converter)
FAM = {
    'handles': ('UserHandles', dict(Depth=4, Handles=2, Ops=S(['put', 'get', 'acc'])), handles),
    'memory': ('UserMemory', dict(Depth=6, Patterns=S([0, 1, 2, 3]), MaxAlloc=4, Reinit='FALSE'), memory(False)),
    'life': ('UserMemory', dict(Depth=7, Patterns=S([3, 1]), MaxAlloc=3, Reinit='TRUE'), memory(True)),
    'groups': ('UserGroups', dict(Depth=3, N=3, Sorted='FALSE', MaxG=3), groups(False)),
    'ngroups': ('UserGroups', dict(Depth=3, N=3, Sorted='TRUE', MaxG=3), groups(True)),
    'messages': ('UserMessages', dict(Depth=3, N=3, Tags=S([1, 2]), Lens=S([0, 2])), messages),
    'trees': ('UserTree', dict(Depth=7, U=6, Distinct='TRUE'), batch(60, tree_head, tree_line, tree_tail)),
    'meets': ('UserTree', dict(Depth=3, U=4, Distinct='FALSE'), batch(60, tree_head, tree_line, tree_tail)),
    'gop': ('UserCalls', dict(Family='"gop"'), batch(20, coll_head, gop_line, coll_tail)),
    'bcast': ('UserCalls', dict(Family='"bcast"'), batch(20, coll_head, bcast_line, coll_tail)),
    'sel': ('UserCalls', dict(Family='"sel"'), batch(20, coll_head, sel_line, coll_tail)),
    'shape': ('UserCalls', dict(Family='"shape"'), batch(8, mem_head('iildfb'), shape_line, xfer_tail(XFER))),
    'acc': ('UserCalls', dict(Family='"acc"'), batch(12, acc_head, acc_line, xfer_tail(XFER + ['ARMCI_USE_WIN_ALLOCATE']))),
    'rmw': ('UserCalls', dict(Family='"rmw"'), batch(18, rmw_head, rmw_line, xfer_tail(ATOM))),
    'pack': ('UserCalls', dict(Family='"pack"'), batch(20, pack_head, pack_line, pack_tail)),
    'bound': ('UserCalls', dict(Family='"bound"'), bound),
    'tune': ('UserTune', dict(Most=2), tune),
    'misuse': ('UserMisuse', dict(Depth=5, Levels=S([0, 1, 2, 3, 9])), misuse),
}
def all_programs(fam, tmp):
    module, consts, conv = FAM[fam]
    return programs(module, consts, tmp)

def convert(fam, ps, rng, rnd=0):
    conv = FAM[fam][2]; out = []
    if hasattr(conv, 'size'):
        for k in range(0, len(ps), conv.size): out.append(conv(rng, ps[k:k + conv.size], 'u_%s%d_%d' % (fam, rnd, k)))
    else:
        for k, p in enumerate(ps): out.append(conv(rng, p, 'u_%s%d_%d' % (fam, rnd, k)))
    return [j for j in out if j]
