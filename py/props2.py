"""Programs for the remaining properties: groups, messages, life cycle, topology, threads, mixed configurations."""
from props import *

# ------------------------------------------------------------------ groups
def mkgroups(rng, P, k, noncol, first=1, parents=True, split=True, groups=None):
    """creates k groups; returns {gid: members (absolute ids in rank order)}.  Every process of the parent takes part (only the members
    when groups are created noncollectively, with lists in increasing order)"""
    groups = groups if groups is not None else {0: list(range(P.n))}
    outs = P.outs = getattr(P, 'outs', {})       # who called the creation without becoming a member
    for g in range(first, first + k):
        cand = [x for x in groups if groups[x]]
        p = rng.choice(cand) if parents else 0
        pm = groups[p]; kind = rng.choice(['list', 'list', 'list', 'split', 'dup'] if split else ['list'])
        if kind == 'list':
            l = rng.sample(range(len(pm)), rng.randint(1, len(pm)))
            if noncol or rng.random() < 0.4: l.sort()
            mem = [pm[x] for x in l]
            dflt = p == 0 and not P.dflt and rng.random() < 0.6
            for r in (sorted(mem) if noncol else pm):
                P.at(r, ('gcreate G=%d mem=%s' % (g, cs(l))) if dflt else 'gchild G=%d P=%d mem=%s' % (g, p, cs(l)))
            groups[g] = mem
            if not noncol: outs[g] = [r for r in pm if r not in mem]
        elif kind == 'dup':
            for r in pm: P.at(r, 'gdup G=%d P=%d' % (g, p))
            groups[g] = list(pm)
        else:
            cs3 = rng.choice([[0, 1, 2], [0, 1, 2], [5, 0, 70000]]); cols = {r: rng.choice([cs3[0]] * 2 + [cs3[1]] * 2 + [cs3[2], -1]) for r in pm}; keys = {r: rng.choice([0, 1, 2, 3, 3, -1, -4, 100000]) for r in pm}
            for r in pm: P.at(r, 'gsplit G=%d P=%d color=%d key=%d' % (g, p, cols[r], keys[r]))
            groups[g] = []                      # different on different processes: not used as one group any more
            P.splits = getattr(P, 'splits', {}); outs[g] = [r for r in pm if cols[r] < 0]
            for c in set(cols.values()) - {-1}:
                m = sorted((r for r in pm if cols[r] == c), key=lambda r: (keys[r], pm.index(r)))
                P.splits.setdefault(g, []).append(m)
    return groups

def freegroups(rng, P, groups, noncol=False, callers=None):
    ks = [g for g in groups if g]
    rng.shuffle(ks)
    for g in ks:
        for r in getattr(P, 'outs', {}).pop(g, []):       # a caller that is not a member may ask and free, too
            if rng.random() < 0.3: P.at(r, 'gquery G=%d' % g)
            if rng.random() < 0.4: P.at(r, 'gfree G=%d' % g)
        for m in [groups[g]] if groups[g] else getattr(P, 'splits', {}).get(g, []):
            for r in m: P.at(r, 'gfree G=%d' % g)

def gen_groups(rng, i, tier):
    n = procs(rng, [1, 2, 3, 4, 4, 5, 6, 7]); P = Prog(rng, n); P.init()
    noncol = rng.random() < 0.5
    groups = {0: list(range(n))}; first = 1
    for ph in range(rng.choice([1, 2, 3])):
        k = rng.randint(1, 4)
        mkgroups(rng, P, k, noncol, first, groups=groups)
        first += k
        for g in groups:
            mems = [groups[g]] if groups[g] else getattr(P, 'splits', {}).get(g, [])
            for m in mems:
                for r in m:
                    if rng.random() < 0.3: P.at(r, 'gquery G=%d' % g)
                if rng.random() < 0.4 and len(m): # use it
                    for r in m: P.at(r, 'bar k=G g=%d' % g)
        if rng.random() < 0.5:      # default group
            g = rng.choice([x for x in groups if groups[x]])
            if set(groups[g]) == set(range(n)) or g == 0 or rng.random() < 0.5:
                for r in groups[g]:
                    P.at(r, 'gdef G=%d' % g); P.at(r, 'ggetdef G=31'); P.at(r, 'ggetworld G=30')
                # a group created under the default group
                pm = groups[g]; l = rng.sample(range(len(pm)), rng.randint(1, len(pm)))
                if noncol: l.sort()
                mem = [pm[x] for x in l]
                for r in (mem if noncol else pm): P.at(r, 'gcreate G=%d mem=%s' % (first, cs(l)))
                groups[first] = mem; first += 1
                for r in pm: P.at(r, 'gdef G=0'); P.at(r, 'ggetdef G=31')
        if rng.random() < 0.5 and len(groups) > 2:   # free one and go on
            g = rng.choice([x for x in groups if x and groups[x]] or [0])
            if g:
                for r in groups[g]: P.at(r, 'gfree G=%d' % g)
                del groups[g]
        P.all('yield n=%d' % rng.randint(1, 5))
    if rng.random() < 0.4 and len(groups) > 1:
        g = rng.choice([x for x in groups if x and groups[x]] or [0])
        if g:
            P.malloc(0, 'i', [4] * len(groups[g]), mem=groups[g], g=g)
            for r in groups[g]: P.at(r, 'bar k=G g=%d' % g)
            P.free(0)
    if rng.random() < 0.8: freegroups(rng, P, groups)
    P.bar(); P.all('finalize'); P.all('mpifin')
    env = renv(rng, ['ARMCI_CACHE_RANK_TRANSLATION', 'ARMCI_USE_WIN_ALLOCATE'], 0.6)
    env['ARMCI_NONCOLLECTIVE_GROUPS'] = str(int(noncol))
    if not noncol and rng.random() < 0.5: env.pop('ARMCI_NONCOLLECTIVE_GROUPS')
    return job('gr%d' % i, P, rng, env=env, lc=0)

def gen_groupmem(rng, i, tier, fences=True):
    """allocations on groups (P13)"""
    n = procs(rng, [2, 3, 3, 4, 5]); P = Prog(rng, n); P.init()
    noncol = rng.random() < 0.3
    groups = mkgroups(rng, P, rng.randint(1, 3), noncol, split=False)
    if rng.random() < 0.5:
        g = rng.choice(list(groups))
        for r in groups[g]: P.at(r, 'gdef G=%d' % g)      # the default group does not matter
    ids = list(groups); A = 0
    for g in [rng.choice(ids) for _ in range(rng.randint(1, 4))]:
        P.malloc(A, rng.choice('iildfb'), [rng.choice([0, 4, 8, 8, 10, 12]) for _ in groups[g]], mem=groups[g], g=g if g or rng.random() < 0.5 else -1, api=rng.choice(['', '', 'memdev']))
        A += 1
    P.bar()
    for ph in range(2):
        memprog(rng, P, dict(put=3, get=3, acc=2, puts=1, gets=1, putv=1, accs=1, rmw=1, fence=3, wait=2), phases=1, per=4, nb=0.4)
        if ph == 0 and rng.random() < 0.5:          # free some, allocate again
            ks = list(P.al); rng.shuffle(ks)
            for a in ks[:rng.randint(1, len(ks))]: P.free(a)
            g = rng.choice(ids)
            P.malloc(A, rng.choice('iild'), [rng.choice([0, 4, 8]) for _ in groups[g]], mem=groups[g], g=g if g else -1); A += 1
            P.bar()
    if rng.random() < 0.3:
        P.all('fence')
        for r in range(n): P.at(r, 'fence t=%d' % rng.randint(0, n - 1)); P.at(r, 'waitproc t=%d' % rng.randint(0, n - 1))
    P.bar()
    leave = rng.random() < 0.2
    P.finish(free=not leave, fin=False)
    if not leave: freegroups(rng, P, groups)
    P.all('finalize'); P.all('mpifin')
    env = renv(rng, XFER + ['ARMCI_CACHE_RANK_TRANSLATION', 'ARMCI_USE_WIN_ALLOCATE', 'ARMCI_RMA_ATOMICITY', 'ARMCI_SHR_BUF_METHOD'], 0.3)
    env['ARMCI_NONCOLLECTIVE_GROUPS'] = str(int(noncol))
    return job('gm%d' % i, P, rng, env=env, lc='auto')

# ------------------------------------------------------------------ completion (P01-P04)
def gen_fence(rng, i, tier):
    """stores followed by every kind of fence, over several allocations on world and groups"""
    n = procs(rng, [2, 3, 3, 4]); P = Prog(rng, n); P.init(dflt=True)
    groups = mkgroups(rng, P, rng.choice([0, 0, 1, 2]), False, split=False)
    for A in range(rng.randint(1, 4)):
        g = rng.choice(list(groups))
        P.malloc(A, rng.choice('iildfb'), [rng.choice([0, 3, 8, 8, 10]) for _ in groups[g]], mem=groups[g], g=g if g else -1)
    P.bar()
    memprog(rng, P, dict(put=3, acc=2, puts=1, accs=1, putv=1, accv=1, putu=1, rmw=1, fence=4, wait=1, get=1), phases=2, per=7, nb=0.5, sync=rng.choice(['A', 'A', 'M']))
    if rng.random() < 0.5:     # fence, then a message barrier, then look
        for r in range(n):
            As = [A for A in P.al if r in P.al[A]['mem']]
            for _ in range(3):
                if As:
                    A = rng.choice(As); ts = P.targets(A)
                    c = ts and transfer(rng, P, rng.choice(['put', 'acc', 'puts', 'accs']), rng.choice(ts), A)
                    if c: P.at(r, c)
            P.at(r, 'fence')
        P.bar('M')
        for r in range(n):
            for A in P.al:
                z = P.al[A]['n'].get(r, 0)
                if z: P.at(r, 'ld A=%d c=0 n=%d' % (A, z))
    P.finish()
    env = renv(rng, XFER + COMPL + ATOM + ['ARMCI_MSG_BARRIER_SYNCS'], 0.3)
    o = {}
    lc = 0 if rng.random() < 0.5 else 1
    return job('fe%d' % i, P, rng, env=env, lc=lc, order=1 if lc else rng.randint(0, 1), net=rng.choice([1, 1, 2]))

def manycounts(rng, levels, budget, even=False):
    while True:
        c = [rng.choice([1, 1, 2, 3])] + [rng.choice([1, 2, 3, 5, 8, 9, 17, 33, 65]) for _ in range(levels)]
        if even: c[0] = 2 * ((c[0] + 1) // 2)
        t = 1
        for x in c: t *= x
        if t <= budget and (t > 40 or rng.random() < 0.1): return c

def gen_many_blocks(rng, i, tier):
    """strided transfers of many blocks"""
    n = 2; P = Prog(rng, n); P.limit = 2000; P.init(dflt=True)
    P.malloc(0, rng.choice('iild'), [200] * n); P.bar()
    for r in range(n):
        st = Rank()
        for _ in range(rng.choice([1, 1, 2])):
            op = rng.choice(['put', 'get', 'acc']); nb = int(rng.random() < 0.4); ty = P.al[0]['ty']
            try: c = fit_strided(P, rng, op, rng.choice([1 - r, 1 - r, r]), 0, at=acctype(rng, ty) if op == 'acc' else None, maxl=rng.choice([1, 2, 3, 4]), nb=nb, h=0 if nb else -1, budget=130, cntf=manycounts)
            except Exhausted: c = None
            if c: nb_before(rng, P, r, st, nb, 0); P.at(r, c)
        complete_rest(rng, P, r, st)
    P.bar(); P.finish()
    return job('mb%d' % i, P, rng, env=renv(rng, XFER, 0.6), lc=0)

def gen_many_segs(rng, i, tier):
    """vector transfers of many segments"""
    n = 2; P = Prog(rng, n); P.limit = 2000; P.init(dflt=True)
    ty = rng.choice('iildf'); P.malloc(0, ty, [200] * n); P.bar()
    for r in range(n):
        st = Rank()
        for _ in range(rng.choice([1, 1, 2])):
            op = rng.choice(['put', 'get', 'acc']); nb = int(rng.random() < 0.4); t = rng.choice([1 - r, 1 - r, r]); ln = rng.choice([1, 1, 1, 2])
            at = acctype(rng, ty) if op == 'acc' else None
            if at in ('c', 'z'): ln = 2
            k = rng.choice([9, 16, 17, 32, 33, 63, 64, 65, 90]); gap = rng.choice([0, 0, 1])
            while k * (ln + gap) > 200: k //= 2
            slots = [x * (ln + gap) for x in range(k)] if rng.random() < 0.5 else [x * ln for x in rng.sample(range(200 // ln), k)]
            lo = [x * ln for x in range(k)]
            if rng.random() < 0.3: rng.shuffle(lo)
            cut = rng.choice([k, k, k // 2, 1]) or k
            segs = [(ln, [(0, a, b) for a, b in zip(slots[x:y], lo[x:y])]) for x, y in ((0, cut), (cut, k)) if y > x]
            try: c = P.vector(op, t, 0, segs, k * ln + 1, at=at, sc=P.scale(at) if at else None, nb=nb, h=0 if nb else -1)
            except Exhausted: continue
            nb_before(rng, P, r, st, nb, 0); P.at(r, c)
        complete_rest(rng, P, r, st)
    P.bar(); P.finish()
    env = renv(rng, XFER, 0.6)
    if rng.random() < 0.5: env['ARMCI_IOV_BATCHED_LIMIT'] = rng.choice(['0', '7', '16', '32', '64'])
    if rng.random() < 0.5: env['ARMCI_IOV_DTYPE_CHUNK'] = rng.choice(['0', '5', '16', '32', '64'])
    return job('ms%d' % i, P, rng, env=env, lc=0)

def gen_near(rng, i, tier):
    """accumulates whose scale differs from one by about the precision of the type: in either part, in either direction"""
    n = rng.choice([1, 2, 2, 3]); P = Prog(rng, n); P.init(dflt=True); ty = rng.choice('fd'); size = 8
    P.malloc(0, ty, [size] * n); P.bar(); d = 1 << (20 if ty == 'f' else 24)
    for _ in range(rng.randint(1, 5)):
        r, t = rng.randint(0, n - 1), rng.randint(0, n - 1); cplx = rng.random() < 0.5; at = ('c' if ty == 'f' else 'z') if cplx else ty; e = rng.choice([1, -1, 1, 2])
        sc = [d + e, d, 0, 1] if not cplx else rng.choice([[d + e, d, 0, 1], [1, 1, e, d], [d + e, d, -e, d], [1, 1, 0, 1], [-1, 1, e, d], [0, 1, 1, 1]])
        if cplx and sc[1] > 1 and sc[3] > 1: sc[3] = 1; sc[2] = rng.choice([0, 1])
        nb = int(rng.random() < 0.4); u = 2 if cplx else 1; k = rng.random()
        if k < 0.4:
            m = rng.randint(1, 4) * u; c = P.contig('acc', t, 0, rng.randint(0, (size - m) // u) * u, m, at=at, sc=sc, nb=nb)
        elif k < 0.7: c = P.strided('acc', t, 0, u * rng.randint(0, 1), [u, 2], [2 * u], u * rng.randint(0, 1), [u], 4 * u, at=at, sc=sc, nb=nb)
        else: c = P.vector('acc', t, 0, [(u, [(0, x * u, y * u) for x, y in zip(rng.sample(range(size // u), 3), rng.sample(range(3), 3))])], 3 * u, at=at, sc=sc, nb=nb)
        P.at(r, c + rng.choice(['', ' sx=1', ' lk=m', ' lk=m sx=1']))
        if nb: P.at(r, 'waitall')
    P.bar(); P.finish()
    return job('ne%d' % i, P, rng, env=renv(rng, XFER + COMPL, 0.35), lc=0, **(dict(dunit=1) if ty == 'd' else {}))

def gen_many_nb(rng, i, tier):
    """many operations outstanding on one handle, and many handles"""
    n = rng.choice([2, 3]); P = Prog(rng, n); P.limit = 2000; P.init(dflt=True); most = rng.random() < 0.16; z = 360 if most else 60; bias = rng.choice([None, 0, 1])
    for A in range(2): P.malloc(A, rng.choice('iild'), [z] * n)
    P.bar()
    for r in range(n):
        if r and (most or rng.random() < 0.5): continue
        st = Rank(); nh = rng.choice([1, 1, 2, 20]); m = rng.choice([9, 16, 17, 20, 33, 40, 65, 90, 130]); far = rng.random() < 0.5; free = {(A, t): list(range(z)) for A in range(2) for t in range(n)}
        if most: m, far = 330, True
        for f in free.values(): rng.shuffle(f)
        for k in range(m):
            A = rng.randint(0, 1); t = rng.randint(0, n - 1); op = rng.choice(['put', 'put', 'get', 'acc']); h = rng.randint(0, nh - 1) if rng.random() < 0.95 else -1
            if most and bias is not None and rng.random() < 0.95: A = bias
            if far and t == r: t = (r + 1) % n
            if most and op == 'acc' and rng.random() < 0.97: op = 'get'
            if k >= m - nh: op = rng.choice(['get', 'get', 'put'])
            if not free[A, t]: continue
            ro = free[A, t].pop(); at = ACC[P.al[A]['ty']] if op == 'acc' else None
            try: c = P.contig(op, t, A, ro, 1, at=at, sc=P.scale(at) if at else None, nb=1, h=h)
            except Exhausted: break
            nb_before(rng, P, r, st, 1, h); P.at(r, c)
        if far and rng.random() < 0.5:
            for h in sorted(P.hin.get(r, ())): P.at(r, 'wait h=%d' % h); st.open.pop(h, None)
        complete_rest(rng, P, r, st)
        if rng.random() < 0.5:
            for h in range(nh): P.at(r, 'wait h=%d' % h if h in P.hin.get(r, ()) else 'yield n=1')
    P.bar(); P.finish()
    return job('mn%d' % i, P, rng, env=renv(rng, XFER + COMPL, 0.4), lc=0, **(dict(var='ompi5', net=rng.choice([1, 1, 2])) if most else {}))

def gen_nb(rng, i, tier):
    """nonblocking handles: aggregation, reuse, tests, inactive handles, waits of every kind"""
    n = rng.choice([2, 2, 3]); P = Prog(rng, n); P.init(dflt=True)
    for A in range(rng.choice([1, 2, 3])): P.malloc(A, rng.choice('iildf'), [rng.choice([6, 10, 16])] * n)
    P.bar()
    kinds = ['put', 'get', 'acc', 'puts', 'gets', 'accs', 'putv', 'getv', 'accv', 'putu']
    for ph in range(2):
        for r in range(n):
            st = Rank(); inited = set(range(P.n)) and set()
            for _ in range(rng.randint(2, 9)):
                q = rng.random()
                if q < 0.62:
                    h = rng.randint(0, 3) if rng.random() < 0.8 else -1
                    A = rng.choice(list(P.al))
                    c = transfer(rng, P, rng.choice(kinds), rng.randint(0, n - 1), A, nb=1, h=h)
                    if not c: continue
                    if h >= 0 and h not in P.hin.setdefault(r, set()):
                        P.at(r, 'hinit h=%d' % h); P.hin[r].add(h)
                        if rng.random() < 0.4: P.at(r, 'hagg h=%d' % h)
                    st.n += 1; st.open[h] = 1; P.at(r, c)
                elif q < 0.74:
                    hs = sorted(P.hin.get(r, ()))
                    if not hs: continue
                    h = rng.choice(hs)      # possibly nothing outstanding on it
                    P.at(r, rng.choice(['wait h=%d', 'test h=%d max=300', 'test h=%d max=1', 'test h=%d max=2', 'wait h=%d']) % h)
                    if P.lines[-1].split()[1] == 'wait': st.open.pop(h, None)
                elif q < 0.80: P.at(r, 'waitproc t=%d' % rng.randint(0, n - 1))
                elif q < 0.84: P.at(r, 'waitall')
                elif q < 0.90:
                    hs = sorted(set(P.hin.get(r, ())) - set(st.open))
                    if hs: P.at(r, rng.choice(['hagg h=%d', 'hunagg h=%d']) % rng.choice(hs))
                elif q < 0.95:
                    A = rng.choice(list(P.al)); c = transfer(rng, P, rng.choice(['put', 'get', 'acc']), rng.randint(0, n - 1), A)
                    if c: P.at(r, c)
                else: P.at(r, 'yield n=%d' % rng.randint(1, 6))
            for h in sorted(P.hin.get(r, ())):
                if rng.random() < 0.6: P.at(r, rng.choice(['wait h=%d', 'test h=%d max=300']) % h)
            if rng.random() < 0.4:
                for t in range(n): P.at(r, 'waitproc t=%d' % t)
                P.at(r, 'waitall')
            else: P.at(r, 'waitall')
        P.bar()
    P.finish()
    env = renv(rng, XFER + COMPL, 0.3)
    return job('nb%d' % i, P, rng, env=env, lc='auto', net=rng.choice([1, 2, 2]))

def gen_local(rng, i, tier):
    """local completion: buffers freed or overwritten as soon as allowed, late network"""
    n = rng.choice([2, 2, 3]); P = Prog(rng, n); P.init(dflt=True)
    for A in range(rng.choice([1, 2])): P.malloc(A, rng.choice('iildfb'), [rng.choice([8, 16, 24])] * n)
    P.bar()
    memprog(rng, P, rng.choice([dict(put=1, puts=1, putv=1, acc=1, accs=1, accv=1, get=1, gets=1, getv=1, wait=2), dict(acc=2, accs=2, accv=3, wait=2), dict(get=1, gets=2, getv=2, wait=1), dict(put=1, puts=2, putv=2)]), phases=2, per=6, nb=0.5)
    P.finish()
    env = renv(rng, XFER + COMPL, 0.4)
    return job('lo%d' % i, P, rng, env=env, lc=0 if rng.random() < .4 else 1, order=1, net=rng.choice([1, 1, 2]))

def gen_contig(rng, i, tier):
    n = procs(rng, [1, 2, 3, 4, 5]); P = Prog(rng, n); P.init(dflt=True)
    groups = mkgroups(rng, P, rng.choice([0, 0, 1, 2]), False, split=False)
    for A in range(rng.randint(1, 4)):
        g = rng.choice(list(groups))
        sz = [rng.choice([0, 1, 2, 5, 9, 12, 40 if rng.random() < .2 else 3]) for _ in groups[g]]
        ty = rng.choice('iildfbo')
        if ty == 'b' and rng.random() < 0.5: sz = [z and rng.choice([64, 65, 100, 129]) for z in sz]
        P.malloc(A, ty, sz, mem=groups[g], g=g if g else -1)
    P.bar()
    memprog(rng, P, rng.choice([dict(put=4, get=4, putu=1, getu=1, ld=1, wait=1), dict(put=2, get=2, putu=2, getu=2, yield_=0)]), phases=2, per=6, nb=0.35)
    P.finish()
    env = renv(rng, COMPL, 0.3)
    return job('ct%d' % i, P, rng, env=env, lc='auto')

# ------------------------------------------------------------------ allocation life cycle (P12)
def gen_alloc(rng, i, tier):
    n = procs(rng, [1, 2, 3, 4, 5]); P = Prog(rng, n); P.init(dflt=True)
    A = 0; nl = 0; locs = {r: [] for r in range(n)}
    def mal():
        nonlocal A
        q = rng.random()
        if q < 0.1: sz = [0] * n
        elif q < 0.4: sz = [rng.choice([0, rng.randint(1, 10)]) for _ in range(n)]
        elif q < 0.5: sz = [0] * n; sz[rng.randint(0, n - 1)] = rng.randint(1, 9)
        else: sz = [rng.randint(1, 12) for _ in range(n)]
        P.malloc(A, rng.choice('iildfb'), sz, api=rng.choice(['', '', '', 'memdev'])); A += 1
    for _ in range(rng.randint(3, 9)):
        q = rng.random()
        if q < 0.42 or not P.al:
            if len(P.al) < 6: mal()
        elif q < 0.72:
            if rng.random() < 0.8: P.bar()
            a = rng.choice(list(P.al)); P.free(a, api=rng.choice(['', '', '', 'memdev']))
        elif q < 0.8:
            r = rng.randint(0, n - 1)
            if locs[r] and rng.random() < 0.5: P.at(r, 'flocal B=%d' % locs[r].pop(rng.randint(0, len(locs[r]) - 1)))
            else: P.at(r, 'mlocal B=%d n=%d' % (nl, rng.choice([1, 8, 33, 100]))); locs[r].append(nl); nl += 1
        else:
            P.bar()
            memprog(rng, P, dict(put=3, get=2, acc=1, puts=1, rmw=1), phases=1, per=3, nb=0.2)
    for r in range(n):
        for b in locs[r]: P.at(r, 'flocal B=%d' % b)
    P.finish(free=rng.random() < 0.6)
    env = renv(rng, ['ARMCI_USE_WIN_ALLOCATE', 'ARMCI_USE_ALLOC_SHM', 'ARMCI_DEBUG_ALLOC', 'ARMCI_RMA_NOCHECK', 'ARMCI_ACCUMULATE_GRANULARITY', 'ARMCI_DISABLE_SHM_ACC', 'ARMCI_USE_SAME_OP', 'ARMCI_RMA_ORDERING'], 0.35)
    return job('al%d' % i, P, rng, env=env, lc=0)

# ------------------------------------------------------------------ message layer (P15, P16, P28)
FLOATOPS = ['+', '*', 'max', 'min', 'absmax', 'absmin']
INTOPS = FLOATOPS + ['or', 'land', 'lor', 'band', 'bor', '&&', '||', '&', '|']

def gop(rng, P, who, g, scope, api, la=None):
    ty = rng.choice('iilqofd'.replace('o', 'l')); op = rng.choice(INTOPS if ty in 'ilq' else FLOATOPS); ln = rng.choice([0, 1, 1, 2, 3, 5, 8]) if rng.random() < 0.9 else rng.randint(9, 40)
    raw = 1 if op == '*' or op not in FLOATOPS else rng.choice([0, 1])
    if ty in 'ilq' and op in ('or', 'band', 'bor', '&', '|') and ty != 'i' and rng.random() < 0.5: raw = 0
    rg = {'*': (-3, 3)}.get(op, (-100000, 100000) if ty in 'fd' else (-2000000, 2000000))
    if op in ('land', 'lor', '&&', '||'): rg = (0, 1) if rng.random() < 0.5 else (-2, 2)
    if not raw and op not in FLOATOPS: rg = (0, 1 << 28)
    if op in ('absmax', 'absmin', 'max', 'min') and rng.random() < 0.4: rg = (-3, 3)     # ties
    if op in ('max', 'min') and rng.random() < 0.3: rg = (-9, -1)
    c = '%d' if True else ''
    for r in who:
        v = [rng.randint(*rg) if rng.random() < 0.9 else max(0, rg[0]) if rg[1] >= 0 else rg[1] for _ in range(ln)]
        P.at(r, 'gop api=%s op=%s ty=%s v=%s g=%d s=%s raw=%d' % (api, op, ty, cs(v), g, scope, raw))

def gen_coll(rng, i, tier):
    n = procs(rng, [1, 2, 3, 3, 4, 5, 6, 7]); P = Prog(rng, n); P.init(dflt=True)
    groups = mkgroups(rng, P, rng.choice([0, 1, 2, 2]), False, split=False)
    glob = rng.random() < 0.4
    if glob:                                 # buffers in global memory
        P.malloc(2, 'i', [16] * n); P.bar()
    for _ in range(rng.randint(3, 10)):
        q = rng.random(); g = rng.choice(list(groups))
        if glob and rng.random() < 0.5:
            ln = rng.randint(1, 5); lc = rng.randint(0, 16 - ln); op = rng.choice(INTOPS); rg = (-3, 3) if op == '*' or rng.random() < .3 else (0, 1) if op in ('land', 'lor', '&&', '||') else (-2000000, 2000000)
            what = rng.choice(['bcast', 'bcast', 'gop'])
            for r in groups[g] or range(n): P.at(r, 'st A=2 c=%d n=%d v=%d' % (lc, ln, rng.randint(*rg)))
            sc = rng.choice('aam')
            if what == 'bcast':
                if g or rng.random() < 0.3:
                    w = rng.choice(groups[g])
                    for r in groups[g]: P.at(r, 'bcast api=g g=%d n=%d root=%d s=%s la=2 lc=%d' % (g, ln, w, sc, lc))
                else: P.all('bcast api=%s n=%d root=%d la=2 lc=%d' % (rng.choice('brs'), ln, rng.randint(0, n - 1), lc))
            else:
                api = rng.choice('gx') if g or rng.random() < 0.3 else rng.choice('ts')
                for r in groups[g] or range(n): P.at(r, 'gop api=%s op=%s ty=i v=%s g=%d s=%s raw=1 la=2 lc=%d' % (api, op, cs([0] * ln), g, 'a' if api in 'gt' else sc, lc))
            continue
        if q < 0.45:
            if g or rng.random() < 0.3:
                if rng.random() < 0.5: gop(rng, P, groups[g], g, 'a', 'g')
                else: gop(rng, P, groups[g], g, rng.choice('amn'), 'x')
            elif rng.random() < 0.5: gop(rng, P, range(n), 0, 'a', 't')
            else: gop(rng, P, range(n), 0, rng.choice('amn'), 's')
        elif q < 0.7:
            ln = rng.choice([0, 1, 2, 5, 9])
            if g:
                root = rng.randint(0, len(groups[g]) - 1); w = groups[g][root]; sc = rng.choice('aam')
                for r in groups[g]: P.at(r, 'bcast api=g g=%d n=%d root=%d v=%d s=%s' % (g, ln, w, rng.randint(-50, 50), sc))
            else:
                root = rng.randint(0, n - 1); api = rng.choice('brs'); sc = rng.choice('amn') if api == 's' else 'a'
                for r in range(n): P.at(r, 'bcast api=%s n=%d root=%d v=%d s=%s' % (api, ln, 0 if sc == 'n' else root, rng.randint(-50, 50), sc))
        elif q < 0.95:
            op = rng.choice(['min', 'max']); ty = rng.choice('ilqfd'); sc = rng.choice('aaamn'); api = 's' if sc != 'a' or rng.random() < .5 else 'x'
            npay = rng.choice([1, 2, 4, 12, 12, 700]); lo, hi = rng.choice([(-3, 3), (-1000, 1000), (0, 0), (-5, -1)])
            mask = [rng.random() < 0.7 for _ in range(n)]
            if rng.random() < 0.25: mask = [True] * n
            if rng.random() < 0.2: mask = [False] * n; mask[rng.randint(0, n - 1)] = True
            if not any(mask): mask[0] = True
            for r in range(n): P.at(r, 'sel op=%s ty=%s contrib=%d v=%d np=%d pay=%d s=%s api=%s' % (op, ty, mask[r] if sc != 'n' else 1, rng.randint(lo, hi), npay, r * 100 + rng.randint(0, 9), sc, api))
        else: P.bar(rng.choice('AM'))
        if rng.random() < 0.2: P.at(rng.randint(0, n - 1), 'yield n=%d' % rng.randint(1, 6))
    if glob: P.bar(); P.free(2)
    freegroups(rng, P, groups)
    P.all('finalize'); P.all('mpifin')
    return job('co%d' % i, P, rng, env=renv(rng, ['ARMCI_SHR_BUF_METHOD', 'ARMCI_CACHE_RANK_TRANSLATION', 'ARMCI_MSG_BARRIER_SYNCS'], 0.4), lc=0, segred=rng.choice([0, 1]))

def gen_p2p(rng, i, tier):
    n = procs(rng, [2, 2, 3, 4, 5]); P = Prog(rng, n); P.init(dflt=True)
    send = rng.choice([0, 1, 2]); val = 1; tag0 = 0
    glob = rng.random() < 0.4;          # messages from and into global memory
    if glob: P.malloc(2, 'i', [60] * n); P.bar()
    def rla(z):
        return ' la=2 lc=%d' % rng.randint(0, 60 - z) if glob and z and z <= 60 and rng.random() < 0.5 else ''
    for ph in range(rng.randint(1, 3)):
        mode = rng.choice(['ordered', 'ordered', 'shuffle', 'any'])
        if mode == 'shuffle' : send = 0
        plan = []; tags = list(range(tag0, tag0 + rng.choice([1, 2, 3]))); tag0 += 4
        if rng.random() < 0.2: tags = [t * 1000 + 7 for t in tags]
        if mode == 'any':      # one receiver per tag, several senders; the tag is only received with rcvany
            if send: tags = tags[:1]      # with several tags, synchronous senders and the receiver could wait for each other
            for _ in range(rng.randint(1, 6)):
                t = rng.choice(tags); b = (t * 7 + ph) % n; a = rng.choice([x for x in range(n) if x != b])
                plan.append((a, b, t, rng.choice([0, 1, 2, 3])))
        else:
            for _ in range(rng.randint(2, 9)):
                a, b = rng.sample(range(n), 2)
                plan.append((a, b, rng.choice(tags), rng.choice([0, 1, 1, 2, 4, 7])))
                if mode == 'shuffle' and rng.random() < 0.1: plan.append((a, a, rng.choice(tags), 1))   # to itself
        if mode == 'shuffle':  # all sends first (buffered), then the receives in an order that respects each channel
            for a, b, t, z in plan: P.at(a, 'snd t=%d tag=%d n=%d v=%d' % (b, t, z, val)); val += z + 1
            for b in range(n):
                chans = {}
                for a, bb, t, z in plan:
                    if bb == b: chans.setdefault((a, t), []).append(z)
                while chans:
                    k = rng.choice(sorted(chans)); z = chans[k].pop(0)
                    if not chans[k]: del chans[k]
                    P.at(b, 'rcv t=%d tag=%d n=%d nolen=%d%s' % (k[0], k[1], z + (e := rng.choice([0, 0, 1, 5])), rng.random() < 0.2, rla(z + e)))
        else:
            mx = max([z for _, _, _, z in plan] + [0])
            for a, b, t, z in plan:
                P.at(a, 'snd t=%d tag=%d n=%d v=%d' % (b, t, z, val)); val += z + 1
                if mode == 'any': P.at(b, 'rcvany t=0 tag=%d n=%d nolen=%d%s' % (t, mx + (e := rng.choice([0, 2])), rng.random() < 0.2, rla(mx + e)))
                else: P.at(b, 'rcv t=%d tag=%d n=%d nolen=%d%s' % (a, t, z + (e := rng.choice([0, 0, 1, 5])), rng.random() < 0.2, rla(z + e)))
                if rng.random() < 0.15: P.at(rng.choice([a, b]), 'yield n=%d' % rng.randint(1, 5))
        if rng.random() < 0.6: P.bar(rng.choice('AM'))
        elif mode == 'any' or send: P.bar('M')
    if glob: P.finish()
    else: P.bar('M'); P.all('finalize'); P.all('mpifin')
    return job('pp%d' % i, P, rng, env=renv(rng, ['ARMCI_SHR_BUF_METHOD'], 0.4), lc=0, send=send)

def gen_barrier(rng, i, tier):
    n = procs(rng, [1, 2, 3, 4, 5, 6]); P = Prog(rng, n); P.init(dflt=True)
    noncol = rng.random() < 0.3
    groups = mkgroups(rng, P, rng.randint(0, 4), noncol, split=False)
    al = rng.random() < 0.5
    if al: P.malloc(0, 'i', [4] * n); P.bar()
    for _ in range(rng.randint(4, 14)):
        g = rng.choice(list(groups) + [0])
        for r in groups[g]:
            if rng.random() < 0.25: P.at(r, 'yield n=%d' % rng.randint(1, 12))
            if al and rng.random() < 0.15:
                c = transfer(rng, P, rng.choice(['put', 'acc', 'get']), rng.randint(0, n - 1), 0)
                if c: P.at(r, c)
        if g: 
            for r in groups[g]: P.at(r, 'bar k=G g=%d' % g)
        else: P.bar(rng.choice('AMAMM'))
    if rng.random() < 0.3: # groups that do not meet any more: many barriers of one without the other
        for g in groups:
            if g and rng.random() < 0.7:
                for _ in range(rng.randint(1, 4)):
                    for r in groups[g]: P.at(r, 'bar k=G g=%d' % g)
    if al: P.finish(fin=False)
    freegroups(rng, P, groups)
    P.all('finalize'); P.all('mpifin')
    env = renv(rng, ['ARMCI_MSG_BARRIER_SYNCS', 'ARMCI_CACHE_RANK_TRANSLATION'], 0.5); env['ARMCI_NONCOLLECTIVE_GROUPS'] = str(int(noncol))
    return job('ba%d' % i, P, rng, env=env, lc=0)

# ------------------------------------------------------------------ put with flag (P17), direct access (P18)
def gen_flag(rng, i, tier):
    n = rng.choice([2, 2, 3, 4]); P = Prog(rng, n); P.init(dflt=True)
    ty = rng.choice('iildfb'); same = ty == 'i' and rng.random() < 0.5
    P.malloc(0, ty, [24 if same else rng.choice([16, 30])] * n)
    if not same: P.malloc(1, 'i', [8] * n)
    P.bar()
    F = 0 if same else 1
    fl = {t: list(range(16, 24)) if same else list(range(8)) for t in range(n)}
    full = P.al[0]; view = dict(full, n={r: 16 if same else full['n'][r] for r in range(n)})
    for ph in range(rng.choice([1, 2])):
        polls = {r: [] for r in range(n)}
        seq = []
        for r in range(n):
            for _ in range(rng.randint(0, 3)):
                t = rng.randint(0, n - 1)
                if not fl[t]: continue
                c0 = rng.choice(fl[t]); fl[t].remove(c0)
                P.al[0] = view; P.al[F].setdefault('flags', {}) if F in P.al else None
                P.al[F]['flags'] = {t: [c0]}
                c = transfer(rng, P, rng.choice(['putpf', 'putpsf']), t, 0)
                P.al[0] = full
                if not c: continue
                fv = int(c.split(' fv=')[1].split()[0])
                P.at(r, c); 
                if t != r: polls[t].append((c0, fv))
                if rng.random() < 0.3: P.at(r, 'yield n=2')
                if rng.random() < 0.2:
                    P.al[0] = view; c = transfer(rng, P, rng.choice(['put', 'puts', 'get', 'gets']), rng.randint(0, n - 1), 0); P.al[0] = full
                    if c: P.at(r, c)
        for r in range(n):
            rng.shuffle(polls[r])
            for c0, fv in polls[r]:
                P.at(r, 'poll A=%d c=%d v=%d' % (F, c0, fv)); P.at(r, 'ld A=0 c=0 n=%d dla=0' % view['n'][r])
        P.bar()
    P.finish()
    env = renv(rng, XFER + COMPL, 0.3)
    return job('fl%d' % i, P, rng, env=env, lc=0, order=rng.choice([0, 1]), net=rng.choice([0, 2, 2, 2]), sched=rng.choice([0, 0, 1, 3]))   # polling needs a fair schedule

def gen_direct(rng, i, tier):
    n = rng.choice([1, 2, 3, 4]); P = Prog(rng, n); P.init(dflt=True); na = rng.choice([1, 2, 3])
    groups = mkgroups(rng, P, rng.choice([0, 0, 0, 1, 2]), False, split=False)
    for A in range(na):
        g = rng.choice(list(groups))
        P.malloc(A, rng.choice('iildfb'), [rng.choice([0, 4, 8, 10])if rng.random() < 0.3 else 8 for _ in groups[g]], mem=groups[g], g=g if g else -1)
    P.bar()
    # windows whose memory has a private and a public copy: nothing is visible without synchronization
    sep = rng.random() < 0.45; sync = 'A'; ws = sep and rng.random() < 0.55     # ws: message barriers synchronize the memory
    if ws and rng.random() < 0.5: P.all('gdup G=8 P=0'); M = 'G g=8'
    else: M = 'M'
    for ph in range(rng.choice([2, 3])):
        synced = sep and not ws and ph > 0 and sync == 'M'; bk = rng.choice('AM' + 'M' * ws); pub = ws and bk == 'M'
        for r in range(n):       # direct accesses, some inside access epochs that are open already
            own = [A for A in P.al if P.al[A]['n'].get(r, 0)]; open_ = []; oset = set()
            if own and rng.random() < 0.4:
                for _ in range(rng.choice([1, 2, 2, 3])): A = rng.choice(own); oset.add(A); open_.append('A=%d c=%d' % (A, rng.randint(0, P.al[A]['n'][r] - 1)))
            for o in open_: P.at(r, 'opn ' + o)
            rng.shuffle(open_)
            fresh = {A: set() for A in P.al}        # stored and not yet published
            for _ in range(rng.randint(0, 5 if oset else 4)):
                A = rng.choice(list(oset) if oset and rng.random() < 0.6 else list(P.al)); z = P.al[A]['n'].get(r, 0)
                if not z: continue
                c = rng.randint(0, z - 1); k = rng.randint(1, z - c); cs = set(range(c, c + k))
                bare = (A in oset or pub) and rng.random() < 0.6 and not cs & fresh[A]
                if not bare and (A in oset or pub): fresh[A] = set()
                if rng.random() < 0.5:
                    if bare: fresh[A] |= cs
                    P.at(r, 'st A=%d c=%d n=%d v=%d dla=%d' % (A, c, k, rng.randint(1, 40) if P.al[A]['ty'] == 'b' else rng.randint(1, 4000), not bare))
                else: P.at(r, 'ld A=%d c=%d n=%d dla=%d' % (A, c, k, not bare if A in oset or pub else synced or rng.random() < 0.7))
            for o in open_: P.at(r, 'cls ' + o)
        P.bar((bk if bk == 'A' else M) if sep else 'A')
        memprog(rng, P, dict(put=2, get=3, acc=1, puts=1, gets=2, rmw=1, wait=1), phases=1, per=4, nb=0.3, noself=sep, sync='')
        sync = rng.choice('AM') if sep else 'A'
        if sync == 'M': P.all('fence')
        P.bar(sync if sync == 'A' else M)
    P.finish()
    env = renv(rng, ['ARMCI_USE_WIN_ALLOCATE', 'ARMCI_MSG_BARRIER_SYNCS', 'ARMCI_RMA_NOCHECK', 'ARMCI_STRIDED_METHOD', 'ARMCI_RMA_ATOMICITY'], 0.4)
    if ws: env['ARMCI_MSG_BARRIER_SYNCS'] = '1'
    return job('di%d' % i, P, rng, env=env, lc=0, unified=2 if sep else rng.randint(0, 1))

# ------------------------------------------------------------------ life cycle of the library (P19)
def gen_life(rng, i, tier):
    n = rng.choice([1, 2, 3, 4]); P = Prog(rng, n); lv = rng.choice([0, 1, 2, 3, 3])
    P.lines = []; P.all('mpiinit lv=%d' % lv)
    A = 0; g = 1; skip = []
    comm = rng.choice(['world', 'world', 'perm', 'sub']) if n > 1 else 'world'
    extra = 0; np = 0
    P.all('inited')
    N = n
    if comm == 'sub':      # only some processes belong to the library's world; the others call nothing
        extra = 1; 
    for cyc in range(rng.choice([1, 1, 2, 3])):
        depth = 0
        kinds = ['plain', 'args', 'mpi'] + (['thread', 'threadcomm'] if True else [])
        if comm == 'perm':
            # the new ids: by key, ties by the old id (the first cycle permutes the ids of MPI_COMM_WORLD)
            if cyc: break
            keys = [rng.randint(0, 3) for _ in range(n)]
            order = sorted(range(n), key=lambda r: (keys[r], r)); new = {r: order.index(r) for r in range(n)}
            for r in range(n): P.at(r, 'init k=perm key=%d me=%d' % (keys[r], new[r]))
            depth = 1
        else:
            k = rng.choice(kinds); th = rng.randint(0, lv)
            P.all('init k=%s th=%d' % (k, th)); depth = 1
        for step in range(rng.randint(1, 6)):
            q = rng.random()
            if q < 0.2 and comm == 'world' : P.all('init k=%s th=%d' % (rng.choice(kinds), rng.randint(0, lv))); depth += 1
            elif q < 0.35 and depth > 1: P.all('finalize last=0'); depth -= 1
            elif q < 0.5: P.malloc(A, rng.choice('ild'), [rng.choice([0, 3, 6]) for _ in range(n)]); A += 1; P.bar()
            elif q < 0.6:
                mem = rng.sample(range(n), rng.randint(1, n)); P.all('gcreate G=%d mem=%s' % (g, cs(mem))); 
                if rng.random() < 0.5:
                    P.malloc(A, 'i', [4] * len(mem), mem=mem, g=g); A += 1; P.bar()
                g = g % 25 + 1
            elif q < 0.75 and P.al: memprog(rng, P, dict(put=2, get=2, acc=1, puts=1), phases=1, per=2, nb=0.2)
            elif q < 0.8: P.all('topo')
            elif q < 0.85: P.all('bcast api=b n=2 root=%d v=3' % rng.randint(0, n - 1))
            else: P.all('inited')
        P.bar()
        if rng.random() < 0.5:
            for a in list(P.al): P.free(a)
        while depth > 1:
            P.all('finalize last=0'); P.all('inited'); depth -= 1
        P.all('cleanup' if rng.random() < 0.2 else 'inited'); P.all('inited'); P.all('finalize'); P.all('inited'); P.al = {}
        if rng.random() < 0.2: P.all('finalize last=0'); P.all('inited')
    if comm == 'sub':
        pass
    P.all('mpifin')
    env = renv(rng, ['ARMCI_USE_WIN_ALLOCATE', 'ARMCI_NONCOLLECTIVE_GROUPS' if False else 'ARMCI_CACHE_RANK_TRANSLATION', 'ARMCI_DEBUG_ALLOC', 'ARMCI_VERBOSE'], 0.3)
    if rng.random() < 0.3: env.update(ARMCI_PROGRESS_THREAD='1', ARMCI_PROGRESS_USLEEP=rng.choice(['0', '5', '-7']))     # runs only at MPI_THREAD_MULTIPLE
    o = dict(sched=rng.choice([0, 1, 3])) if env.get('ARMCI_PROGRESS_THREAD') and lv == 3 else {}
    return job('li%d' % i, P, rng, env=env, lc=0, **o)

def gen_subcomm(rng, i, tier):
    """the library runs on a part of MPI_COMM_WORLD"""
    tot = rng.choice([2, 3, 4, 5]); n = rng.randint(1, tot - 1)
    inside = sorted(rng.sample(range(tot), n)); P = Prog(rng, n); P.lines = []
    P.all('mpiinit lv=3')
    pre = ['* mpiinit lv=3']
    for new, r in enumerate(inside): pre.append('%d init k=sub color=0 me=%d' % (r, new))
    for r in range(tot):
        if r not in inside: pre.append('%d skip' % r)
    P.lines = []
    mem = list(range(n))
    for A in range(rng.choice([1, 2])): P.malloc(A, rng.choice('ild'), [rng.choice([4, 8]) for _ in mem])
    P.bar()
    memprog(rng, P, dict(put=2, get=2, acc=1, puts=1, rmw=1, fence=1), phases=2, per=3, nb=0.3)
    P.all('topo')
    P.finish(fin=False)
    P.all('finalize')
    # commands of outside processes: none.  '*' means the members here; ids above n never occur as members
    body = []
    for l in P.lines:
        if l.startswith('* '):
            body += ['%d%s' % (r, l[1:]) for r in range(n)]
        else: body.append(l)
    # outside processes keep their ids >= 100 so that no command of a member is theirs
    j = Job('sc%d' % i, tot, pre + body + ['%d mpifin' % r for r in range(n)] + ['%d mpifin' % (100 + r) for r in range(tot)], env={}, lc=0, variant=variant(rng), **dict(rcfg(rng)))
    j.np = n
    return j

# ------------------------------------------------------------------ topology (P24) and packing (P25)
def gen_topo(rng, i, tier):
    n = 1 + i % 8 if i % 3 else rng.randint(9, 40); P = Prog(rng, n); P.init(dflt=True)
    P.all('topo')
    for r in range(n): P.at(r, 'yield n=%d' % rng.randint(1, 4))
    P.all('bintree s=a')
    P.all('bintree s=n'); P.all('topo')
    if rng.random() < 0.5: P.all('bintree s=m')
    P.all('finalize'); P.all('mpifin')
    return job('to%d' % i, P, rng, env=renv(rng, ['ARMCI_CACHE_RANK_TRANSLATION'], .5), lc=0)

def gen_pack(rng, i, tier):
    P = Prog(rng, 1); P.init()
    for _ in range(12):
        L = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7])
        while True:
            cnt = [rng.randint(1, 6)] + [rng.choice([1, 1, 2, 2, 3, 4]) for _ in range(L)]
            p = 1
            for x in cnt: p *= x
            if p <= 96: break
        st = strides(rng, cnt, tight=rng.choice([0, 0.4, 1]), ragged=rng.random() < 0.4)
        if rng.random() < 0.2 and L: st = [x * 2 for x in st]
        if any(x < cnt[0] for x in st): continue
        need = span(cnt, st)
        if need > 600: continue
        lo = rng.randint(0, 3)
        P.at(0, '%s cnt=%s st=%s lo=%d ext=%d' % (rng.choice(['packs', 'unpacks']), cs(cnt), cs(st), lo, lo + need + rng.randint(0, 3)))
    P.at(0, 'copy n=%d' % rng.randint(0, 290))
    P.all('finalize'); P.all('mpifin')
    return job('pk%d' % i, P, rng, lc=0)

# ------------------------------------------------------------------ everything under every configuration (P20)
WEIRD = ['', '-1', 'abc', '0', '1', 'no', 'yes', 'T', 'F', 'N', 'Y', 'true', 'false', '7', '100000', 'DIRECT', 'direct', ' ', '2147483647']
STRICT = {'ARMCI_VERBOSE', 'ARMCI_RMA_ORDERING'}

def wideenv(rng):
    env = renv(rng, sorted(ENV), rng.choice([0.2, 0.5, 0.8]))
    for k in sorted(ENV):
        if rng.random() < 0.05 and k not in STRICT and k not in ('ARMCI_NONCOLLECTIVE_GROUPS', 'ARMCI_RMA_ATOMICITY', 'ARMCI_NO_FLUSH_LOCAL'): env[k] = rng.choice(WEIRD)
    for k in ('ARMCI_IOV_BATCHED_LIMIT', 'ARMCI_IOV_DTYPE_CHUNK', 'ARMCI_ACCUMULATE_GRANULARITY'):
        if rng.random() < 0.04: env[k] = rng.choice(['-1', '-3', '-2147483648'])
    if rng.random() < 0.1: env['ARMCI_SHM_LIMIT'] = rng.choice(['0', '1000000', ''])
    if rng.random() < 0.1: env['ARMCI_FLUSH_BARRIERS'] = rng.choice(['0', '1', ''])
    if env.get('ARMCI_VERBOSE') == '1' and rng.random() < 0.5: env.pop('ARMCI_VERBOSE')
    return env

def gen_config(rng, i, tier):
    n = procs(rng, [2, 3, 4]); P = Prog(rng, n); P.init(dflt=True)
    env = wideenv(rng); noncol = env.get('ARMCI_NONCOLLECTIVE_GROUPS') == '1'
    checks = env.get('ARMCI_IOV_CHECKS') == '1'
    groups = mkgroups(rng, P, rng.choice([0, 1, 2]), noncol, split=False)
    for A in range(rng.randint(1, 3)):
        g = rng.choice(list(groups))
        P.malloc(A, rng.choice('iildfbo'), [rng.choice([0, 6, 12, 12]) for _ in groups[g]], mem=groups[g], g=g if g else -1)
    mtx = rng.random() < 0.35
    if mtx: P.all('mcreate n=1')
    if rng.random() < 0.15: P.all('shm v=%s' % rng.choice(['0', '1', '1000', '-1']))
    P.bar()
    for ph in range(2):
        cross = list(P.al) if checks and rng.random() < 0.5 else None
        memprog(rng, P, dict(put=2, get=2, acc=2, puts=2, gets=2, accs=2, putv=2, getv=2, accv=2, putu=1, getu=1, rmw=2, fence=1, wait=2), phases=1, per=5, nb=0.4, overlap=checks, ragged=rng.random() < 0.2)
        if mtx:
            for r in range(n):
                if rng.random() < 0.7: crit(P, rng, r, 0, rng.randint(0, n - 1))
        q = rng.random()
        if q < 0.3: gop(rng, P, range(n), 0, 'a', 't')
        elif q < 0.5:
            a, b = rng.sample(range(n), 2); v = rng.randint(1, 99)
            P.at(a, 'snd t=%d tag=3 n=3 v=%d' % (b, v)); P.at(b, 'rcv t=%d tag=3 n=4' % a)
        elif q < 0.7:
            for g in groups:
                if g:
                    for r in groups[g]: P.at(r, 'bar k=G g=%d' % g)
        P.bar(rng.choice('AAM'))
    if mtx: P.bar(); P.all('mdestroy')
    P.finish(fin=False); freegroups(rng, P, groups); P.all('finalize'); P.all('mpifin')
    strong = env.get('ARMCI_RMA_ATOMICITY') == '1'
    return job('cf%d' % i, P, rng, env=env, lc=rng.choice([0, 1]), order=1, var=rng.choice([None, None, None, None, None, 'noweak', 'nobelts']))

# ------------------------------------------------------------------ accesses outside allocations (P21)
def gen_bounds(rng, i, tier):
    n = rng.choice([2, 2, 3]); P = Prog(rng, n); P.init()
    isr = rng.random() < 0.15
    ty = rng.choice('io' if isr else 'iildfbo'); m = rng.choice(['past', 'past', 'past', 'before', 'freed', 'zero', 'nonmember', 'edge', 'gap'])
    sz = [rng.choice([6, 8, 10]) for _ in range(n)]
    t = rng.randint(0, n - 1); r = rng.randint(0, n - 1)
    if m == 'zero': sz[t] = 0
    if m == 'gap': sz[t] = 4        # a slice shorter than that of the others
    g = -1; mem = None
    if m == 'nonmember' and n > 1:
        mem = [x for x in range(n) if x != t]; sz = [8] * len(mem); r = rng.choice(mem)
        P.all('gcreate G=1 mem=%s' % cs(mem)); g = 1
    elif m == 'nonmember': m = 'past'
    guard = rng.random() < 0.5
    if guard and m != 'nonmember' and m != 'zero': P.malloc(1, ty, [rng.choice([0, 4, 30]) for _ in range(n)])
    from gen import CS
    P.malloc(0, ty, sz, mem=mem, g=g, slack=rng.randint(0, CS[ty] - 1) if rng.random() < 0.6 else 0)
    if guard and m != 'nonmember' and m != 'zero': P.malloc(2, ty, [rng.choice([0, 4, 30]) for _ in range(n)])
    P.bar()
    if m not in ('zero', 'nonmember'): memprog(rng, P, dict(put=1, get=1, acc=1), phases=1, per=2, nb=0.0)
    size = P.al[0]['n'].get(t, 8)
    if m == 'freed':
        P.free(0)
        if rng.random() < 0.5: P.malloc(3, ty, [3] * n)
        P.bar(); P.al[0] = dict(ty=ty, mem=list(range(n)), n=dict(enumerate(sz)), g=-1)
    env = renv(rng, XFER + ATOM, 0.4)
    cnt = rng.randint(1, 4); at = acctype(rng, ty)
    if at in ('c', 'z'): at = ACC.get(ty)
    k = rng.choice(['put', 'get', 'acc', 'rmw', 'puts', 'gets', 'accs', 'putv', 'getv', 'accv', 'putu', 'getu', 'acc'])
    if isr: k = 'rmw'
    if k[:3] == 'acc' and not at: k = 'put' + k[3:]
    if k == 'rmw' and ty not in 'io': k = 'put'
    if k in ('putu', 'getu') and ty == 'b': k = 'put'
    ex = ' pt=%d' % mem[0] if m == 'nonmember' else ''
    nb = 1 if rng.random() < 0.3 else 0
    if m in ('past', 'edge', 'gap'):
        first = size - rng.randint(0, cnt - 1) if m != 'edge' else size          # first invalid range: ends at least one cell past the end
        if m == 'gap': first = size + rng.randint(0, 1)
        if k in ('rmw', 'putu', 'getu'): first = size
    elif m == 'before': first = -rng.randint(1, cnt)
    else: first = rng.randint(0, 2)
    if m == 'past' and rng.random() < .3: first = size + rng.randint(0, 3)
    if m == 'zero' : first = 0
    # partial strides: only the last row is outside
    n_in = P.contig
    try:
        if k == 'rmw': c = 'rmw op=%s A=0 t=%d c=%d v=%d%s' % (rng.choice(['fadd', 'swap']), t, first if m != 'past' else max(first, size), 8192 * 400, ex)
        elif k in ('putu', 'getu'): c = 'x op=%s f=u t=%d A=0 ro=%d cnt=1 lo=0 ext=1 ty=%s v=%d%s' % (k[:3], t, first, ty, 8192 * 400, ex)
        elif k in ('put', 'get', 'acc'):
            if first + cnt <= size and m == 'past': cnt = size - first + 1
            c = P.contig(k, t, 0, first, cnt, at=at, nb=nb) + ex
        elif k[3:] == 's':
            rows = rng.randint(1, 3); st = cnt + rng.randint(0, 2); tot = (rows - 1) * st + cnt
            ro = first if m not in ('past', 'edge', 'gap') else size + 1 - tot + rng.randint(0, cnt - 1)
            if ro < 0 and m in ('past', 'edge', 'gap'): ro = max(0, ro)
            if m == 'before': ro = -rng.randint(1, tot)
            if m in ('past', 'edge', 'gap') and ro + tot <= size: ro = size - tot + 1
            c = P.strided(k[:3], t, 0, ro, [cnt, rows], [st], 0, [cnt], rows * cnt, at=at, nb=nb) + ex
        else:
            segs = []; pos = 0; bad = rng.randint(0, 2)
            for q in range(3):
                if q == bad: rr = first if not (m == 'past' and first + cnt <= size) else size
                else: rr = 0 if m not in ('past', 'edge', 'before', 'gap') or size < cnt else q % 2 * max(0, min(cnt, size - cnt))
                if q == 2 and bad != 2 and m in ('past', 'edge', 'before', 'gap'): break
                segs.append((0, rr, pos)); pos += cnt
            c = P.vector(k[:3], t, 0, [(cnt, segs)], pos, at=at, nb=nb) + ex
    except Exhausted:
        return None
    P.at(r, c)
    if nb: P.at(r, 'waitall')
    P.bar(); P.all('finalize'); P.all('mpifin')
    # memory of different allocations may touch if the transfer starts inside one of them (what lies behind it is another one's then)
    adj = int(m == 'past' and k in ('put', 'get', 'acc') and first < size and rng.random() < 0.5)
    j = job('bo%d' % i, P, rng, env=env, lc=0, adj=adj, **(dict(reuse=0) if m == 'freed' else {}))
    # cells of many bytes: only where no part of the transfer starts in what may be other memory
    j.narrow = not (k in ('put', 'get', 'acc', 'rmw', 'putu', 'getu') and m in ('past', 'edge') and first <= size)
    return j

# ------------------------------------------------------------------ threads (P27)
def gen_threads(rng, i, tier):
    n = rng.choice([1, 2, 2, 3]); P = Prog(rng, n); P.init('thread th=3'); nt = rng.choice([2, 2, 3])
    for A in range(rng.choice([1, 2])): P.malloc(A, rng.choice('iildof'), [rng.choice([6, 10])] * n)
    mtx = rng.random() < 0.3; who = [rng.randint(0, nt - 1) for _ in range(n)]    # one thread of each process uses the mutexes
    if mtx: P.all('mcreate n=1')
    KS = ['put', 'get', 'acc', 'puts', 'gets', 'accs', 'putv', 'getv', 'accv', 'putu', 'getu', 'getu']
    hot = KS if rng.random() < 0.5 else rng.sample(KS, rng.choice([1, 1, 2])); few = hot is not KS     # often the threads are inside the same function
    P.bar()
    for ph in range(2):
        for r in range(n):
            for th in range(1, nt): P.at(r, 'spawn th=%d' % th) if ph == 0 else None
        break
    for r in range(n):
        for th in range(nt):
            hin = set()
            for _ in range(rng.randint(1, 5) + 2 * few):
                A = rng.choice(list(P.al)); t = rng.randint(0, n - 1); q = rng.random()
                if mtx and who[r] == th and q < 0.4:
                    m = rng.randint(0, n - 1); P.at(r, 'lock m=0 t=%d' % m, th); P.at(r, 'yield n=%d' % rng.randint(1, 5), th); P.at(r, 'unlock m=0 t=%d' % m, th); continue
                if q < (0.05 if few else 0.3) and P.al[A]['ty'] in 'io': P.at(r, rmwcmd(rng, P, t, A), th); continue
                if not few and q < 0.38: P.at(r, 'fence' + (' t=%d' % t if rng.random() < .5 else ''), th); continue
                nb = 1 if rng.random() < 0.4 else 0
                k = rng.choice(hot)
                if k == 'getu': nb = 0
                h = th * 4 + rng.randint(0, 1) if nb else -1
                c = transfer(rng, P, k, t, A, nb=nb, h=h)
                if not c: continue
                if nb and h not in hin: P.at(r, 'hinit h=%d' % h, th); hin.add(h)
                P.at(r, c, th)
                if nb and rng.random() < 0.7: P.at(r, 'wait h=%d' % h, th)
            for h in sorted(hin): P.at(r, 'wait h=%d' % h, th)
        for th in range(1, nt): P.at(r, 'join th=%d' % th)
    P.bar()
    if mtx: P.all('mdestroy')
    P.finish()
    env = renv(rng, XFER + ATOM + ['ARMCI_SHR_BUF_METHOD'], 0.3)
    if rng.random() < 0.3: env['ARMCI_PROGRESS_THREAD'] = '1'
    if rng.random() < 0.2: env['ARMCI_PROGRESS_USLEEP'] = '10'
    o = dict(sched=rng.choice([0, 0, 1, 3])) if 'ARMCI_PROGRESS_THREAD' in env else {}
    o['acc'] = rng.choice([0, 1, 1, 1, 1, 4])
    return job('th%d' % i, P, rng, env=env, lc=0, **o)

def gen_progress(rng, i, tier):
    """ordinary programs with the progress thread running"""
    n = rng.choice([1, 2, 3]); P = Prog(rng, n); P.init('thread th=3' if rng.random() < 0.5 else 'plain')
    for A in range(2): P.malloc(A, rng.choice('iildo'), [rng.choice([4, 8])] * n)
    P.bar()
    memprog(rng, P, dict(put=2, get=2, acc=1, puts=1, rmw=1, wait=1, fence=1), phases=2, per=4, nb=0.4)
    P.finish()
    env = renv(rng, XFER + COMPL, 0.2); env['ARMCI_PROGRESS_THREAD'] = '1'; env['ARMCI_PROGRESS_USLEEP'] = '5' if env.get('ARMCI_EXPLICIT_NB_PROGRESS') == '0' else rng.choice(['0', '5', '100', '-20'])
    return job('pr%d' % i, P, rng, env=env, lc=0, sched=rng.choice([0, 0, 1, 3]))

# ------------------------------------------------------------------ the conflict tree (P22)
def treejob(id, seqs):
    P = Prog(random.Random(1), 1)
    for s in seqs: P.at(0, 'ct ops=' + s)
    return job(id, P, random.Random(1), lc=0)

def fixed_ctree():
    """every insertion order of 6 points; every sequence of 3 intervals over 0..4 with every locate"""
    import itertools
    seqs = [';'.join('i:%d:%d' % (3 * x, 3 * x + 1) for x in p) + ';w;d' for p in itertools.permutations(range(6))]
    iv = [(a, b) for a in range(5) for b in range(a, 5)]
    for t in itertools.product(iv, repeat=2):
        seqs.append(';'.join('i:%d:%d' % x for x in t) + ';' + ';'.join('l:%d:%d' % x for x in iv) + ';w;d')
    return [treejob('cx%d' % k, seqs[k:k + 60]) for k in range(0, len(seqs), 60)]

def gen_ctree(rng, i, tier):
    seqs = []
    for _ in range(4):
        n = rng.choice([5, 10, 20, 40, 60]); U = rng.choice([2 * n, 4 * n, 20 * n]); w = rng.choice([0, 1, 4, U // 4])
        off = 0; b = rng.randint(0, 3)
        if b in (1, 3): off = -rng.choice([0, U // 2, U])
        o = ['b:%d' % b, 'n']; order = rng.choice(['rand', 'up', 'down', 'zig', 'mid'])
        los = [rng.randint(0, U) for _ in range(n)]
        if order == 'up': los.sort()
        elif order == 'down': los.sort(reverse=True)
        elif order == 'zig': los.sort(); los = [los[k // 2] if k % 2 == 0 else los[-1 - k // 2] for k in range(n)]
        elif order == 'mid': los.sort(key=lambda x: abs(x - U // 2))
        for k, lo in enumerate(los):
            o.append('i:%d:%d' % (off + lo, off + lo + rng.randint(0, w)))
            if rng.random() < 0.3: x = rng.randint(-3, U + 3); o.append('l:%d:%d' % (off + x, off + x + rng.randint(0, w + 2)))
            if rng.random() < 0.25: o.append('w')
        o.append('w')
        for _ in range(6): x = rng.randint(-3, U + 3); o.append('l:%d:%d' % (off + x, off + x + rng.randint(0, U)))
        o.append('d')
        for _ in range(3):
            m = rng.randint(1, 12); s = rng.randint(1, 6); q = rng.choice([lambda: rng.randint(0, m * s * 3), lambda: rng.randint(0, m * 2) * s])
            if rng.random() < 0.5: ps = [off + k * s for k in range(m)]; rng.shuffle(ps)
            else: ps = [off + q() for _ in range(m)]
            if rng.random() < 0.3 and m > 1: ps[rng.randint(0, m - 1)] += rng.choice([-1, 1])
            o.append('o:%d:' % s + ':'.join(map(str, ps)))
        seqs.append(';'.join(o))
    return treejob('ct%d' % i, seqs)

# ------------------------------------------------------------------ resources (P29)
CHURN = ([('x', op + f, nb, loc, m) for op in ('put', 'get', 'acc') for f, ms in (('', ['']), ('u', ['']), ('s', ['DIRECT', 'IOV:CONSRV', 'IOV:BATCHED', 'IOV:DIRECT']), ('v', [':CONSRV', ':BATCHED', ':DIRECT', ':AUTO', 'o']))
          for m in ms for nb in (0, 1) for loc in ('p', 'g') if not (f == 'u' and (op == 'acc' or loc == 'g' or (op == 'get' and nb)))]
         + [(k,) for k in ('rmw', 'rmw', 'alloc', 'alloc', 'allocg', 'group', 'group', 'noncoll', 'noncoll', 'nested', 'default', 'mutex', 'mutex', 'gmutex', 'lock', 'gop', 'bcast', 'sel',
                           'gcoll', 'msg', 'pack', 'init', 'init', 'flag', 'mixnb', 'fence', 'mlocal', 'topo', 'notify', 'xg', 'xg')])
def collect(rng, P, r, st):
    """completes every handle with a wait or a successful test of its own: requests of a handle are held until then"""
    for h in st.open: P.at(r, rng.choice(['wait h=%d', 'test h=%d max=300', 'wait h=%d']) % h)
    if rng.random() < 0.3 or not st.open: P.at(r, 'waitall')
    st.open = {}; st.n = 0

def gen_churn(rng, i, tier):
    """the same objects made and released, or the same operation issued, many times; then what the process holds is looked at"""
    first = i < len(CHURN); what = CHURN[i * 71 % len(CHURN)]     # every entry once, then again
    k = what[0]; N = rng.choice([50, 60, 70]); n = rng.choice([2, 2, 3]) if k != 'nested' else rng.choice([3, 4])
    P = Prog(rng, n); env = {}
    lv = 3
    if k != 'init': P.init(); 
    if k in ('x', 'rmw', 'lock', 'flag', 'mixnb', 'fence'):
        ty = rng.choice('iid') if k == 'x' else 'i'
        P.malloc(0, ty, [10] * n)
        if k == 'x' and what[3] == 'g' or k == 'mixnb': P.malloc(1, ty, [10] * n)
        P.bar()
    P.all('res')
    r = rng.randint(0, n - 1); t = rng.choice([x for x in range(n) if x != r] if rng.random() < (0.95 if first else 0.7) else [r])
    if k == 'x':
        nb = what[2]; la = 1 if what[3] == 'g' else -1; h = rng.choice([-1, 0, 0]); st = Rank()
        env = renv(rng, ['ARMCI_STRIDED_METHOD', 'ARMCI_IOV_METHOD', 'ARMCI_SHR_BUF_METHOD', 'ARMCI_IOV_CHECKS', 'ARMCI_IOV_BATCHED_LIMIT', 'ARMCI_RMA_ATOMICITY', 'ARMCI_NO_FLUSH_LOCAL', 'ARMCI_EXPLICIT_NB_PROGRESS'], 0.5)
        if first and la >= 0 and rng.random() < 0.8: env['ARMCI_SHR_BUF_METHOD'] = 'COPY'
        if what[4]:
            sm, _, im = what[4].partition(':')
            if sm and sm != 'o': env['ARMCI_STRIDED_METHOD'] = sm
            if im: env['ARMCI_IOV_METHOD'] = im
            if what[4] == 'o': env['ARMCI_IOV_CHECKS'] = '1'
        for _ in range(N):
            c = transfer(rng, P, what[1], t, 0, nb=nb, h=h if nb else -1, la=la, lsize=10 if la >= 0 else None, maxl=2, bufopts=False, overlap=what[4] == 'o' and what[1][:3] != 'put')
            if not c: continue
            if nb: nb_before(rng, P, r, st, 1, h)
            P.at(r, c)
            if nb: 
                if rng.random() < 0.9: collect(rng, P, r, st)
            if rng.random() < (0.75 if la >= 0 and what[1][:3] == 'put' else 0.5 if what[1][:3] == 'acc' else 0.1): P.at(r, 'fence')
        if nb: collect(rng, P, r, st); P.at(r, 'waitall')
        P.bar()
    elif k == 'rmw':
        env = renv(rng, ['ARMCI_RMA_ATOMICITY', 'ARMCI_USE_REQUEST_ATOMICS', 'ARMCI_FLUSH_REQUEST_ATOMICS'], 0.5)
        for _ in range(2 * N): P.at(r, rmwcmd(rng, P, t, 0))
        P.bar()
    elif k == 'mixnb':
        st = Rank()
        for q in range(N):
            for _ in range(rng.randint(1, 3)):
                h = rng.choice([-1, 0, 1, 2]); c = transfer(rng, P, rng.choice(['get', 'get', 'acc', 'put', 'gets', 'accs', 'getv', 'accv']), rng.randint(0, n - 1), 0, nb=1, h=h, maxl=1, bufopts=False)
                if c: nb_before(rng, P, r, st, 1, h); P.at(r, c)
            if rng.random() < 0.6: collect(rng, P, r, st); P.at(r, 'fence')
        collect(rng, P, r, st); P.at(r, 'waitall'); P.bar()
    elif k == 'fence':
        for _ in range(N):
            c = transfer(rng, P, rng.choice(['acc', 'put', 'get']), rng.randint(0, n - 1), 0, bufopts=False)
            if c: P.at(r, c)
            P.at(r, rng.choice(['fence', 'fence t=%d' % rng.randint(0, n - 1)]))
        for _ in range(20): P.bar()
    elif k == 'flag':
        P.al[0]['flags'] = {}
        for q in range(N):
            if P.val > 480: break
            P.at(r, 'x op=put f=pf t=%d A=0 ro=%d cnt=1 lo=0 ty=i ext=1 v=%d vs=1 fa=0 fc=%d fv=%d' % (t, rng.randint(0, 3), P.fresh(), rng.randint(4, 9), P.fresh()))
        P.bar()
    elif k == 'xg':
        env = renv(rng, ['ARMCI_RMA_ATOMICITY'], 0.5); env['ARMCI_CACHE_RANK_TRANSLATION'] = '0'
        mem = sorted(rng.sample(range(n), rng.randint(1, n))); P.all('gcreate G=1 mem=%s' % cs(mem)); P.malloc(2, 'i', [10] * len(mem), mem=mem, g=1); P.bar(); r = rng.choice(mem)
        for _ in range(N):
            c = transfer(rng, P, rng.choice(['get', 'acc', 'gets', 'accv']), rng.choice(mem), 2, bufopts=False, maxl=1)
            if c: P.at(r, c)
            if rng.random() < 0.3: P.at(r, 'fence')
            if rng.random() < 0.1 and r in mem: P.at(r, 'ld A=2 c=0 n=2')
        P.bar(); P.free(2)
        for x in mem: P.at(x, 'gfree G=1')
        P.bar()
    elif k in ('alloc', 'allocg'):
        g = -1; mem = list(range(n))
        env = renv(rng, ['ARMCI_USE_WIN_ALLOCATE', 'ARMCI_DEBUG_ALLOC', 'ARMCI_USE_ALLOC_SHM', 'ARMCI_RMA_NOCHECK'], 0.5)
        if k == 'allocg':
            mem = sorted(rng.sample(range(n), rng.randint(1, n))); P.all('gcreate G=1 mem=%s' % cs(mem)); g = 1
        A = 2
        for q in range(N):
            z = [rng.choice([0, 1, 3, 8]) for _ in mem]
            if q % 9 == 8: z = [0] * len(mem)
            api = rng.choice(['', 'memdev']) if k == 'alloc' else ''
            P.malloc(A, 'i', z, mem=mem, g=g, api=api)
            if rng.random() < 0.1: P.malloc(A + 1, 'd', z[::-1], mem=mem, g=g)
            for a in list(P.al):
                if a >= 2 and rng.random() < 0.95: P.free(a, api=rng.choice(['', 'memdev']) if k == 'alloc' else '')
            A += 2
        for a in list(P.al): P.free(a)
        if k == 'allocg':
            for x in mem: P.at(x, 'gfree G=1')
        P.bar()
    elif k in ('group', 'noncoll', 'nested', 'default'):
        env['ARMCI_NONCOLLECTIVE_GROUPS'] = str(int(k == 'noncoll' or k in ('nested', 'default') and rng.random() < 0.5)); nc = env['ARMCI_NONCOLLECTIVE_GROUPS'] == '1'
        env.update(renv(rng, ['ARMCI_CACHE_RANK_TRANSLATION'], 0.5))
        full = list(range(n))
        for q in range(N // (2 if k == 'nested' else 1)):
            mem = rng.sample(full, rng.randint(1, n))
            if nc: mem.sort()
            if k == 'nested': mem = sorted(rng.sample(full, rng.randint(2, n)))
            for x in mem if nc else full:
                P.at(x, rng.choice(['gcreate G=1 mem=%s', 'gchild G=1 P=0 mem=%s']) % cs(mem) if k != 'default' else 'gcreate G=1 mem=%s' % cs(mem))
            if k == 'nested':
                kind = rng.choice(['child', 'dup', 'split', 'split']); m2 = sorted(rng.sample(range(len(mem)), rng.randint(1, len(mem)))); m2a = [mem[x] for x in m2]
                col = {x: rng.choice([0, 0, 1, -1]) for x in mem}
                for x in m2a if nc and kind == 'child' else mem:
                    P.at(x, {'child': 'gchild G=%d P=1 mem=%s' % (2 + q % 20, cs(m2)), 'dup': 'gdup G=%d P=1' % (2 + q % 20), 'split': 'gsplit G=%d P=1 color=%d key=%d' % (2 + q % 20, col[x], 0)}[kind])
                for x in {'child': m2a, 'dup': mem, 'split': [x for x in mem if col[x] >= 0]}[kind]: P.at(x, 'gfree G=%d' % (2 + q % 20))
            if k == 'default':
                for x in mem: P.at(x, 'gdef G=1'); P.at(x, 'ggetdef G=31')
                for x in mem: P.at(x, 'gdef G=0')
            for x in mem: P.at(x, 'gfree G=1')
        P.bar()
    elif k == 'mutex':
        for q in range(N):
            
            w = rng.randint(0, n - 1)
            for x in range(n): P.at(x, 'hmcreate H=1 g=0 n=%d' % (1 if x == w else rng.choice([0, 1, 2])))
            P.all('hmdestroy H=1')
        P.bar()
    elif k == 'gmutex':
        for q in range(N):
            
            w = rng.randint(0, n - 1)
            for x in range(n): P.at(x, 'mcreate n=%d' % (1 if x == w else rng.choice([0, 1, 2])))
            P.all('mdestroy')
        P.bar()
    elif k == 'lock':
        P.all('hmcreate H=1 g=0 n=1'); P.bar()
        for q in range(N):
            for x in ([r] if rng.random() < 0.5 else range(n)):
                P.at(x, 'lock H=1 m=0 t=%d' % t); P.at(x, 'unlock H=1 m=0 t=%d' % t)
        P.bar(); P.all('hmdestroy H=1')
    elif k in ('gop', 'bcast', 'sel', 'gcoll'):
        env = renv(rng, ['ARMCI_SHR_BUF_METHOD', 'ARMCI_MSG_BARRIER_SYNCS'], 0.5)
        if k == 'gcoll': P.malloc(2, 'i', [8] * n); P.bar(); env['ARMCI_SHR_BUF_METHOD'] = rng.choice(['COPY', 'NOGUARD'])
        for q in range(N):
            if k == 'gop': gop(rng, P, range(n), 0, rng.choice('am'), rng.choice('sx'))
            elif k == 'bcast': P.all('bcast api=%s n=2 root=%d v=%d' % (rng.choice('brs'), rng.randint(0, n - 1), q))
            elif k == 'sel':
                for x in range(n): P.at(x, 'sel op=%s ty=i contrib=1 v=%d np=1 pay=%d s=a api=%s' % (rng.choice(['min']), rng.randint(-4, 4), x, 's'))
            else:
                for x in range(n): P.at(x, 'st A=2 c=0 n=2 v=%d' % rng.randint(1, 9))
                if rng.random() < 0.5: P.all('bcast api=b n=2 root=%d la=2 lc=0' % rng.randint(0, n - 1))
                else: P.all('gop api=x op=+ ty=i v=0,0 g=0 s=a raw=1 la=2 lc=0')
        P.bar()
        if k == 'gcoll': P.free(2)
    elif k == 'msg':
        a, b = rng.sample(range(n), 2)
        for q in range(N): P.at(a, 'snd t=%d tag=%d n=1 v=%d' % (b, q % 3, q + 1)); P.at(b, 'rcv t=%d tag=%d n=2 nolen=0' % (a, q % 3)); P.all('bar k=M')
    elif k == 'notify':
        for q in range(N): P.all('bar k=M'); P.all('progress')
    elif k == 'pack':
        for q in range(N): P.at(r, rng.choice(['packs', 'unpacks']) + ' cnt=2,2 st=3 ext=8 lo=1')
    elif k == 'topo':
        for q in range(N): P.at(r, 'topo'); P.at(r, 'bintree s=a')
    elif k == 'mlocal':
        for q in range(N): P.at(r, 'mlocal B=1 n=%d' % rng.choice([1, 9, 40])); P.at(r, 'flocal B=1')
    elif k == 'init':
        kinds = ['plain', 'args', 'mpi', 'thread', 'threadcomm']; kk = rng.choice(kinds + [None])
        env = renv(rng, ['ARMCI_USE_WIN_ALLOCATE', 'ARMCI_NONCOLLECTIVE_GROUPS', 'ARMCI_PROGRESS_THREAD' if False else 'ARMCI_CACHE_RANK_TRANSLATION'], 0.4)
        for q in range(N):
            P.all('init k=%s th=%d' % (kk or rng.choice(kinds), lv))
            if rng.random() < 0.2: P.all('init k=plain'); P.all('finalize last=0')
            if rng.random() < 0.2: P.malloc(10 + q, 'i', [2] * n); P.bar(); P.free(10 + q) if rng.random() < 0.5 else P.al.pop(10 + q)
            P.all('finalize')
        P.all('res'); P.all('init k=plain')
    P.all('res')
    if k in ('x', 'rmw', 'lock', 'flag', 'mixnb', 'fence'):
        for a in list(P.al): P.free(a)
    P.all('res'); P.all('finalize'); P.all('res'); P.all('mpifin')
    return job('ch%d' % i, P, rng, env=env, lc=0)

RESIDUE = 'gen_alloc gen_groupmem gen_groups gen_fence gen_strided gen_vector gen_acc gen_rmw gen_handles gen_mutex gen_coll gen_p2p gen_globuf gen_contig gen_local gen_nb gen_flag gen_direct gen_config gen_life gen_barrier gen_threads gen_lc gen_many_segs'.split()
def gen_residue(rng, i, tier):
    """a program of another kind with every handle waited for; after the last finalize nothing may be left"""
    j = globals()[RESIDUE[i % len(RESIDUE)]](rng, i, tier)
    if not j: return None
    hs = {}
    for l in j.lines:
        w = l.split()
        for x in w[2:]:
            if x.startswith('h=') and w[1] in ('hinit', 'x'): hs.setdefault(w[0].split('.')[0], set()).add(x)
    out = []; k = max([q for q, l in enumerate(j.lines) if l.split()[1] == 'finalize'], default=None)
    if k is None: return None
    seen = set()
    for q, l in enumerate(j.lines):
        w = l.split()
        if w[1] in ('hinit', 'hagg', 'hunagg'):   # a handle is used again only after a wait
            h = next(x for x in w if x.startswith('h='))
            if (w[0], h) in seen: out.append('%s wait %s' % (w[0], h))
            seen.add((w[0], h))
        if q == k:
            for r in sorted(hs):
                for h in sorted(hs[r]):
                    if h != 'h=-1': out.append('%s wait %s' % (r, h))
            out += ['* waitall', '* drop']
        out.append(l)
        if q == k: out.append('* res')
    j.lines = out; j.id = 're' + j.id
    return j

# ------------------------------------------------------------------ forbidden calls (P30)
NOBELTS = ['lock', 'unlock', 'mdestroy', 'mcreate', 'init', 'rmw', 'gop', 'gtype', 'sel', 'accty', 'error', 'abort', 'reduce']   # reported even when assertions are compiled out
MISUSES = NOBELTS + ['lockidx', 'trylock', 'mzero', 'prealloc', 'free', 'access', 'accsz', 'bcast', 'absid', 'target', 'handle', 'address', 'hmisuse']
def gen_misuse(rng, i, tier, kind=None, hist=None):
    """an ordinary history, then one call that is forbidden in the state it leads to (by one process, or by all where the call is collective)"""
    var = rng.choice(['ompi4', 'ompi4', 'mpich', 'ompi5', 'noweak', 'nobelts'])
    k = kind or rng.choice(NOBELTS if var == 'nobelts' else MISUSES)
    if kind and kind not in NOBELTS and var == 'nobelts': var = 'ompi4'
    n = rng.choice([1, 2, 2, 3, 4]); P = Prog(rng, n); r = rng.randint(0, n - 1); who = [r]
    num = lambda *a: rng.randint(*a)
    def mis(c):
        for x in who: P.at(x, 'mis ' + c)
        if k != 'init': P.all('finalize'); P.all('mpifin')
        return job('mi%d' % i, P, rng, env=renv(rng, XFER + COMPL + GRP + ['ARMCI_USE_REQUEST_ATOMICS'], 0.15), lc=0, var=var, reuse=0, adj=0)
    if k == 'init':
        b = rng.choice([-1, 0, 0, 1, 2]); P.lines = ['* mpiinit lv=%d' % b] if b >= 0 else []
        f = rng.choice([0, 4]) if b >= 0 else num(0, 4)
        a = num(b + 1, 3) if b >= 0 else num(0, 3)
        if f in (1, 2, 3): a = 0
        if b >= 0 and rng.random() < 0.3:     # a proper life first
            P.init(rng.choice(['plain', 'args', 'mpi'])); P.all('finalize')
        who = list(range(n))
        return mis('k=init a=%d b=%d f=%d' % (a, b, f))
    if k == 'prealloc':
        life = rng.random() < 0.5
        if life: P.init(); P.malloc(0, 'i', [4] * n); P.bar(); P.all('finalize')
        if rng.random() < 0.3: who = list(range(n))
        return mis('k=malloc f=%d' % (num(0, 1) if life else 0))
    P.init(rng.choice(['plain', 'plain', 'args', 'thread th=3', 'thread th=1', 'mpi']))
    nest = rng.random() < 0.2
    if nest: P.all('init k=plain')
    for A in range(rng.choice([1, 2, 3])): P.malloc(A, rng.choice('iild'), [num(3, 8) for _ in range(n)])
    ng = 0; groups = {0: list(range(n))}
    if n > 1 and rng.random() < 0.5:
        mem = sorted(rng.sample(range(n), num(1, n))); ng = 1; groups[1] = mem
        P.all('gchild G=1 P=0 mem=%s' % cs(mem))
    P.bar()
    def work():
        if rng.random() < 0.5:
            try: memprog(rng, P, dict(put=1, get=1, acc=1), phases=1, per=2, nb=0.0)
            except Exhausted: pass
    work()
    mt = 0                                     # mutexes per process, 0: none
    want = True if k in ('mcreate', 'lockidx') else False if k in ('lock', 'unlock', 'mdestroy', 'mzero') else rng.random() < .3
    for x in (hist if hist is not None else range(rng.choice([0, 0, 1, 2]))):    # created and destroyed before
        P.all('mcreate n=%d' % num(1, 3)); P.bar()
        if rng.random() < 0.5:
            m, t = 0, num(0, n - 1)
            for y in rng.sample(range(n), num(1, n)): P.at(y, 'lock m=0 t=%d' % t); P.at(y, 'unlock m=0 t=%d' % t)
        P.bar(); P.all('mdestroy')
    if want: mt = num(1, 3); P.all('mcreate n=%d' % mt); P.bar()
    hm = None
    if k == 'trylock' or k == 'hmisuse' or rng.random() < 0.1:
        g = rng.choice(list(groups)); hm = num(1, 3); H = num(0, 1)
        for x in groups[g]: P.at(x, 'hmcreate H=%d g=%d n=%d' % (H, g, hm))
        if r not in groups[g]: r = rng.choice(groups[g]); who = [r]
    A = rng.choice(list(P.al)); al = P.al[A]; t = num(0, n - 1)
    nl = "l" if al['ty'] == 'l' else al['ty']
    if k in ('lock', 'unlock'): return mis('k=%s a=%d b=%d' % (k, num(0, 1), t))
    if k == 'mdestroy':
        if rng.random() < .5: who = list(range(n))
        return mis('k=mdestroy')
    if k == 'mcreate':
        if rng.random() < .5: who = list(range(n))
        return mis('k=mcreate a=%d' % num(1, 3))
    if k == 'mzero': who = list(range(n)); return mis('k=mcreate a=%d' % 0)
    if k == 'lockidx': return mis('k=%s a=%d b=%d' % (rng.choice(['lock', 'unlock']), rng.choice([mt, mt, mt + 1, -1, 1000]), t))
    if k in ('trylock', 'hmisuse'):
        outs = [x for x in range(n) if x not in groups[g]]; v = 'trylock' if k == 'trylock' else rng.choice(['lock', 'unlock'])
        if outs and rng.random() < .5: return mis('k=%s a=%d b=%d H=%d' % (v, num(0, hm - 1), rng.choice(outs), H))
        return mis('k=%s a=%d b=%d H=%d' % (v, rng.choice([hm, hm + 1, -1]), rng.choice(groups[g]), H))
    if k == 'free':
        who = list(range(n)); a = -1
        if rng.random() < .5: P.free(A); P.bar(); a = A
        return mis('k=free a=%d f=%d' % (a, num(0, 2)))
    if k == 'access':
        a = -1
        if rng.random() < .6: P.free(A); P.bar(); a = A
        return mis('k=%s a=%d' % (rng.choice(['abegin', 'aend']), a))
    if k == 'accty':
        if t == r and n > 1: t = (r + 1) % n
        return mis('k=acc s=x a=%d b=4 f=%d A=%d t=%d' % (rng.choice([6, 7, 99, -3, 45, 1000]), num(4, 7), A, t))
    if k == 'accsz':
        if n == 1: t = 0
        ty = rng.choice('ilfdcz'); z = dict(i=4, l=8, f=4, d=8, c=8, z=16)[ty]; f = rng.choice([0, 1, 2, 4, 5, 6])
        sz = rng.choice([1, z - 1, z + 1, z // 2, z + z // 2])
        if f < 4 and ty in 'cz' and sz % (z // 2) == 0: sz += 1       # complex values that are not scaled may be added by parts
        return mis('k=acc s=%s b=%d f=%d A=%d t=%d' % (ty, sz, f, A, t))
    if k == 'rmw': return mis('k=rmw s=bad a=%d b=%d A=%d' % (rng.choice([4, 5, 77, 100, -1]), t, A))
    if k == 'gop': return mis('k=gop s=%s f=%d g=%d' % (rng.choice(['x', 'sum', 'mean', '-', 'plus', 'mIn', 'Max', 'and']), num(0, 3), 0))
    if k == 'gtype': return mis('k=gtype s=bad a=%d f=%d' % (rng.choice([5, 6, 99, -5]), num(0, 1)))
    if k == 'sel': return mis('k=sel s=%s f=%d' % (rng.choice(['x', 'sum', '+', 'absmax', 'or']), num(0, 1)))
    if k == 'bcast':
        if len(groups) > 1 and len(groups[1]) < n: g = 1; b = rng.choice([x for x in range(n) if x not in groups[1]]); who = [rng.choice(groups[1])]
        else:
            mem = list(range(n - 1)) if n > 1 else None
            if not mem: return None
            P.all('gchild G=2 P=0 mem=%s' % cs(mem)); g = 2; b = n - 1; who = [rng.choice(mem)]
        return mis('k=bcast b=%d g=%d' % (b, g))
    if k == 'absid':
        g = rng.choice(list(groups)); m = groups[g]; who = [rng.choice(m)]
        return mis('k=absid b=%d g=%d' % (rng.choice([len(m), len(m) + 1, -1, -7]), g))
    if k == 'target': return mis('k=target b=%d f=%d A=%d' % (rng.choice([n, n, n + 1, 1000]), num(0, 6), A))
    if k == 'handle': return mis('k=handle f=%d' % num(0, 3))
    if k == 'address':
        if n == 1: return None
        return mis('k=address f=%d b=%d A=%d' % (rng.choice([0, 1, 3, 4]), rng.choice([x for x in range(n) if x != r]), A))
    if k == 'reduce': return mis('k=reduce f=%d' % num(0, 1))
    return mis('k=%s a=%d' % (k, num(1, 120)))

# ------------------------------------------------------------------ slices of many gigabytes: addresses and displacements beyond 31 bits
def gen_huge(rng, i, tier, oob=False):
    """cells hundreds of megabytes apart: every segment is one cell.  oob: the last operation reaches a cell behind or in front of a slice"""
    n = rng.choice([2, 2, 3]); P = Prog(rng, n); P.init()
    gap = rng.choice([1 << 28, 300000000, 1 << 29, 777777776, 1 << 30, (1 << 31) - 8, 1 << 31, 3 << 30])
    na = rng.randint(1, 2); ty = rng.choice('ilfdo')
    slack = (CS[ty] - gap) * int(rng.random() < 0.5)
    for A in range(na): P.malloc(A, ty, [rng.choice([6, 9, 12])] * n, slack=slack)
    P.bar(); S = [Rank() for _ in range(n)]
    smax = ((1 << 31) - 1) // gap
    acc = ty != 'o'
    for _ in range(rng.randint(1, 2)):
        used = {}
        for r in range(n):
            for _ in range(rng.randint(1, 4)):
                t = rng.randint(0, n - 1); A = rng.randint(0, na - 1); size = P.al[A]['n'][t]
                op = rng.choice(['put', 'put', 'get', 'get', 'acc', 'rmw', 'ld']); nb = int(rng.random() < 0.35); h = rng.choice([-1, 0, 1]); at = ACC[ty] if acc else None
                if op == 'acc' and not acc: op = 'get'
                # the local side: private, or another part of this process' own slice of a shared allocation (read only by puts)
                if op == 'rmw':
                    if ty in 'io': P.at(r, 'rmw op=fadd A=%d t=%d c=%d v=%d' % (A, t, rng.randint(0, size - 1), rng.randint(1, 9)))
                    continue
                if op == 'ld':
                    P.at(r, 'ld A=%d c=%d n=%d' % (A, 0, P.al[A]['n'][r])); continue
                form = rng.choice('ccuuvvssss' if op != 'acc' else 'cvvsss')
                sc = P.scale(at) if op == 'acc' and rng.random() < 0.5 else None
                bo = rng.choice(['', '', ' free=1', ' lk=m'])
                u = used.setdefault((A, t), set())
                def claim(cells):
                    if op != 'put': return op != 'get' or True
                    if u & set(cells): return False
                    u.update(cells); return True
                try:
                    if form in 'cu':
                        ro = rng.randint(0, size - 1)
                        if not claim([ro]): continue
                        if form == 'u': 
                            x = P.contig(op, t, A, ro, 1, nb=nb if op == 'put' else 0, h=h if op == 'put' else -1, lo=0, ext=1).replace(' f=c', ' f=u'); hh = h if op == 'put' and nb else -1
                            if op == 'put': x = x
                        else: x = P.contig(op, t, A, ro, 1, at=at, sc=sc, nb=nb, h=h, lo=rng.randint(0, 3)) + bo
                    elif form == 'v':
                        k = rng.randint(1, 6); rem = rng.sample(range(size), min(k, size)); loc = rng.sample(range(k + 2), len(rem))
                        if not claim(rem): continue
                        l = [(A, a, b) for a, b in zip(rem, loc)]; c = rng.randint(0, len(l)) if rng.random() < 0.4 else 0
                        x = P.vector(op, t, A, [(1, l[c:])] + ([(1, l[:c])] if c else []) if l[c:] else [(1, l)], k + 3, at=at, sc=sc, nb=nb, h=h) + bo
                    else:
                        if smax < 1: continue
                        L = rng.randint(1, 2); cnt = [1] + [rng.randint(1, 5) for _ in range(L)]
                        rs = [rng.randint(1, smax)]; ls = [rng.randint(1, smax)]
                        if L == 2:
                            rs.append(rs[0] * cnt[1] * rng.randint(1, 2)); ls.append(ls[0] * cnt[1] * rng.randint(1, 2))
                        if max(rs + ls) > smax: continue
                        need, lneed = span(cnt, rs), span(cnt, ls)
                        if need > size or lneed > 20: continue
                        ro = rng.randint(0, size - need); lo = rng.randint(0, 1)
                        cells = [ro + a * rs[0] + (b * rs[1] if L == 2 else 0) for a in range(cnt[1]) for b in range(cnt[2] if L == 2 else 1)]
                        if not claim(cells): continue
                        x = P.strided(op, t, A, ro, cnt, rs, lo, ls, lo + lneed, at=at, sc=sc, nb=nb, h=h) + bo
                except Exhausted: continue
                if form == 'u': nb = nb if op == 'put' else 0
                nb_before(rng, P, r, S[r], nb, h); P.at(r, x)
            complete_rest(rng, P, r, S[r])
        P.bar()
    if oob:
        r, t, A = rng.randint(0, n - 1), rng.randint(0, n - 1), rng.randint(0, na - 1); size = P.al[A]['n'][t]
        k = rng.choice(['put', 'get', 'acc', 'rmw', 'puts', 'gets', 'accs', 'putv', 'getv', 'accv', 'putu', 'getu']); op = k[:3]; nb = int(rng.random() < 0.3)
        if k == 'rmw' and ty not in 'io' or op == 'acc' and not acc: op, k = 'put', 'put' + (k[3:] if k != 'rmw' else '')
        at = ACC[ty] if op == 'acc' else None; x = rng.choice([size, size, size + 1, -1])
        if A == 0 and na == 2 and x > 0:       # not within the next allocation
            room = 32
            while room < size * gap + slack: room *= 2
            if x * gap + 8 > room: A = 1
        if x < 0: A = 0
        size = P.al[A]['n'][t]; x = x if x < 0 else max(x, size)
        try:
            if k == 'rmw': c = 'rmw op=fadd A=%d t=%d c=%d v=3' % (A, t, x)
            elif k in ('putu', 'getu'): c = 'x op=%s f=u t=%d A=%d ro=%d cnt=1 lo=0 ext=1 ty=%s v=%d' % (op, t, A, x, ty, 8192 * 400)
            elif k in ('put', 'get', 'acc'): c = P.contig(op, t, A, x, 1, at=at, nb=nb)
            elif k[3:] == 's' and smax:
                st = rng.randint(1, smax); rows = rng.randint(1, 5); ro = -1 if x < 0 else x - (rows - 1) * st
                if ro < 0 and x >= 0: return None
                c = P.strided(op, t, A, ro, [1, rows], [st], 0, [1], rows, at=at, nb=nb)
            else:
                l = [(A, y, j) for j, y in enumerate(rng.sample(range(size), rng.randint(0, 3)))]; l.insert(rng.randint(0, len(l)), (A, x, 4))
                c = P.vector(op, t, A, [(1, l)], 5, at=at, nb=nb)
        except Exhausted: return None
        P.at(r, c)
        if nb: P.at(r, 'waitall')
        P.bar(); P.all('finalize'); P.all('mpifin')
    else: P.finish()
    env = renv(rng, ['ARMCI_STRIDED_METHOD', 'ARMCI_IOV_BATCHED_LIMIT', 'ARMCI_SHR_BUF_METHOD', 'ARMCI_USE_WIN_ALLOCATE', 'ARMCI_RMA_ATOMICITY', 'ARMCI_NO_FLUSH_LOCAL', 'ARMCI_IOV_CHECKS'], 0.4)
    if rng.random() < 0.5: env['ARMCI_IOV_METHOD'] = rng.choice(['BATCHED', 'CONSRV'])
    return job('hu%d' % i, P, rng, env=env, lc=0, gap=gap, acc=0, wide=1, **(dict(adj=0) if oob else {}))

def gen_huge_bounds(rng, i, tier): return gen_huge(rng, i, tier, True)

# ------------------------------------------------------------------ tuning variables (P31)
TUNE = ['ARMCI_USE_WIN_ALLOCATE', 'ARMCI_USE_ALLOC_SHM', 'ARMCI_DISABLE_SHM_ACC', 'ARMCI_USE_SAME_OP', 'ARMCI_RMA_ORDERING', 'ARMCI_RMA_NOCHECK', 'ARMCI_DEBUG_ALLOC']
def gen_tune(rng, i, tier):
    """what MPI is told about windows of all sizes, of the world and of groups, and the length of batches"""
    n = procs(rng, [1, 2, 3, 4]); P = Prog(rng, n); P.init()
    env = renv(rng, TUNE, 0.5)
    if rng.random() < 0.7: env['ARMCI_ACCUMULATE_GRANULARITY'] = rng.choice(['0', '1', '2', '7', '8', '64', '128', '129', '130', '4096', '1048575', '1048576', '1048577', '2147483647', '-1', '-8', '-1048576', '-2147483648'])
    if rng.random() < 0.4: env['ARMCI_RMA_ORDERING'] = rng.choice(['', 'none', 'rar', 'raw', 'war', 'waw', 'rar,raw,war,waw', 'raw,waw', 'waw,rar', 'rar,raw', 'raw,war,waw'])
    if rng.random() < 0.3: env.update(renv(rng, XFER, 0.4))
    env['ARMCI_IOV_BATCHED_LIMIT'] = rng.choice(['0', '1', '1', '2', '2', '3', '4', '5', '7', '-1'])
    if rng.random() < 0.7: env['ARMCI_IOV_METHOD'] = 'BATCHED'
    groups = {}
    if n > 1 and rng.random() < 0.5:
        m = sorted(rng.sample(range(n), rng.randint(1, n - 1))); groups[1] = m
        nonc = env.setdefault('ARMCI_NONCOLLECTIVE_GROUPS', rng.choice(['0', '1']))
        for r in (m if nonc == '1' else range(n)): P.at(r, 'gcreate G=1 mem=%s' % cs(m))
    def size():
        q = rng.random()
        return rng.choice([126, 127, 128, 129, 130, 131]) if q < 0.5 else rng.randint(1, 40) if q < 0.7 else 0 if q < 0.85 else rng.choice([255, 256, 257, 300, 120, 136])
    A = 0
    for _ in range(rng.randint(1, 3)):
        g = rng.choice([-1] + list(groups)); mem = groups.get(g, list(range(n)))
        if rng.random() < 0.7: P.malloc(A, 'b', [size() for _ in mem], mem=mem, g=g, api=rng.choice(['', '', 'memdev']))
        else: P.malloc(A, rng.choice('ild'), [rng.choice([0, 1, 15, 16, 17, 31, 32, 33]) for _ in mem], mem=mem, g=g, slack=rng.choice([0, 0, 1, 3]))
        A += 1
    if rng.random() < 0.5:
        for r in range(n): P.at(r, 'mcreate n=%d' % (1 if r == 0 else rng.randint(0, 2)))
        P.all('mdestroy')
    if groups and rng.random() < 0.5:
        for r in groups[1]: P.at(r, 'hmcreate H=0 g=1 n=1')
        for r in groups[1]: P.at(r, 'hmdestroy H=0')
    for b in range(rng.choice([0, 0, 1, 2])):
        P.at(rng.randrange(n), 'mlocal B=%d n=%d' % (b, rng.choice([1, 7, 8, 9, 31, 64, 129, 300])))
    if rng.random() < 0.6:
        for a in list(P.al): P.free(a)
        for g in groups:
            for r in groups[g]: P.at(r, 'gfree G=%d' % g)
        ty = rng.choice('iild'); P.malloc(90, ty, [30] * n); P.bar()
        memprog(rng, P, dict(putv=2, getv=2, accv=1), phases=2, per=3, nb=0.2)
    P.finish()
    return job('tu%d' % i, P, rng, env=env, lc=0, hints=1)

def gen_tune_segs(rng, i, tier):
    """the length of batches in vector operations of many segments"""
    j = gen_many_segs(rng, i, tier)
    if j:
        j.opt['hints'] = 1
        if rng.random() < 0.8: j.env['ARMCI_IOV_METHOD'] = 'BATCHED'
        if rng.random() < 0.8: j.env['ARMCI_IOV_BATCHED_LIMIT'] = rng.choice(['1', '2', '7', '8', '15', '16', '17', '31', '32', '33', '62', '63', '64', '89', '100'])
    return j
