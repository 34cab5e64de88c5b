"""Small programs whose schedules are searched systematically (all interleavings of MPI calls within a bound on preemptions)."""
from vt import Job
from gen import cs

def J(id, n, head, body, tail, pre, **o):
    """body: {rank: [commands]}; the search is confined to the body"""
    L = ['* mpiinit lv=3', '* init k=plain'] + head + ['* focus n=%d' % n]
    for r in sorted(body): L += ['%d %s' % (r, c) for c in body[r]]
    L += ['* focus n=-%d' % n] + tail + ['* finalize', '* mpifin']
    lc = o.pop('lc', 0); env = o.pop('env', {}); v = o.pop('variant', 'ompi4')
    return Job(id, n, L, env=env, lc=lc, variant=v, **dict(dict(net=0, send=0, blk=1, sched=5, preempt=pre, acc=1, steps=8000), **o))

def malloc(n, A, k, ty='i'):
    return ['%d malloc A=%d mem=%s n=%d ty=%s' % (r, A, cs(range(n)), k, ty) for r in range(n)]

def mutexes(rng, tier):
    mk = lambda n: ['%d mcreate n=1' % r for r in range(n)]
    end = ['* bar k=M', '* mdestroy']
    lu = ['lock m=0 t=0', 'unlock m=0 t=0']
    out = [J('mx2', 2, mk(2), {0: lu * 2, 1: lu * 2}, end, 2, send=1),
           J('mx3', 3, mk(3), {0: lu, 1: lu, 2: lu}, end, 2, send=0),
           J('mx3b', 3, mk(3), {0: ['lock m=0 t=1', 'unlock m=0 t=1'] * 2, 1: ['lock m=0 t=1', 'unlock m=0 t=1'], 2: ['lock m=0 t=1', 'unlock m=0 t=1'] * 2}, end, 1, send=1),
           J('mx2x', 2, mk(2), {0: ['lock m=0 t=0', 'lock m=0 t=1', 'unlock m=0 t=0', 'unlock m=0 t=1'], 1: ['lock m=0 t=0', 'unlock m=0 t=0', 'lock m=0 t=1', 'unlock m=0 t=1']}, end, 2)]
    if tier == 'thorough':
        out += [J('mx4', 4, mk(4), {r: lu for r in range(4)}, end, 2), J('mx3c', 3, mk(3), {r: lu * 2 for r in range(3)}, end, 2), J('mx2d', 2, mk(2), {0: lu * 3, 1: lu * 3}, end, 4)]
    return out

def handles(rng, tier):
    hd = ['0 hmcreate H=0 g=0 n=1', '1 hmcreate H=0 g=0 n=0', '0 hmcreate H=1 g=0 n=1', '1 hmcreate H=1 g=0 n=1', '* mcreate n=1']
    end = ['* bar k=M', '* hmdestroy H=1', '* hmdestroy H=0', '* mdestroy']
    a = ['lock m=0 t=0 H=0', 'unlock m=0 t=0 H=0']; b = ['lock m=0 t=0 H=1', 'unlock m=0 t=0 H=1']; c = ['lock m=0 t=0', 'unlock m=0 t=0']
    return [J('hm2', 2, hd, {0: a + b, 1: b + a}, end, 2), J('hm2t', 2, hd, {0: ['trylock m=0 t=0 H=0 auto=1'] + c, 1: a + c}, end, 2)]

def rmws(rng, tier):
    out = []
    for k, env in enumerate([{}, {'ARMCI_RMA_ATOMICITY': '1'}, {'ARMCI_USE_REQUEST_ATOMICS': '0'}, {'ARMCI_NO_FLUSH_LOCAL': '1'}]):
        fa = 'rmw op=fadd A=0 t=0 c=0 v=1'
        f = lambda r, i: 'rmw op=fadd A=0 t=0 c=1 v=%d' % (1 << (2 * r + i)); s = lambda r, i: 'rmw op=swap A=0 t=0 c=1 v=%d' % (8192 * (2 * r + i + 1))
        out.append(J('rw2_%d' % k, 2, malloc(2, 0, 2, 'io'[k % 2]) + ['* bar k=A'], {0: [f(0, 0), s(0, 1)], 1: [s(1, 0), f(1, 1)]}, ['* bar k=A', '* free A=0'], 2 if tier == 'quick' else 3, net=2, env=env))
    if tier == 'thorough':
        out.append(J('rw3', 3, malloc(3, 0, 2) + ['* bar k=A'], {r: ['rmw op=fadd A=0 t=0 c=0 v=%d' % (1 << (2 * r + i)) for i in range(2)] for r in range(3)}, ['* bar k=A', '* free A=0'], 2, net=2))
    return out

def accs(rng, tier):
    x = lambda t, v, nb=0: 'x op=acc f=c t=%d A=0 ro=0 cnt=2 lo=0 ext=2 ty=i v=%d vs=64%s' % (t, v, ' nb=1' if nb else '')
    e = ['* bar k=A', '0 ld A=0 c=0 n=2', '* free A=0']
    return [J('ac2', 2, malloc(2, 0, 2) + ['* bar k=A'], {0: [x(0, 1), 'fence t=0'], 1: [x(0, 2), x(0, 4)]}, e, 2, net=2),
            J('ac2n', 2, malloc(2, 0, 2) + ['* bar k=A'], {0: [x(1, 1, 1), 'waitall'], 1: [x(1, 2, 1), 'waitproc t=1']}, ['* bar k=A', '1 ld A=0 c=0 n=2', '* free A=0'], 2, net=2, segred=1)]

def flags(rng, tier):
    e = ['* bar k=A', '* free A=0']
    return [J('fl2%s' % o, 2, malloc(2, 0, 4) + ['* bar k=A'], {0: ['x op=put f=pf t=1 A=0 ro=0 cnt=2 lo=0 ext=2 ty=i v=8192 vs=8192 fa=0 fc=3 fv=7'], 1: ['yield n=1', 'ld A=0 c=0 n=4', 'ld A=0 c=0 n=4']}, e, 3, net=2, order=o) for o in (0, 1)]

def fences(rng, tier):
    p = lambda t, A, ro, v, nb=0: 'x op=put f=c t=%d A=%d ro=%d cnt=1 lo=0 ext=1 ty=i v=%d vs=1%s' % (t, A, ro, v, ' nb=1' if nb else '')
    e = ['* bar k=A', '* free A=0', '* free A=1']
    return [J('fe2_%d' % o, 2, malloc(2, 0, 2) + malloc(2, 1, 2) + ['* bar k=A'], {0: [p(1, 0, 0, 5), p(1, 1, 0, 6, 1), 'fence t=1' if o else 'fence'], 1: [p(0, 0, 0, 7), 'bar k=M', 'ld A=0 c=0 n=1'] if False else [p(0, 0, 0, 7), 'fence t=0']}, e, 2, net=2, order=o) for o in (0, 1)]

def barriers(rng, tier):
    p = lambda t, v: 'x op=put f=c t=%d A=0 ro=0 cnt=1 lo=0 ext=1 ty=i v=%d vs=1' % (t, v)
    out = []
    for n, pre in ((2, 3), (3, 1)):
        body = {r: [p((r + 1) % n, 8192 * (r + 1)), 'bar k=A', 'ld A=0 c=0 n=1', 'bar k=M'] for r in range(n)}
        out.append(J('ba%d' % n, n, malloc(n, 0, 1) + ['* bar k=A'], body, ['* bar k=A', '* free A=0'], pre, net=2))
    return out

def p2p(rng, tier):
    out = []
    for send in (0, 1):
        out.append(J('pp3_%d' % send, 3, [], {0: ['snd t=2 tag=1 n=1 v=5', 'snd t=2 tag=1 n=2 v=7'], 1: ['snd t=2 tag=1 n=1 v=9'], 2: ['rcvany tag=1 n=3', 'rcvany tag=1 n=3', 'rcvany tag=1 n=3']}, ['* bar k=M'], 3, send=send))
        out.append(J('pp2_%d' % send, 2, [], {0: ['snd t=1 tag=1 n=1 v=5', 'rcv t=1 tag=2 n=1', 'snd t=1 tag=1 n=1 v=6'], 1: ['snd t=0 tag=2 n=1 v=8', 'rcv t=0 tag=1 n=2', 'rcv t=0 tag=1 n=2']} if send == 0 else
                     {0: ['snd t=1 tag=1 n=1 v=5', 'rcv t=1 tag=2 n=1', 'snd t=1 tag=1 n=1 v=6'], 1: ['rcv t=0 tag=1 n=2', 'snd t=0 tag=2 n=1 v=8', 'rcv t=0 tag=1 n=2']}, ['* bar k=M'], 3, send=send))
    return out

def lcs(rng, tier):
    p = lambda ro, v, nb=0: 'x op=put f=c t=1 A=0 ro=%d cnt=1 lo=0 ext=1 ty=i v=%d vs=1%s' % (ro, v, ' nb=1 h=0' if nb else '')
    g = 'x op=get f=c t=1 A=0 ro=0 cnt=1 lo=0 ext=1 ty=i'
    out = []
    for k, (env, o) in enumerate([({}, 1), ({'ARMCI_RMA_ATOMICITY': '1'}, 0), ({'ARMCI_NO_FLUSH_LOCAL': '1'}, 0)]):
        body = {0: [p(0, 5), p(0, 6), g], 1: ['x op=put f=c t=1 A=0 ro=0 cnt=1 lo=0 ext=1 ty=i v=9 vs=1', g]}
        out.append(J('lc2_%d' % k, 2, malloc(2, 0, 1) + ['* bar k=A'], body, ['* bar k=A', '1 ld A=0 c=0 n=1', '* free A=0'], 2, net=2, order=o, env=env, lc=1))
    return out

def threads(rng, tier):
    p = lambda A, ro, v, h: ['hinit h=%d' % h, 'x op=put f=c t=1 A=%d ro=%d cnt=1 lo=0 ext=1 ty=i v=%d vs=1 nb=1 h=%d' % (A, ro, v, h), 'wait h=%d' % h]
    L = ['* mpiinit lv=3', '* init k=thread th=3'] + malloc(2, 0, 4) + ['* bar k=A', '* focus n=2', '0 spawn th=1']
    L += ['0 ' + c for c in p(0, 0, 5, 0)] + ['0.1 ' + c for c in p(0, 1, 6, 4)] + ['0.1 rmw op=fadd A=0 t=1 c=2 v=1', '0 rmw op=fadd A=0 t=1 c=2 v=2', '0 join th=1', '* focus n=-2', '* bar k=A', '* free A=0', '* finalize', '* mpifin']
    return [Job('td2', 2, L, lc=0, variant='ompi4', net=2, send=0, blk=0, sched=5, preempt=2, steps=8000)]
