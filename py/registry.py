"""Which programs, closed models and searches decide which property."""
import props as p, props2 as q, sysprogs as s

ASSUMPTIONS = [
    'the MPI library implements MPI-3 as modelled in /verif/mpi (passive-target RMA, requests, collectives, matching); the model runtime allows every delay and interleaving of the standard between MPI calls',
    'a process\'s RMA operations on its own memory are complete at the target when they are locally complete',
    'MPI calls are the scheduling points: code between two MPI calls of a thread is executed without interruption',
    'location consistency with ARMCI_NO_FLUSH_LOCAL=0 and ARMCI_RMA_ATOMICITY=0 is only judged on a transport that keeps the order of one origin\'s operations on one target and window',
]
MC = 'model_checking'
def c(gens, **k):
    return dict(level=MC, gens=gens, **k)

# closed design-level models (spec/design); x_* are deviating designs that must violate the property
MQ = [dict(cfg='MutexQueue_n3'), dict(cfg='MutexQueue_n4'), dict(cfg='MutexQueue_x_lowest', expect='Invariant Bypass is violated'),
      dict(cfg='MutexQueue_x_early', expect='Invariant (NoLostWakeup|OneMessage) is violated'), dict(cfg='MutexQueue_n5', tier='thorough')]
def rma(ok, bad):
    return [dict(cfg='RmaMapping_' + k, tier='thorough', timeout=400, needs=300) for k in ok] + [dict(cfg='RmaMapping_x_' + k, expect='Invariant Sound is violated') for k in bad]
def dm(mod, ok, deep=(), **bad):
    return ([dict(cfg='%s_%s' % (mod, k)) for k in ok] + [dict(cfg='%s_%s' % (mod, k), tier='thorough', timeout=400, needs=120) for k in deep]
            + [dict(cfg='%s_x_%s' % (mod, k), expect='Invariant (%s) is violated' % v) for k, v in bad.items()])
HR = dm('HandleRequests', ['o5'], ['o6'], replace='WaitCompletes', grow='WaitCompletes', last='WaitCompletes', any='WaitCompletes', keep='WaitCompletes', empty='TestSucceeds')
RB = dm('RequestBound', ['t2'], ['t3'], one='Bounded', none='Bounded', window='Bounded', nolock='Bounded')
GM = dm('GroupMerge', ['n4'], ['n5'], partner='Stuck', high='Result', order='SameCreation', last='Result')
RL = dm('RegionList', ['a3'], ['a4'], anyproc='LookupRight', closed='LookupRight', own='RightAllocation', stay='LookupRight')
PF = dm('PutFlag', ['weak', 'one', 'luck'], none='DataWithFlag', weak='DataWithFlag', other='DataWithFlag')
def bf(ok, *bad): return dm('BarrierFence', ok, **{b: 'Visible' for b in bad})
CHECKS = {
    'P01': c([(q.gen_contig, 500), (q.gen_huge, 80)], dfs=[]),
    'P02': c([(q.gen_fence, 350), (q.gen_groupmem, 60)], models=rma(['fifo'], ['fence']) + bf(['n2'], 'skip', 'local'), dfs=[(s.fences, 300, 5000)]),
    'P03': c([(q.gen_local, 400)], models=rma(['weak'], ['flush_local', 'get_flush']), enum=[('handles', 100)]),
    'P04': c([(q.gen_nb, 400), (q.gen_many_nb, 60)], models=rma(['weak'], ['wait']) + HR + RB, enum=[('handles', 300)]),
    'P05': c([(p.gen_acc, 400), (q.gen_near, 60), (q.gen_huge, 50)], models=rma(['weak'], ['split']), dfs=[(s.accs, 300, 4000)], enum=[('acc', 864)]),
    'P06': c([(p.gen_rmw, 400), (q.gen_huge, 50)], models=rma(['weak'], ['split']), dfs=[(s.rmws, 200, 4000)], enum=[('rmw', 72)]),
    'P07': c([(p.gen_lc, 500)], models=rma(['fifo', 'replace', 'full'], ['weaklc']), dfs=[(s.lcs, 250, 3000)]),
    'P08': c([(p.gen_strided, 600), (q.gen_many_blocks, 60), (q.gen_huge, 80)], enum=[('shape', 1032)]),
    'P09': c([(p.gen_vector, 400), (q.gen_many_segs, 60), (q.gen_huge, 80)]),
    'P10': c([(p.gen_mutex, 250)], models=MQ, dfs=[(s.mutexes, 400, 6000)]),
    'P11': c([(p.gen_mutex, 250)], models=MQ, dfs=[(s.mutexes, 400, 6000)]),
    'P12': c([(q.gen_alloc, 400), (q.gen_huge, 40)], models=RL, enum=[('memory', 300)]),
    'P13': c([(q.gen_groupmem, 400)], models=RL),
    'P14': c([(q.gen_groups, 400)], models=GM, enum=[('groups', 200), ('ngroups', 150)]),
    'P15': c([(q.gen_coll, 500)], enum=[('gop', 1080), ('bcast', 60), ('sel', 210)]),
    'P16': c([(q.gen_p2p, 400)], dfs=[(s.p2p, 300, 3000)], enum=[('messages', 250)]),
    'P17': c([(q.gen_flag, 400)], models=PF, dfs=[(s.flags, 400, 4000)]),
    'P18': c([(q.gen_direct, 400)], models=bf(['sep'], 'nosync')),
    'P19': c([(q.gen_life, 300), (q.gen_subcomm, 150)], enum=[('life', 250)]),
    'P20': c([(q.gen_config, 250)], builds=['noweak', 'nobelts']),
    'P21': c([(q.gen_bounds, 1600), (q.gen_huge_bounds, 160)], variants=['ompi4', 'mpich', 'ompi5'], enum=[('bound', 448)]),
    'P22': c([(q.gen_ctree, 150)], enum=[('trees', 1500), ('meets', 1200)]),
    'P23': c([(p.gen_handles, 350)], dfs=[(s.handles, 300, 3000)]),
    'P24': c([(q.gen_topo, 200)]),
    'P25': c([(q.gen_pack, 400)], enum=[('pack', 258)]),
    'P26': c([(p.gen_globuf, 250)]),
    'P27': c([(q.gen_threads, 350), (q.gen_progress, 100)], dfs=[(s.threads, 300, 3000)]),
    'P29': c([(q.gen_churn, 190), (q.gen_residue, 192)]),
    'P30': c([(q.gen_misuse, 700)], builds=['noweak', 'nobelts'], enum=[('misuse', 5000)]),
    'P31': c([(q.gen_tune, 350), (q.gen_tune_segs, 40), (p.gen_vector, 150)], variants=['ompi4', 'mpich', 'ompi5'], enum=[('tune', 200)]),
    'P28': c([(q.gen_barrier, 400)], models=bf(['n2', 'sep'], 'late', 'local', 'nosync'), dfs=[(s.barriers, 300, 3000)]),
}
