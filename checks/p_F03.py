from forestlib import *
QK = ['rooted', 'rooted', 'trooted', 'within', 'within', 'marked', 'leaves']


def run(c):
    for name, inits, ops, mx, md, recs in [
            ('marks', [dict(free=False, trees=t) for t in ([R2d], [R2s, R2s])],
             ['mark', 'unmark', 'unmark_all', 'record', 'root_subtrees', 'make_rooted', 'split'], 3 if c.quick else 4, 2,
             ['no', 'down', 'up']),
            ('submesh', [dict(free=False, trees=t) for t in ([R2, R2s],)],
             ['mark', 'record', 'refine', 'coarsen', 'root_subtrees'], 3, 2 if c.quick else 3, ['no'])]:
        cfg = dict(inits=inits, flags=['a', 'b'], ops=ops, recs=recs, max=mx, maxdepth=md)
        beh = gen(c, name, cfg, ['StructInv', 'PartitionInv', 'ClosureInv'], ['PersistStep'],
                  'marking and submesh operations, ' + name)
        beh = thin(c, beh, 3000 if c.quick else 40000)
        go(c, jobs_of(c, beh, cfg, QK, 6, False, True, ('tree', 'tree', 'interval', 'quad')),
           'transitions of the bounded graph: ' + name)
    n = 200 if c.quick else 2500
    ops = ['split', 'mark', 'mark', 'unmark', 'unmark_all', 'record', 'root_subtrees', 'make_rooted', 'refine', 'coarsen',
           'refine']
    go(c, rand_jobs(c, n, 18, ops, [['a', 'z'], ['a', 't', 'x'], ['T', 'b']], QK, 6, False, True), 'random histories')
