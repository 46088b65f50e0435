from forestlib import *
QK = ['leaves']


def run(c):
    for name, inits, ops, mx, md, fl in [
            ('two', [dict(free=False, trees=t) for t in ([R2, R2s],)],
             ['mark', 'refine', 'coarsen'], 3, 2, ['a', 'b', 'c']),
            ('deep', [dict(free=False, trees=t) for t in ([R2d], [R4])],
             ['mark', 'record', 'refine', 'coarsen'], 3 if c.quick else 4, 3, ['a'])]:
        cfg = dict(inits=inits, flags=fl, ops=ops, recs=['no'], max=mx, maxdepth=md)
        beh = gen(c, name, cfg, ['StructInv'], ['RefineStep', 'RestoreStep'], 'refinement and coarsening, ' + name)
        act = [b for b in beh if b['h'][-1]['o'] in ('refine', 'coarsen')]
        beh = thin(c, act, 3000 if c.quick else 50000)
        go(c, jobs_of(c, beh, cfg, QK, 2, False, True, ('tree', 'tree', 'interval', 'quad')),
           'refine/coarsen transitions of the bounded graph: ' + name)
    n = 300 if c.quick else 3000
    ops = ['split', 'mark', 'mark', 'mark', 'unmark', 'record', 'root_subtrees', 'refine', 'refine', 'refine', 'coarsen',
           'coarsen']
    go(c, rand_jobs(c, n, 16, ops, [['a', 'z', 'b'], ['a', 't', 'x'], ['T', 'b']], QK, 3, False, True, free=0),
       'random histories')
