from forestlib import *
QK = ['find', 'tfind', 'find', 'tfind', 'contains', 'root', 'fdepth', 'depth', 'haskids', 'haskid', 'parent']
OPS = ['split', 'splitn', 'add_child', 'remove', 'delete_children', 'delete_child', 'add_tree', 'remove_tree']


def run(c):
    for name, inits, ops, mx, md in [
            ('free', [dict(free=True, trees=[t]) for t in (R2, IR)], OPS[:6], 5 if c.quick else 6, 3),
            ('forest', [dict(free=False, trees=t) for t in ([R2], [R2, IR], [R2s, R4])], OPS, 3 if c.quick else 4, 2),
    ]:
        cfg = dict(inits=inits, flags=['a'], ops=ops, recs=['no'], max=mx, maxdepth=md)
        beh = gen(c, name, cfg, ['StructInv', 'TraversalInv'], [], 'structural operations, ' + name)
        beh = thin(c, beh, 3000 if c.quick else 40000)
        go(c, jobs_of(c, beh, cfg, QK, 6, True, False), 'every transition of the bounded graph: ' + name)
    n = 250 if c.quick else 3000
    ops = OPS + ['split', 'splitn', 'refine', 'coarsen', 'mark', 'mark', 'add_tree', 'root_subtrees']
    go(c, rand_jobs(c, n, 22, ops, [['a', 'b']], QK, 5, True, False), 'random histories')
