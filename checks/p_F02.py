from forestlib import *
QK = ['trav', 'trav', 'leaves', 'leaves', 'leaves', 'near', 'parent', 'hasparent', 'kids', 'fkids', 'haskids', 'haskid',
      'fhaskids', 'depth', 'marked']


def run(c):
    for name, inits, ops, mx, md in [
            ('tree', [dict(free=True, trees=[R2d])], ['split', 'mark', 'unmark'], 4 if c.quick else 5, 2),
            ('forest', [dict(free=False, trees=t) for t in ([R2s, R2], [R2d], [R4])],
             ['split', 'mark', 'remove'], 3 if c.quick else 4, 2),
    ]:
        cfg = dict(inits=inits, flags=['a', 'b'] if c.quick else ['a', 'z'], ops=ops, recs=['no'], max=mx, maxdepth=md)
        beh = gen(c, name, cfg, ['StructInv', 'TraversalInv', 'PartitionInv'], [], 'markings of small trees, ' + name)
        beh = thin(c, beh, 3000 if c.quick else 30000)
        go(c, jobs_of(c, beh, cfg, QK, 12, False, False, ('tree', 'tree', 'interval', 'quad')),
           'every transition of the bounded graph: ' + name)
    n = 200 if c.quick else 2500
    ops = ['split', 'split', 'splitn', 'add_child', 'remove', 'delete_child', 'mark', 'mark', 'mark', 'unmark', 'refine',
           'record', 'coarsen']
    go(c, rand_jobs(c, n, 20, ops, [['a', 'z'], ['a', 't', 'x'], ['T', 'b']], QK, 8, False, False), 'random histories')
