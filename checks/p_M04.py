from meshlib import *

OPS = ['split', 'split', 'split', 'split', 'balance', 'refine', 'mrecord', 'mark']


def run(c):
    least = dict(inits=[rect2(2, 1, depth=3)] + ([] if c.quick else [rect2(1, 2, per=(1,), depth=3)]), flags=['a'],
                 ops=['split', 'mrecord', 'balance'], max=3 if c.quick else 4, maxdepth=2, least=True)
    gen(c, 'least', least, ['BalanceInv'], [], 'balancing gives the least balanced refinement (all refinements of depth 2 compared)')
    inits = [rect2(2, 1, depth=4), rect2(2, 2, per=(0, 1), depth=4), general('hex', rot=[1, 0, 3], depth=4), rect2(3, 1, per=(0,), depth=4)]
    cfg = dict(inits=inits, flags=['a'], ops=['split', 'mrecord', 'balance'], max=4 if c.quick else 5, maxdepth=3, least=False)
    beh = gen(c, 'bal', cfg, ['BalanceInv'], [], 'splitting, recording and balancing')
    last = [b for b in beh if any(o['o'] == 'balance' for o in b['h'])]
    go(c, jobs_of(c, thin(c, last, 1200 if c.quick else 12000) + thin(c, beh, 600 if c.quick else 6000), cfg, ['balanced'], 3, f=True),
       'transitions of the bounded graph')
    n = 160 if c.quick else 2000
    go(c, rand_jobs(c, n, 11 if c.quick else 16, OPS, ['a', 'b'], ['balanced'], 4, f=True, maxdepth=4, maxcells=40,
                    gridkw=dict(wild=.2, dims=(2,), periodic=.4, general=.4)), 'random histories')
    go(c, rand_jobs(c, n // 2, 10 if c.quick else 16, OPS + ['delete_children', 'coarsen'], ['a', 'b'], ['balanced'], 4, f=True, maxdepth=4,
                    maxcells=40, gridkw=dict(wild=.2, dims=(2,), periodic=.4, general=.4)), 'random histories with coarsening')
