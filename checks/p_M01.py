from meshlib import *


def run(c):
    inits = [rect1(2, 0, 1, depth=3), pts1([0, 1, 4], per=True, depth=3), rect2(2, 1, depth=3), rect2(1, 2, -1, 2, 3, 1, depth=3),
             rect2(2, 2, per=(0,), unit=.5, depth=3), general('kite'), general('two', rot=[0, 2]), free1([0, 1, 3], 3)]
    cfg = dict(inits=inits, flags=['a'], ops=['split', 'mrecord', 'balance', 'refine'], max=3 if c.quick else 4, maxdepth=2, least=False)
    beh = gen(c, 'tile', cfg, ['TileInv'], [], 'refinement, recording and balancing of small root grids: leaves and children tile')
    go(c, jobs_of(c, thin(c, beh, 2500 if c.quick else 30000), cfg, ['size'], 3, geo=True), 'transitions of the bounded graph')
    n = 160 if c.quick else 2000
    go(c, rand_jobs(c, n, 10 if c.quick else 16, ['split', 'split', 'split', 'refine', 'balance', 'mark', 'mrecord', 'delete_children',
                                 'coarsen'], ['a', 'b'], ['size'], 3, geo=True, gridkw=dict(wild=.2, free=.25, minper=1)), 'random refinement histories on random grids')
