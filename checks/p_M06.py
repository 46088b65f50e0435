from meshlib import *

OPS = ['split', 'split', 'split', 'refine', 'balance', 'mrecord', 'delete_children', 'coarsen']
QK = ['bins', 'bins', 'bins', 'inside', 'onside', 'xseg']


def run(c):
    inits = [rect1(2, 0, 1, depth=3), pts1([0, 1, 4], True, depth=3), rect2(2, 1, depth=3), rect2(2, 2, per=(0,), depth=3),
             general('hex', rot=[1, 0, 3]), general('kite'), general('two', rot=[0, 2]), free1([0, 1, 3], 4)]
    cfg = dict(inits=inits, flags=['a'], ops=['split', 'mrecord'], max=3, maxdepth=2, least=False)
    beh = gen(c, 'loc', cfg, ['LocInv'], [], 'every point lies in a leaf of every submesh')
    go(c, jobs_of(c, thin(c, beh, 1200 if c.quick else 12000), cfg, QK, 8), 'transitions of the bounded graph')
    n = 160 if c.quick else 2000
    go(c, rand_jobs(c, n, 8 if c.quick else 14, OPS, ['a', 'b'], QK, 12, maxcells=40, gridkw=dict(wild=.2, general=.5, free=.2, freen=(4,))), 'random histories')
