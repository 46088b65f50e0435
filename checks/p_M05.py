from meshlib import *

OPS = ['split', 'split', 'split', 'refine', 'balance', 'mark', 'mrecord', 'delete_children', 'coarsen']
QK = ['nbr', 'vnbr', 'inbr', 'inbr', 'dcnbr']


def run(c):
    inits = [rect1(2, 0, 1, depth=3), pts1([0, 1, 4], True, depth=3, perm=[2, 0, 1]), rect2(2, 1, depth=3), rect2(2, 2, per=(0, 1), depth=3),
             general('hex', rot=[1, 0, 3]), general('kite'), free1([0, 1, 3], 3)]
    cfg = dict(inits=inits, flags=['a'], ops=['split', 'mrecord'], max=3, maxdepth=2, least=False)
    beh = gen(c, 'nbr', cfg, ['NbrInv'], [], 'neighbour relation on refined small root grids')
    go(c, jobs_of(c, thin(c, beh, 1500 if c.quick else 15000), cfg, QK, 12), 'transitions of the bounded graph')
    n = 160 if c.quick else 2000
    go(c, rand_jobs(c, n, 9 if c.quick else 15, OPS, ['a', 'b'], QK, 12, maxcells=40, gridkw=dict(wild=.2, poly=.1)), 'random histories')
    go(c, rand_jobs(c, n // 3, 9 if c.quick else 15, OPS, ['a', 'b'], ['inbr'], 12, maxcells=40, gridkw=dict(wild=.2, dims=(1,), periodic=.5, free=.25)),
       'random histories of interval meshes')
    go(c, rand_jobs(c, n // 3, 9 if c.quick else 15, OPS, ['a', 'b'], ['nbr', 'inbr', 'dcnbr'], 12, maxcells=40,
                    gridkw=dict(wild=.2, minper=1, periodic=.8, general=.1)), 'random histories, periodic grids possibly one cell wide')
