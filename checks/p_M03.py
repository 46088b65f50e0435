from meshlib import *

OPS = ['split', 'split', 'split', 'refine', 'mrecord', 'mark']
QK = ['vpair', 'vnbr', 'nbr', 'inbr', 'periodic', 'dcnbr']

QK1 = ['vpair', 'nbr', 'inbr', 'periodic', 'dcnbr']


def run(c):
    inits = [rect2(2, 1, per=(0,), depth=3), rect2(1, 2, per=(1,), hx=2, depth=3), rect2(2, 2, per=(0, 1), depth=3),
             rect2(3, 2, -1, 2, 1, 3, per=(0, 1), unit=.5, depth=3), rect1(2, -1, 1, True, depth=3), pts1([0, 1, 3], True, depth=3),
             rect2(2, 2, depth=3)]
    narrow = [rect2(1, 1, per=(0,), depth=3), rect2(1, 2, per=(0, 1), depth=3), rect2(1, 1, per=(0, 1), depth=3), rect2(2, 1, per=(1,), depth=3),
              rect1(1, 0, 1, True, depth=3)]
    cfg = dict(inits=inits, flags=['a'], ops=['split', 'mrecord'], max=3, maxdepth=2, least=False)
    beh = gen(c, 'per', cfg, ['TwinInv', 'NbrInv'], [], 'refinement orders of small periodic grids')
    go(c, jobs_of(c, thin(c, beh, 1500 if c.quick else 15000), cfg, QK, 8, geo=True, top=True, pr=True), 'transitions of the bounded graph')
    cfg = dict(cfg, inits=narrow)
    beh = gen(c, 'per1', cfg, ['TwinInv'], [], 'refinement orders of periodic grids one cell wide')
    go(c, jobs_of(c, thin(c, beh, 500 if c.quick else 6000), cfg, QK1, 8, geo=True, top=True, pr=True),
       'transitions of the bounded graph, one cell wide')
    n = 120 if c.quick else 1500
    kw = dict(periodic=1., general=0., dims=(1, 2, 2, 2), wild=.2)
    go(c, rand_jobs(c, n, 8 if c.quick else 14, OPS, ['a', 'b'], QK, 8, geo=True, top=True, pr=True, maxcells=40, gridkw=kw),
       'random histories without deletion')
    go(c, rand_jobs(c, n // 2, 8 if c.quick else 14, OPS, ['a', 'b'], QK1, 8, geo=True, top=True, pr=True, maxcells=40,
                    gridkw=dict(kw, minper=1)), 'random histories, periodic grids possibly one cell wide')
    go(c, rand_jobs(c, n // 2, 10 if c.quick else 14, OPS + ['delete_children', 'coarsen', 'balance'], ['a', 'b'],
                    ['vnbr', 'nbr', 'inbr', 'periodic'], 6, top=True, pr=True, maxcells=40, gridkw=kw), 'random histories with deletion')
