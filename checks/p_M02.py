from meshlib import *

OPS = ['split', 'split', 'split', 'refine', 'balance', 'mark', 'mrecord', 'delete_children', 'coarsen']


def run(c):
    inits = [rect2(2, 1, depth=3), rect2(2, 2, depth=3), general('two', rot=[0, 2]), general('hex', rot=[1, 0, 3]),
             rect2(2, 1, per=(0,), depth=3), rect2(1, 1, per=(1,), depth=3), conn(*POLY['mix'])]
    cfg = dict(inits=inits, flags=['a'], ops=['split', 'delete_children'], max=3 if c.quick else 4, maxdepth=2, least=False)
    beh = gen(c, 'topo', cfg, ['TwinInv'], [], 'splitting orders of small root grids: the twin relation is the geometric one')
    go(c, jobs_of(c, thin(c, beh, 1800 if c.quick else 20000), cfg, ['dcnbr', 'dcbnd'], 2, geo=True, top=True),
       'transitions of the bounded graph')
    n = 140 if c.quick else 1500
    go(c, rand_jobs(c, n, 9 if c.quick else 15, OPS, ['a', 'b'], ['dcnbr', 'dcbnd', 'normal', 'nbr'], 3, geo=True, top=True,
                    maxcells=40, gridkw=dict(wild=.2, dims=(2,), poly=.15, general=.5, periodic=.25, minper=1)), 'random histories')
