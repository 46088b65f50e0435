from meshlib import *

QK = ['cell', 'cell', 'cell', 'edge', 'edge', 'scale', 'mapn', 'ref', 'tri']


def run(c):
    inits = [rect1(1, 0, 1, depth=3), pts1([0, 1, 4], depth=3), rect2(1, 1, -1, 2, 3, 1, depth=3), general('quad', rot=[1], depth=3),
             general('kite', depth=3), conn([(0, 0), (4, 0), (4, 2), (0, 2)], [(2, 3, 0, 1)], depth=3)]
    cfg = dict(inits=inits, flags=[], max=2 if c.quick else 3)
    beh = gen_maps(c, 'quad', cfg, 'exact integrals: measure and additivity over children', ('Laws', 'NewtonCotes'), module='QuadGen')
    go2(c, 'quad', 'QuadTrace', jobs_of(c, thin(c, beh, 60 if c.quick else 1000), cfg, QK, 8), 'rules on cells of the bounded graph')
    go2(c, 'quad', 'QuadTrace', rand_jobs(c, 120 if c.quick else 1500, 4 if c.quick else 6, ['split', 'split', 'refine'], ['a'], QK, 14,
                                          maxcells=40, last=True, gridkw=dict(wild=.2, general=.6, poly=.05)), 'rules on cells of random meshes')
