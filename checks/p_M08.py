from meshlib import *

QK = ['map', 'map', 'inv', 'inv', 'jr2p', 'jp2r', 'hr2p', 'hp2r', 'sub', 'sub', 'esub']


def run(c):
    inits = [rect1(2, 0, 1, depth=3), pts1([0, 1, 4], depth=3), rect2(1, 1, -1, 2, 3, 1, depth=3), general('quad', rot=[1], depth=4),
             general('two', rot=[0, 2], depth=4), general('para', depth=4), conn([(0, 0), (4, 0), (4, 2), (0, 2)], [(2, 3, 0, 1)], depth=4)]
    inits += [general('rtrap', rot=[k], depth=4) for k in range(4)]
    cfg = dict(inits=inits, flags=[], max=3 if c.quick else 4)
    beh = gen_maps(c, 'maps', cfg, 'laws of the exact maps on all cells of small refined grids')
    go2(c, 'maps', 'MapsTrace', jobs_of(c, thin(c, beh, 500 if c.quick else 4000), cfg, QK, 10), 'maps of cells of the bounded graph')
    n = 100 if c.quick else 1500
    go2(c, 'maps', 'MapsTrace', rand_jobs(c, n, 7 if c.quick else 10, ['split', 'split', 'refine'], ['a'], QK, 12, maxcells=40,
                                          gridkw=dict(wild=.2, general=.6, poly=.05)), 'random histories')
