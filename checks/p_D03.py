from meshlib import *

QK = ['hang']
OPS = ['split', 'split', 'split', 'refine', 'mrecord', 'delete_children', 'balance']


def run(c):
    i2 = [rect2(2, 1, depth=3), rect2(2, 2, per=(0,), depth=3), rect2(1, 2, per=(0,), depth=3), general('two', rot=[0, 2]), general('hex', rot=[0, 1, 2])]
    cfg, beh = gen_dofs(c, 'hang', i2, ['Q1', 'Q2', 'Q3'], 'hanging nodes are the nodes of finer cells on coarser sides', max=3, maxdepth=2)
    jobs = with_et(c, jobs_of(c, thin(c, beh, 300 if c.quick else 4000), cfg, QK, 1), ['Q1', 'Q2', 'Q3'])
    go2(c, 'dofs', 'DofsTrace', jobs, 'bounded graph')
    n = 200 if c.quick else 2000
    go2(c, 'dofs', 'DofsTrace', with_et(c, rand_jobs(c, n, 12 if c.quick else 16, OPS, ['a', 'b'], QK, 2, maxcells=40, maxdepth=3,
                                                     gridkw=dict(wild=.2, general=.4, periodic=.35, dims=(2, 2, 2, 1), minper=1)),
                                        ['Q1', 'Q2', 'Q3', 'Q2', 'Q3', 'DQ1']), 'random histories')
