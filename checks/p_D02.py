from meshlib import *

QK = ['region', 'region', 'region', 'basis', 'basis', 'ent', 'ent', 'same', 'nd']
OPS = ['split', 'split', 'refine', 'mrecord', 'mrecord', 'mark_region', 'mark_region', 'balance']


def run(c):
    i1 = [rect1(2, 0, 1, depth=3), pts1([0, 1, 4], depth=3)]
    i2 = [rect2(2, 1, depth=3), rect2(2, 2, per=(0,), depth=3), general('two', rot=[0, 2])]
    for name, inits in [('sub1', i1), ('sub2', i2)]:
        cfg, beh = gen_dofs(c, name, inits, ['Q1'] if c.quick else ['Q1', 'Q3'], 'nodes of balanced meshes', max=3, maxdepth=2)
        jobs = with_et(c, jobs_of(c, thin(c, beh, 220 if c.quick else 4000), cfg, QK, 6), TYPES)
        go2(c, 'dofs', 'DofsTrace', jobs, 'bounded graph')
    n = 160 if c.quick else 1600
    go2(c, 'dofs', 'DofsTrace', with_et(c, rand_jobs(c, n, 12 if c.quick else 16, OPS, ['a', 'b'], QK, 8, rflags=['r', 's'], maxcells=36,
                                                     gridkw=dict(wild=.2, general=.4, periodic=.3, minper=1)), TYPES), 'random histories')
