from meshlib import *

QK = ['verts', 'verts', 'vall', 'nd']
OPS = ['split', 'split', 'refine', 'mrecord', 'delete_children', 'balance']


def run(c):
    i1 = [rect1(2, 0, 1, depth=3), rect1(2, 0, 1, per=True, depth=3), pts1([0, 1, 4], depth=3)]
    i2 = [rect2(2, 1, depth=3), rect2(1, 1, depth=3), rect2(2, 2, per=(0,), depth=3), general('two', rot=[0, 2])]
    for name, inits, ets in [('dof1', i1, TYPES), ('dof2', i2, ['Q1', 'Q2'] if c.quick else TYPES)]:
        cfg, beh = gen_dofs(c, name, inits, ets, 'nodes of balanced meshes: identity, nesting', max=3, maxdepth=2)
        jobs = with_et(c, jobs_of(c, thin(c, beh, 250 if c.quick else 4000), cfg, QK, 3), TYPES)
        go2(c, 'dofs', 'DofsTrace', jobs, 'numbering after every history of the bounded graph')
    n = 160 if c.quick else 1600
    go2(c, 'dofs', 'DofsTrace', with_et(c, rand_jobs(c, n, 10 if c.quick else 14, OPS, ['a', 'b'], QK, 3, rflags=['r'], maxcells=40,
                                                     gridkw=dict(wild=.2, general=.4, periodic=.45, minper=1)), TYPES), 'random histories')
