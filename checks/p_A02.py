from meshlib import *

OPS = ['split', 'split', 'refine', 'mrecord', 'mark_region', 'mark_region', 'mark', 'balance']


def run(c):
    i1 = [rect1(2, 0, 1, depth=3), rect1(2, 0, 1, per=True, depth=3), pts1([0, 1, 4], depth=3)]
    i2 = [rect2(2, 1, depth=3), rect2(2, 2, per=(0,), depth=3), general('two', rot=[0, 2])]
    for name, inits, ets, mx in [('asm1', i1, ['DQ0', 'Q1', 'Q3', 'DQ1'] if c.quick else TYPES, 3),
                                 ('asm2', i2, ['Q1', 'DQ0'] if c.quick else ['Q1', 'Q2', 'DQ0', 'DQ1'], 2 if c.quick else 3)]:
        cfg = dict(inits=inits, flags=['a'], ets=ets, max=mx, maxdepth=2)
        beh = gen_maps(c, name, cfg, 'exact mass, stiffness, gradient and load on balanced meshes', module='AssemGen')
        jobs = with_ets(c, jobs_of(c, thin(c, beh, 80 if c.quick else 2000), cfg, ['asm'], 3, rflags=['r']), TYPES)
        go2(c, 'asm', 'AssemTrace', jobs, 'assembly on every mesh of the bounded graph')
    n = 120 if c.quick else 1500
    go2(c, 'asm', 'AssemTrace', with_ets(c, rand_jobs(c, n, 10 if c.quick else 12, OPS, ['a', 'b'], ['asm'], 3, rflags=['r', 's'], maxcells=24, maxdepth=3,
                                                      gridkw=dict(general=.35, periodic=.3, minper=1)), TYPES), 'random histories')
