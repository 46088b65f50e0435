from meshlib import *

OPS = ['split', 'split', 'refine', 'mrecord', 'mark_region', 'mark_region', 'mark', 'balance']


def run(c, what='cov'):
    qk = dict(int=['int'], cov=['cov', 'cov', 'kern'])[what]
    i1 = [rect1(1, 0, 1, depth=3), pts1([0, 1, 4], depth=3), rect1(2, 0, 1, per=True, depth=3)]
    i2 = [rect2(1, 1, depth=3), general('kite', depth=3)]
    for name, inits, ets, mx in [('int1', i1, ['DQ0', 'Q1', 'Q2'] if c.quick else TYPES, 2 if c.quick else 3),
                                 ('int2', i2, ['Q1', 'DQ0'] if c.quick else ['Q1', 'Q2', 'DQ0', 'DQ1'], 1 if c.quick else 2)]:
        cfg = dict(inits=inits, flags=['a'], ets=ets, max=mx, maxdepth=2)
        beh = gen_maps(c, name, cfg, 'integral operators are products of moments; kernels are symmetric and peak at distance zero', module='IntegGen')
        jobs = with_ets(c, jobs_of(c, thin(c, beh, 60 if c.quick else 1000), cfg, qk, 3, rflags=['r']), TYPES)
        go2(c, 'integ', 'IntegTrace', jobs, 'integral operators on every mesh of the bounded graph')
    n = 100 if c.quick else 1200
    go2(c, 'integ', 'IntegTrace', with_ets(c, rand_jobs(c, n, 8 if c.quick else 10, OPS, ['a', 'b'], qk, 4, rflags=['r', 's'], maxcells=14, maxdepth=3,
                                                        gridkw=dict(general=.35, periodic=.3, minper=1)), TYPES), 'random histories')
