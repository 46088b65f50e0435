from meshlib import *

OPS = ['split', 'split', 'refine', 'mrecord', 'mark_region', 'mark_region', 'mark_region', 'mark', 'balance']
ETS = ['Q1', 'Q1', 'Q2', 'Q3']


def marks(c, j):
    """boundary markers for a history of the bounded graph"""
    g = j['init']['grid']
    dim, per = g['dim'], any(g['per'])
    out = []
    for f in ('r', 's'):
        k = c.rng.randint(1, dim)
        xs = sorted({v[k - 1] for v in g['v']})
        lo = c.rng.random() < .5
        out.append(dict(o='mark_region', f=f, et='vertex' if dim == 1 else c.rng.choice(['vertex', 'half_edge', 'half_edge']),
                        p=dict(k='le', c=k, v=16 * xs[0]) if lo else dict(k='ge', c=k, v=16 * xs[-1]), strict=True, ob=not (dim == 1 and per), sf=''))
    return dict(j, marks=out)


def run(c, kind='solve'):
    i1 = [rect1(2, 0, 1, depth=3), rect1(2, 0, 1, per=True, depth=3), pts1([0, 1, 4], depth=3)]
    i2 = [rect2(2, 1, depth=3), rect2(2, 2, per=(0,), depth=3), general('two', rot=[0, 2])]
    for name, inits, ets, mx in [('s1', i1, ['Q1', 'Q2', 'Q3'], 3), ('s2', i2, ['Q1', 'Q2'] if c.quick else ['Q1', 'Q2', 'Q3'], 2 if c.quick else 3)]:
        cfg = dict(inits=inits, flags=['a'], ets=ets, max=mx, maxdepth=2)
        beh = gen_maps(c, name, cfg, 'constraints are consistent and the exact solution is the only one', module='SolveGen')
        jobs = [marks(c, j) for j in jobs_of(c, thin(c, beh, 60 if c.quick else 1500), cfg, [kind], 3, rflags=['r', 's'])]
        go2(c, 'solve', 'SolveTrace', with_ets(c, jobs, ETS), 'problems on every mesh of the bounded graph')
    n = 110 if c.quick else 1500
    go2(c, 'solve', 'SolveTrace', with_ets(c, rand_jobs(c, n, 11 if c.quick else 14, OPS, ['a', 'b'], [kind], 3, rflags=['r', 's'], maxcells=24, maxdepth=3,
                                                        gridkw=dict(general=.3, periodic=.3, minper=1)), ETS), 'random histories')
