from meshlib import *
OPS = ['split', 'split', 'refine', 'mrecord', 'mark', 'balance']


def nodal(c, j, flags):
    """a few functions on the mesh a history leads to"""
    r = c.rng
    ops = list(j['ops']) + [dict(o='dist')]
    nh = len(j['init']['ets'])
    rec = [o['f'] for o in j['ops'] if o['o'] == 'record']
    for n in range(r.choice([1, 2])):
        ops.append(dict(o='fop', k='nd', i=0, h=r.randint(1, nh), sf=r.choice([''] + rec), nv=1, ns=r.choice([1, 2]), seed=r.randrange(11), int=False, flat=False,
                        src='seed', via='init', str='u'))
    if r.random() < .6:
        n = len(ops)
        d = j['init']['grid']['dim']
        o = r.choice([0, 1, 1, 2])
        ops.append(dict(o='fop', k='diff', i=1, der=[o, r.randrange(d) if o else 0, r.randrange(d) if o > 1 else 0], dstr=False))
    if r.random() < .4:
        ops.append(dict(o='fop', k='interp', i=1, h=r.randint(1, nh), sf=ops[len(j['ops']) + 1]['sf']))
    return dict(j, ops=ops)


def run(c):
    i1 = [rect1(2, 0, 1, depth=3), rect1(2, 0, 1, per=True, depth=3), pts1([0, 1, 4], depth=3)]
    i2 = [rect2(2, 1, depth=3), rect2(2, 2, per=(0,), depth=3), general('two', rot=[0, 2])]
    for name, inits, ets, mx in [('f1', i1, ['DQ0', 'Q1', 'Q3', 'DQ1'] if c.quick else TYPES, 3),
                                 ('f2', i2, ['Q1', 'DQ0'] if c.quick else ['Q1', 'Q2', 'DQ0', 'DQ1'], 2 if c.quick else 3)]:
        cfg = dict(inits=inits, flags=['a'], ets=ets, max=mx, maxdepth=2)
        beh = gen_maps(c, name, cfg, 'interpolation and derivatives of polynomials on balanced meshes', module='FuncGen')
        jobs = [nodal(c, j, cfg['flags']) for j in with_ets(c, jobs_of(c, thin(c, beh, 60 if c.quick else 1500), cfg, ['eval'], 4, only='nd'), TYPES)]
        go2(c, 'func', 'FuncTrace', jobs, 'evaluation on every mesh of the bounded graph')
    n = 160 if c.quick else 1500
    go2(c, 'func', 'FuncTrace', with_ets(c, rand_jobs(c, n, 12 if c.quick else 16, OPS, ['a', 'b'], ['eval'], 3, only='nd', maxcells=24, maxdepth=3,
                                                      gridkw=dict(general=.35, periodic=.3, minper=1)), TYPES), 'evaluation in random histories')
