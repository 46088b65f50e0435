from meshlib import *
OPS = ['split', 'split', 'refine', 'mrecord', 'mark']
# rules and parameters of the bounded histories
P = lambda dim, *t: [[c, list(e)[:dim]] for c, e in t]


def catalogue(dim, hs, sf, big):
    """concrete operations; functions are numbered in the order of creation"""
    x, x2, k = P(dim, (1, (1, 0))), P(dim, (1, (0, 0)), (2, (1, 0))), P(dim, (3, (0, 0)))
    R1, R2, R3 = [x, []], [x2, []], [k, []]
    B1 = [x, x2]
    ex = lambda rules, par, lst, plst, nopar=False, nv=1, **kw: dict(o='fop', k='ex', i=0, rules=rules, par=par, lst=lst, plst=plst, nopar=nopar, nv=nv, reuse=False, **kw)
    nd = lambda **kw: dict(dict(o='fop', k='nd', i=0, h=1, sf='', nv=1, ns=1, seed=3, int=False, flat=True, src='seed', via='init', str='u', reuse=False), **kw)
    up = lambda k, i, **kw: dict(o='fop', k=k, i=i, reuse=False, **kw)
    ops = [ex([R1], [[['c', 2]]], True, True), ex([R1, R2], [[['c', 2]], [['d', -2]]], True, True), ex([R3], [[]], False, False, nopar=True),
           dict(o='fop', k='cn', i=0, nv=1, c=[2], lst=False, reuse=False), dict(o='fop', k='cn', i=0, nv=1, c=[1, -4], lst=True, reuse=False),
           nd(ns=2), nd(via='add', flat=False, seed=5), nd(h=hs, sf=sf, src='f', rules=[R2, R1], par=[[['d', 3]]], lst=True, plst=False, nopar=False)]
    if big:
        ops += [ex([B1], [[['c', -2], ['d', 2]]], False, True, nv=2), nd(nv=2, ns=2), nd(int=True, seed=7), nd(via='set', ns=2)]
    ops += [dict(o, reuse=True) for o in ops if o['k'] != 'nd' and not (o['k'] == 'ex' and not (o['lst'] and o['plst']))
            or o['k'] == 'nd' and o['src'] == 'seed' and o['via'] != 'add']
    for i in (1, 2):
        ops += [up('add_rule', i, rules=[R3], par=[[['c', 3]]], s=1, nv=1, nopar=False), up('set_rule', i, rules=[R2], par=[[['d', 2]]], s=2, nv=1, nopar=False),
                up('set_pars', i, rules=[R1], par=[[['c', -2]]], s=1, nv=1, nopar=False), up('set_par', i, rules=[R1], par=[[['c', 0]]], s=2, nv=1, nopar=False),
                up('set_rules', i, rules=[R2, R3, R1], par=[[['c', 2]]], lst=True, plst=True, nopar=False, nv=1),
                up('set_const', i, c=[5], lst=False),
                up('set_data', i, ns=2, nv=1, seed=1, int=False, flat=False, src='seed'), up('set_data', i, ns=1, nv=1, seed=1, int=True, flat=True, src='seed'),
                up('set_data', i, ns=1, nv=1, seed=1, int=False, flat=True, src='f', rules=[R1, R2], par=[[]], lst=True, plst=False, nopar=True),
                up('modify', i, s=1, ix=[0], all=False, arr=False, col=False, dfl=True, seed=4), up('modify', i, s=2, ix=[2, 0], all=False, arr=True, col=True, dfl=False, seed=6),
                up('add_samples', i, ns=1, nv=1, seed=8, int=False, flat=True, src='seed'),
                up('interp', i, h=1, sf=''), up('interp', i, h=hs, sf=sf), up('diff', i, der=[1, 0, 0], dstr=True), up('diff', i, der=[0, 0, 0], dstr=False)]
    for o in ops:
        if o['k'] == 'set_data' and o['src'] == 'f':
            o['ns'] = 2
    return ops


def transfers(dim):
    """nodal functions carried between submeshes and elements"""
    nd = lambda **kw: dict(dict(o='fop', k='nd', i=0, nv=1, ns=1, seed=3, int=False, flat=True, src='seed', via='init', str='u', reuse=False), **kw)
    ops = [nd(h=h, sf=sf) for h in (1, 2) for sf in ('a', '')]
    for i in (1, 2):
        ops += [dict(o='fop', k='interp', i=i, h=h, sf=sf, reuse=False) for h in (1, 2) for sf in ('', 'a')]
        ops += [dict(o='fop', k='diff', i=i, der=[1, 0, 0], dstr=False, reuse=False)]
    return ops


def run(c):
    for name, init, base, ets in [('t1', rect1(2, 0, 1, depth=3), [dict(o='record', f='a'), dict(o='split', a=[0]), dict(o='split', a=[0, 1])], ['Q2', 'DQ2']),
                                  ('t2', rect2(2, 1, depth=3), [dict(o='record', f='a'), dict(o='split', a=[1])], ['Q1', 'DQ1']),
                                  ('t3', rect2(2, 1, depth=3), [dict(o='record', f='a'), dict(o='split', a=[0])], ['DQ0', 'DQ2'])]:
        init = dict(init, ets=ets, u=[1, 1])
        cfg = dict(inits=[init], base=[base], flags=['a'], max=2 if c.quick else 3, maxfun=2 if c.quick else 3, ops=transfers(init['grid']['dim']))
        f = os.path.join(c.work, 'cfg_%s.json' % name)
        json.dump(cfg, open(f, 'w'))
        r = c.model('FuncGen', 'SPECIFICATION SpecU\nVIEW ViewU\nINVARIANT Shape\n', dict(CFG=f), 'transfers between submeshes and elements')
        beh = [json.loads(l) for l in sorted(r.lines) if l.startswith("{")]
        go2(c, 'func', 'FuncTrace', jobs_of(c, thin(c, beh, 300 if c.quick else 2000), cfg, ['eval'], 3), 'every transfer history of the bounded graph')
    for name, init, base, ets, mx in [('u1', rect1(2, 0, 1, depth=3), [dict(o='record', f='a'), dict(o='split', a=[0])], ['Q1', 'DQ1'], 3 if c.quick else 4),
                                      ('u2', rect2(2, 1, depth=3), [dict(o='record', f='a'), dict(o='split', a=[1])], ['Q1', 'Q2'], 2 if c.quick else 3)]:
        init = dict(init, ets=ets, u=[1, 1])
        cfg = dict(inits=[init], base=[base], flags=['a'], max=mx, maxfun=2, ops=catalogue(init['grid']['dim'], 2, 'a', not c.quick or name == 'u2'))
        f = os.path.join(c.work, 'cfg_%s.json' % name)
        json.dump(cfg, open(f, 'w'))
        r = c.model('FuncGen', 'SPECIFICATION SpecU\nVIEW ViewU\nINVARIANT Shape\n', dict(CFG=f), 'updates are local and lose nothing')
        beh = [json.loads(l) for l in sorted(r.lines) if l.startswith("{")]
        jobs = jobs_of(c, thin(c, beh, 500 if c.quick else 4000), cfg, ['eval'], 3)
        go2(c, 'func', 'FuncTrace', jobs, 'every update history of the bounded graph')
    n = 160 if c.quick else 1500
    go2(c, 'func', 'FuncTrace', with_ets(c, rand_jobs(c, n, 14 if c.quick else 20, OPS, ['a', 'b'], ['eval'], 2, only='', maxcells=16, maxdepth=2,
                                                      maxleaves=10, gridkw=dict(general=.25, periodic=.3, minper=1)), TYPES), 'random update histories')
