"""Grids and job generation shared by the mesh checks."""
import json, os


def rect1(n, a=0, h=1, per=False, unit=1, shift=0, depth=4, pre=()):
    v = [[a + i * h] for i in range(n + 1)]
    g = dict(dim=1, v=v, c=[[i, i + 1] for i in range(n)], per=[n * h if per else 0], scale=2 ** (depth + 1))
    return dict(grid=g, ctor=dict(k='rect', box=[a, a + n * h], res=[n], unit=unit, shift=[shift]), pre=[list(p) for p in pre])


def pts1(xs, per=False, unit=1, shift=0, depth=4, pre=(), perm=None):
    g = dict(dim=1, v=[[x] for x in xs], c=[[i, i + 1] for i in range(len(xs) - 1)],
             per=[xs[-1] - xs[0] if per else 0], scale=2 ** (depth + 1))
    ct = dict(k='points', unit=unit, shift=[shift])
    if perm:
        ct['perm'] = perm
    return dict(grid=g, ctor=ct, pre=[list(p) for p in pre])


def free1(xs, n, depth=3, unit=1, shift=0, pre=()):
    """intervals with n children each, outside any Mesh1D"""
    i = pts1(xs, unit=unit, shift=shift, depth=depth, pre=pre)
    i['grid'].update(nch=n, scale=n ** (depth + (n % 2 == 0)))
    i['ctor']['k'] = 'free'
    return i


def rect2(nx, ny, x0=0, y0=0, hx=1, hy=1, per=(), unit=1, shift=(0, 0), depth=4, pre=()):
    v = [[x0 + i * hx, y0 + j * hy] for j in range(ny + 1) for i in range(nx + 1)]
    idx = lambda i, j: j * (nx + 1) + i
    c = [[idx(i, j), idx(i + 1, j), idx(i + 1, j + 1), idx(i, j + 1)] for j in range(ny) for i in range(nx)]
    g = dict(dim=2, v=v, c=c, per=[nx * hx if 0 in per else 0, ny * hy if 1 in per else 0], scale=2 ** (depth + 1))
    return dict(grid=g, ctor=dict(k='rect', box=[x0, x0 + nx * hx, y0, y0 + ny * hy], res=[nx, ny], unit=unit,
                                  shift=list(shift)), pre=[list(p) for p in pre])


def conn(v, c, unit=1, shift=(0, 0), depth=3, pre=(), rot=None):
    c = [list(q[r:] + q[:r]) for q, r in zip([list(q) for q in c], rot or [0] * len(c))]
    g = dict(dim=2, v=[list(p) for p in v], c=c, per=[0, 0], scale=4 ** depth)
    return dict(grid=g, ctor=dict(k='conn', unit=unit, shift=list(shift)), pre=[list(p) for p in pre])


# general quadrilateral grids (convex cells, integer corners)
SHAPES = {
    'quad': ([(0, 0), (4, 1), (5, 5), (1, 4)], [(0, 1, 2, 3)]),
    'kite': ([(0, 0), (6, 0), (4, 4), (0, 6)], [(0, 1, 2, 3)]),
    'para': ([(0, 0), (4, 0), (6, 3), (2, 3)], [(0, 1, 2, 3)]),
    'two': ([(0, 0), (4, 0), (9, 1), (0, 4), (5, 3), (8, 6)], [(0, 1, 4, 3), (1, 2, 5, 4)]),
    'L': ([(0, 0), (3, 0), (6, 0), (0, 3), (3, 3), (6, 3), (0, 6), (3, 6)], [(0, 1, 4, 3), (1, 2, 5, 4), (3, 4, 7, 6)]),
    'hex': ([(0, 0), (6, -1), (4, 4), (-1, 6), (-5, 4), (-6, -1), (0, -6)],
            [(0, 6, 1, 2), (0, 2, 3, 4), (0, 4, 5, 6)]),
    'ring': ([(x, y) for y in (0, 2, 4, 6) for x in (0, 2, 4, 6)],
             [(j * 4 + i, j * 4 + i + 1, j * 4 + i + 5, j * 4 + i + 4) for j in range(3) for i in range(3) if (i, j) != (1, 1)]),
    'rtrap': ([(0, 0), (6, 0), (6, 4), (0, 2)], [(0, 1, 2, 3)]),
    'strip': ([(0, 0), (3, 0), (5, 0), (9, 0), (0, 3), (2, 3), (6, 3), (9, 5)], [(0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6)]),
}
POLY = {
    'tri': ([(0, 0), (4, 0), (0, 4), (4, 4), (8, 0)], [(0, 1, 2), (1, 3, 2), (1, 4, 3)]),
    'mix': ([(0, 0), (4, 0), (4, 4), (0, 4), (7, 2)], [(0, 1, 2, 3), (1, 4, 2)]),
}


def rand_quad(rng, m=9):
    """a random strictly convex quadrilateral with integer corners"""
    while True:
        p = [(rng.randint(0, m), rng.randint(0, m)) for _ in range(4)]
        ok = all((p[(i + 1) % 4][0] - p[i][0]) * (p[(i + 2) % 4][1] - p[i][1]) -
                 (p[(i + 2) % 4][0] - p[i][0]) * (p[(i + 1) % 4][1] - p[i][1]) > 0 for i in range(4))
        if ok:
            return p, [(0, 1, 2, 3)]


# very small, very large and far away domains (unit of length, shift); coordinates stay exact
WILD = [(2. ** -10, 1000), (2. ** -20, 0), (2. ** -20, 1), (2. ** -30, 0), (2. ** 12, 0), (2. ** 20, 3), (1, 2 ** 20)]



def rand_grid(rng, dims=(1, 2), periodic=.35, general=.35, depth=3, minper=2, shapes=None, poly=.0, free=.0, freen=(3, 3, 4), wild=.0):
    dim = rng.choice(dims)
    unit = rng.choice([1, 1, .5, .25, 2])
    shift = rng.choice([0, 0, 0, 1, -3])
    if wild and rng.random() < wild:
        unit, shift = rng.choice(WILD)
    if dim == 1:
        if free and rng.random() < free:
            return free1([0, 1, 3, 4][:rng.randint(2, 4)], rng.choice(freen), depth, unit, shift)
        per = rng.random() < periodic
        if rng.random() < .6:
            return rect1(rng.randint(minper if per else 1, 4), rng.choice([0, -2, 1]), rng.choice([1, 2]), per, unit, shift, depth)
        xs = [0]
        for _ in range(rng.randint(minper if per else 1, 4)):
            xs.append(xs[-1] + rng.choice([1, 2, 3]))
        perm = list(range(len(xs)))
        rng.shuffle(perm)
        return pts1(xs, per, unit, shift, depth, perm=perm)
    if rng.random() < poly:
        v, c = POLY[rng.choice(sorted(POLY))]
        return conn(v, c, unit, (shift, -shift), min(depth, 3))
    if rng.random() < general:
        v, c = SHAPES[rng.choice(shapes or sorted(SHAPES))] if shapes or rng.random() < .85 else rand_quad(rng)
        return conn(v, c, unit, (shift, -shift), min(depth, 3), rot=[rng.randrange(4) for _ in c])
    per = ()
    if rng.random() < periodic:
        per = rng.choice([(0,), (1,), (0, 1)])
    nx = rng.randint(minper if 0 in per else 1, 3)
    ny = rng.randint(minper if 1 in per else 1, 3)
    return rect2(nx, ny, rng.choice([0, -1]), rng.choice([0, 2]), rng.choice([1, 1, 3]), rng.choice([1, 1, 2]), per, unit,
                 (shift, shift), depth)


def gen(c, name, cfg, invs, props, what):
    f = os.path.join(c.work, 'cfg_%s.json' % name)
    json.dump(cfg, open(f, 'w'))
    txt = 'SPECIFICATION Spec\nVIEW View\n' + ''.join('INVARIANT %s\n' % i for i in invs) + \
          ''.join('PROPERTY %s\n' % p for p in props)
    r = c.model('MeshGen', txt, dict(CFG=f), what)
    return [json.loads(l) for l in sorted(r.lines) if l.startswith("{")]


def thin(c, beh, n):
    return beh if len(beh) <= n else c.rng.sample(beh, n)


def jobs_of(c, beh, cfg, qk, nq, rflags=(), **kw):
    o = dict(f=False, geo=False, top=False, pr=False)
    o.update(kw)
    return [dict(init=cfg['inits'][b['i'] - 1], ops=b['h'], flags=cfg['flags'], rflags=list(rflags), qk=qk, nq=nq, last=True,
                 seed=c.rng.randrange(1 << 30), **o) for b in beh]


def rand_jobs(c, n, length, ops, flags, qk, nq, rflags=(), maxdepth=3, maxcells=60, gridkw=None, physical=True, **kw):
    o = dict(f=False, geo=False, top=False, pr=False)
    o.update(kw)
    out = []
    for _ in range(n):
        gr = rand_grid(c.rng, depth=maxdepth, **(gridkw or {}))
        out.append(dict(init=gr, rand=dict(len=length, ops=ops, maxdepth=maxdepth, maxcells=maxcells, physical=physical),
                        flags=flags, rflags=list(rflags), qk=qk, nq=nq, seed=c.rng.randrange(1 << 30), **o))
    return out


def go(c, jobs, what, par=4, per_job=30):
    tr = c.execute('mesh', jobs, per_job=per_job)
    c.validate('MeshTrace', 'mesh', jobs, tr, what, chunk=max(25, (len(jobs) + par - 1) // par), par=par)


def general(name, **kw):
    v, cc = SHAPES[name]
    return conn(v, cc, **kw)


def gen_maps(c, name, cfg, what, invs=('Laws',), module='MapsGen'):
    f = os.path.join(c.work, 'cfg_%s.json' % name)
    json.dump(cfg, open(f, 'w'))
    r = c.model(module, 'SPECIFICATION Spec\nVIEW View\n' + ''.join('INVARIANT %s\n' % i for i in invs), dict(CFG=f), what)
    return [json.loads(l) for l in sorted(r.lines) if l.startswith("{")]


def go2(c, adapter, module, jobs, what, par=4, per_job=30):
    tr = c.execute(adapter, jobs, per_job=per_job)
    c.validate(module, adapter, jobs, tr, what, chunk=max(25, (len(jobs) + par - 1) // par), par=par)


TYPES = ['DQ0', 'Q1', 'Q2', 'Q3', 'DQ1', 'DQ2', 'DQ3']


def with_et(c, jobs, ets):
    out = []
    for j in jobs:
        j = dict(j)
        j['init'] = dict(j['init'], et=c.rng.choice(ets))
        out.append(j)
    return out


def gen_dofs(c, name, inits, ets, what, max=3, maxdepth=2, flags=('a',)):
    cfg = dict(inits=inits, flags=list(flags), ets=list(ets), max=max, maxdepth=maxdepth)
    return cfg, gen_maps(c, name, cfg, what, module='DofsGen')


def with_ets(c, jobs, pool, n=(1, 2)):
    """several element types, the unit of length as a fraction"""
    from fractions import Fraction
    out = []
    for j in jobs:
        j = dict(j)
        u = Fraction(j['init']['ctor'].get('unit', 1))
        j['init'] = dict(j['init'], ets=[c.rng.choice(pool) for _ in range(c.rng.randint(*n))], u=[u.numerator, u.denominator])
        out.append(j)
    return out
