"""Shared by p_F01..p_F04: bounded state graphs -> behaviours -> replay -> validation."""
import json, os

ORPH = dict(StructInv='StructInv')


def gen(c, name, cfg, invs, props, what):
    """model-check ForestGen under cfg and return the printed behaviours"""
    f = os.path.join(c.work, 'cfg_%s.json' % name)
    json.dump(cfg, open(f, 'w'))
    txt = 'SPECIFICATION Spec\nVIEW View\n' + ''.join('INVARIANT %s\n' % i for i in invs) + \
          ''.join('PROPERTY %s\n' % p for p in props)
    r = c.model('ForestGen', txt, dict(CFG=f), what)
    beh = [json.loads(l) for l in r.lines if l.startswith('{')]
    return beh


def thin(c, beh, n):
    if len(beh) <= n:
        return beh
    return c.rng.sample(beh, n)


def jobs_of(c, beh, cfg, qk, nq, s, f, kinds=('tree',)):
    out = []
    for b in beh:
        init = dict(cfg['inits'][b['i'] - 1])
        k = c.rng.choice(kinds)
        ok = all(t['reg'] and t['n'] == dict(interval=2, quad=4).get(k, t['n']) for t in init['trees']) and \
            not init['free'] and not any(o['o'] in ('add_tree', 'remove_tree') for o in b['h'])
        init['kind'] = k if ok else 'tree'
        init['ctor'] = c.rng.random() < .5
        out.append(dict(init=init, ops=b['h'], flags=cfg['flags'], qk=qk, nq=nq, s=s, f=f, last=True,
                        seed=c.rng.randrange(1 << 30)))
    return out


def rand_jobs(c, n, length, ops, flags, qk, nq, s, f, maxdepth=4, kinds=('tree', 'interval', 'quad'), free=.15):
    out = []
    for i in range(n):
        k = c.rng.choice(kinds)
        fr = k == 'tree' and c.rng.random() < free
        nt = 1 if fr else c.rng.randint(1, 3)
        trees = []
        for _ in range(nt):
            reg = k != 'tree' or c.rng.random() < .75
            nn = dict(interval=2, quad=4).get(k, c.rng.choice([2, 4]))
            trees.append(dict(n=nn, reg=reg, pre=c.rng.choice([[], [[]], [[], [1]]]) if reg else []))
        out.append(dict(init=dict(free=fr, kind=k, trees=trees, ctor=c.rng.random() < .5),
                        rand=dict(len=length, ops=ops, maxdepth=maxdepth), flags=c.rng.choice(flags),
                        qk=qk, nq=nq, s=s, f=f, seed=c.rng.randrange(1 << 30)))
    return out


def go(c, jobs, what, par=4):
    tr = c.execute('forest', jobs)
    c.validate('ForestTrace', 'forest', jobs, tr, what, chunk=max(50, (len(jobs) + par - 1) // par), par=par)


R2 = dict(n=2, reg=True, pre=[])
R2s = dict(n=2, reg=True, pre=[[]])
R2d = dict(n=2, reg=True, pre=[[], [1]])
R4 = dict(n=4, reg=True, pre=[])
IR = dict(n=0, reg=False, pre=[])
