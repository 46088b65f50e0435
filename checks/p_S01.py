from meshlib import *


def run(c, kinds=('chol',)):
    cfgs = [('m1', dict(diag=[1, 4], n=3, max=3 if c.quick else 4, w=[-1, 0, 2], d=[0, 1, 3])), ('m2', dict(diag=[2], n=4, max=4 if c.quick else 5, w=[0, 1], d=[0, 2]))]
    for name, cfg in cfgs:
        f = os.path.join(c.work, 'cfg_%s.json' % name)
        json.dump(cfg, open(f, 'w'))
        r = c.model('SpdGen', 'SPECIFICATION Spec\nVIEW View\nINVARIANT Laws\n', dict(CFG=f), 'symmetric positive semidefinite matrices, their null spaces, spectra and inverses')
        beh = [json.loads(l) for l in sorted(r.lines) if l.startswith('{')]
        jobs = [dict(ops=b['h'], kinds=kinds, nobj=2, ncalls=8, seed=c.rng.randrange(1 << 30)) for b in thin(c, beh, 250 if c.quick else 4000)]
        go2(c, 'spd', 'SpdTrace', jobs, 'decompositions of every matrix of the bounded graph')
    n = 250 if c.quick else 4000
    jobs = [dict(rand=dict(len=c.rng.choice([6, 12, 18]), n=c.rng.choice([3, 5, 8, 11]), sing=c.rng.choice([0, 0, .3, .6])), kinds=kinds, nobj=3, ncalls=10,
                 seed=c.rng.randrange(1 << 30)) for _ in range(n)]
    go2(c, 'spd', 'SpdTrace', jobs, 'random matrices up to size eleven, sparse and dense')
