from meshlib import *


def run(c):
    cfgs = [('m1', dict(diag=[1, 4], n=3, max=3, w=[-1, 0, 2], d=[0, 1, 3], rows=1 if c.quick else 2, ents=[-1, 0, 1])),
            ('m2', dict(diag=[2], n=3, max=3 if c.quick else 4, w=[0, 1], d=[0, 2], rows=2, ents=[-1, 0, 1, 2]))]
    for name, cfg in cfgs:
        f = os.path.join(c.work, 'cfg_%s.json' % name)
        json.dump(cfg, open(f, 'w'))
        r = c.model('GaussGen', 'SPECIFICATION Spec\nVIEW View\nINVARIANT Laws\n', dict(CFG=f), 'conditioning: the equations hold, order does not matter, linear correction has the conditional law')
        beh = [json.loads(l) for l in sorted(r.lines) if l.startswith('{')]
        jobs = [dict(ops=b['h'], nobj=2, ncalls=8, seed=c.rng.randrange(1 << 30)) for b in thin(c, beh, 250 if c.quick else 4000)]
        go2(c, 'gauss', 'GaussTrace', jobs, 'fields with every matrix of the bounded graph')
    n = 250 if c.quick else 4000
    jobs = [dict(rand=dict(len=c.rng.choice([6, 12, 18]), n=c.rng.choice([3, 5, 8]), sing=c.rng.choice([0, 0, .3])), nobj=3, ncalls=10,
                 seed=c.rng.randrange(1 << 30)) for _ in range(n)]
    go2(c, 'gauss', 'GaussTrace', jobs, 'random fields up to size eight')
