from meshlib import *

OPS = ['split', 'split', 'refine', 'mrecord', 'mark_region', 'mark_region', 'delete_children', 'balance']
QK = ['bnd', 'bndv', 'bndv1', 'bndc1', 'region', 'region', 'region', 'region', 'dcbnd', 'dcpts', 'bbox', 'normal']


def run(c):
    le = dict(k='le', c=1, v=16)
    R = [dict(o='mark_region', f='r', et=et, p=le, strict=s, ob=ob, sf=sf) for et, s, ob, sf in
         [('vertex', True, True, ''), ('cell', True, False, ''), ('cell', False, True, 'a')]]
    R2 = [dict(o='mark_region', f='r', et='half_edge', p=le, strict=s, ob=ob, sf=sf) for s, ob, sf in [(True, True, ''), (False, False, 'a')]]
    i1 = [rect1(2, 0, 1, depth=3)]
    i2 = [rect2(2, 1, depth=3), rect2(2, 2, per=(0,), depth=3), general('L', rot=[0, 1, 2]), conn(*POLY['mix'])]
    for name, inits, regs in [('bnd1', i1, R), ('bnd2', i2, R + R2)]:
        # regions of submesh a are only asked for once it exists
        for sub, r in [('', [x for x in regs if x['sf'] == '']), ('a', regs)]:
            ii = [dict(i) for i in inits]
            cfg = dict(inits=ii, flags=['a'], ops=['split', 'mark_region'] + (['mrecord'] if not sub else []), max=3, maxdepth=2,
                       least=False, regions=[x for x in r if x['sf'] == ''])
            if sub:
                continue
            beh = gen(c, name, cfg, ['BoundaryInv'], [], 'a side is on the boundary iff it lies on a twinless root side')
            go(c, jobs_of(c, thin(c, beh, 1000 if c.quick else 9000), cfg, QK, 8, rflags=['r'], f=True), 'transitions of the bounded graph')
    n = 200 if c.quick else 2400
    go(c, rand_jobs(c, n, 9 if c.quick else 15, OPS, ['a', 'b'], QK, 10, rflags=['r', 's'], f=True, maxcells=36,
                    gridkw=dict(wild=.2, poly=.12, general=.45, periodic=.25)), 'random histories')
