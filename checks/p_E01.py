from meshlib import *

QK = ['ref', 'ref', 'phys', 'phys', 'phys', 'phys', 'nodes', 'counts', 'constr']


def run(c):
    c.model('ElemGen', 'SPECIFICATION Spec\nINVARIANT Laws\n', {}, 'nodal basis, reproduction and derivatives of all elements')
    n = 120 if c.quick else 1500
    go2(c, 'elem', 'ElemTrace', rand_jobs(c, n, 3 if c.quick else 5, ['split', 'split', 'refine'], ['a'], QK, 30, maxcells=30,
                                          gridkw=dict(wild=.2, general=.5, periodic=.1)), 'shape functions on cells of random meshes')
