"""Shape functions of the code under test; observations for spec/ElemTrace.tla."""
import random
import numpy as np
import ad_mesh as AM
import fem
from fem import QuadFE, Basis, DofHandler, parse_derivative_info
from num import rq, rqs, q as Q, fl

TYPES = ['DQ0', 'Q1', 'Q2', 'Q3', 'DQ1', 'DQ2', 'DQ3']
_cache = {}


def element(dim, et):
    if (dim, et) not in _cache:
        _cache[dim, et] = QuadFE(dim, et)
    return _cache[dim, et]


def query(w, q):
    k = q['q']
    e = element(w.dim, q['et'])
    if k == 'nodes':
        return rqs(e.reference_nodes())
    if k == 'counts':
        return [int(e.n_dofs()), int(e.polynomial_degree()), int(e.n_dofs('vertex')), int(e.n_dofs('edge')),
                int(e.n_dofs('cell')), int(e.torn_element())]
    if k == 'constr':
        c = e.constraint_coefficients()
        out = []
        q['at'] = []
        for h in (0, 1):
            for i in sorted(c[h]):
                q['at'].append([h, int(i)])
                out.append([rq(np.ravel(v)[0]) for v in c[h][i]])
        return out
    x = np.array([[fl(v) for v in p] for p in q['pts']], dtype=float)
    der = tuple(q['der'])
    if w.dim == 1 and der[0] == 1 and q['via'] != 'basis':
        der = (1, 0)
    if k == 'ref':
        if q['via'] == 'shape':
            return rqs(e.shape(x, derivatives=der, local_dofs=q['ld']))
        if q['via'] == 'list':
            return rqs(e.shape(x, derivatives=[(0,), der], local_dofs=q['ld'])[1])
        cols = []
        for n in q['ld']:
            if der[0] == 0:
                cols.append(np.ravel(e.phi(n, x)))
            elif der[0] == 1:
                cols.append(np.ravel(e.dphi(n, x, var=der[1])))
            else:
                cols.append(np.ravel(e.d2phi(n, x, tuple(der[1:]))))
        return rqs(np.array(cols).T)
    # mapped to a cell
    c = w.node(q['a'])
    S = (w.scale / w.unit) ** der[0]
    if q['via'] == 'basis':
        name = 'u' + ''.join('xy'[v] for v in der[1:1 + der[0]])
        b = Basis(w.dh(q['et']), derivative=name)
        if q['phys']:
            y = c.reference_map(x)
            r = b.eval(y if w.dim == 2 else np.array(y).reshape(-1, 1), c, location='physical')
        else:
            r = b.eval(x, c)
        return rqs(np.array(r)[:, q['ld']] / S)
    y, mg = c.reference_map(x, jac_p2r=True, hess_p2r=True)
    if q['phys']:
        dummy, mg = c.reference_map(y, mapsto='reference', jac_p2r=True, hess_p2r=True)
    if q['via'] == 'list':
        r = e.shape(x, cell=c, derivatives=[der, (0,)], jac_p2r=mg['jac_p2r'], hess_p2r=mg['hess_p2r'], local_dofs=q['ld'])[0]
    else:
        r = e.shape(x, cell=c, derivatives=der, jac_p2r=mg['jac_p2r'], hess_p2r=mg['hess_p2r'], local_dofs=q['ld'])
    return rqs(np.array(r) / S)


def make_query(w, rng, job):
    kind = rng.choice(job['qk'])
    cells = [list(p) for p, n in w.map.items() if w.dim == 1 or n.n_half_edges() == 4]
    if not cells:
        return None
    et = rng.choice(TYPES)
    e = element(w.dim, et)
    q = dict(q=kind, a=rng.choice(cells), et=et, pts=[], der=[0], ld=[], via='', phys=False, at=[])
    if kind in ('nodes', 'counts'):
        return q
    if kind == 'constr':
        if w.dim == 1:
            return None
        if et == 'DQ0':
            q['et'] = 'Q1'
        return q
    o = rng.choice([0, 1, 1, 2, 2])
    q['der'] = [0] if o == 0 else [o] + [rng.randrange(w.dim) for _ in range(o)]
    v = lambda: rng.choice([Q(0), Q(1), Q(1, 2), Q(1, 3), Q(2, 3), Q(rng.randint(0, 8), 8), Q(rng.randint(0, 7), 7)])
    q['pts'] = [[v() for _ in range(w.dim)] for _ in range(rng.choice([1, 3, 4]))]
    q['via'] = rng.choice(['shape', 'list', 'phi'] if kind == 'ref' else ['shape', 'list', 'basis'])
    q['ld'] = list(range(e.n_dofs()))
    if rng.random() < .5:
        q['ld'] = [rng.randrange(e.n_dofs()) for _ in range(rng.randint(1, 4))]
    q['phys'] = rng.random() < .5
    return q


def run(job):
    rng = random.Random(job.get('seed', 0))
    w = AM.World(job['init'])
    dhs = {}
    w.dh = lambda et: dhs.setdefault(et, None) or dhs.__setitem__(et, mk(w, et)) or dhs[et]
    steps = []
    w.walk()
    ops = job.get('ops')
    n = len(ops) if ops is not None else job['rand']['len']
    for k in range(n):
        op = ops[k] if ops is not None else AM.rand_op(w, rng, job)
        st = dict(op=op, exc='', qs=[])
        cur = None
        try:
            AM.apply(w, op)
            w.walk()
            if k == n - 1:
                for _ in range(job['nq']):
                    cur = q = make_query(w, rng, job)
                    if q is not None:
                        st['qs'].append(dict(r=query(w, q), q=q))
                cur = None
        except Exception as e:
            st['exc'] = '%s: %s%s' % (type(e).__name__, str(e)[:200], ' in query %s' % cur if cur else '')
        steps.append(st)
        if st['exc']:
            break
    return dict(init=job['init'], steps=steps)


def mk(w, et):
    w.mesh.balance() if w.dim == 2 else None
    dh = DofHandler(w.mesh, element(w.dim, et))
    dh.distribute_dofs()
    return dh
