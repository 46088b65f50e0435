"""Quadrature rules of the code under test; observations for spec/QuadTrace.tla."""
import numpy as np
import ad_mesh as AM
from adbase import drive
from assembler import GaussRule
from fem import QuadFE
from num import rq, rqs, q as Q, fl


def rule(dim, n, via, tri=False):
    if tri:
        return GaussRule(n, shape='triangle')
    order = n if dim == 1 else n * n
    if via:
        return GaussRule(order, element=QuadFE(dim, 'Q1'))
    return GaussRule(order, shape='interval' if dim == 1 else 'quadrilateral')


def pts(x, dim):
    return rqs(np.array(x, dtype=float).reshape(-1, dim))


def query(w, q):
    k, dim = q['k'], w.dim
    S = w.scale / w.unit
    sc = lambda x: pts((np.array(x, dtype=float).reshape(-1, dim) - np.array(w.shift[:dim])) * S, dim)
    if k == 'mapn':
        c = w.node(q['a'])
        ent = c if q['e'] < 0 else c.get_half_edge(q['e'])
        x = np.array([[fl(v) for v in p] for p in q['pts']], dtype=float)
        if x.shape[1] == 1:
            x = x[:, 0]
        r = rule(1 if q['e'] >= 0 else dim, q['n'], False)
        return dict(x=sc(r.map_rule(ent, nodes=x)))
    rdim = 1 if k == 'edge' else dim
    g = rule(rdim, q['n'], q['el'], k == 'tri')
    x0, w0 = pts(g.nodes(), 2 if k == 'tri' else rdim), rqs(np.ravel(g.weights()))
    if k in ('ref', 'tri'):
        return dict(x0=x0, w0=w0, n=int(g.n_nodes()))
    if k == 'scale':
        pos, width = w.node(q['a']).subcell_position(w.node(q['b']))
        pos = np.array([[float(v) for v in np.ravel(pos)]]) if dim == 2 else float(np.ravel(pos)[0])
        x, wt = g.scale_rule(pos, width)
        if q['only']:
            x = g.scale_rule(pos, width, nodes=g.nodes())
        return dict(x0=x0, x=pts(x, dim), w=rqs(np.ravel(wt)))
    c = w.node(q['a'])
    ent = c.get_half_edge(q['e']) if k == 'edge' else c
    if q['via'] == 'map':
        x, wt = g.map_rule(ent)
    elif q['mg']:
        x, wt, mg = g.mapped_rule(ent, jac_p2r=True, hess_p2r=q['mg'] > 1)
    else:
        x, wt = g.mapped_rule(ent)
    f = w.unit * q['h'] / w.scale
    return dict(x0=x0, x=sc(x), w=rqs(np.ravel(np.array(wt, dtype=float)) / f ** (1 if k == 'edge' else dim)))


def make_query(w, rng, job):
    kind = rng.choice(job['qk'])
    dim = w.dim
    if kind in ('edge', 'tri') and dim == 1:
        kind = 'cell'
    paths = [p for p, nd in w.map.items() if dim == 1 or nd.n_half_edges() == 4]
    if not paths:
        return None
    a = list(rng.choice(paths))
    n = rng.choice([1, 2, 3, 4, 5, 6])
    q = dict(k=kind, a=a, e=-1, n=n, el=rng.random() < .3, ex=[], o=[0] * dim, h=1, b=[], pts=[], via=rng.choice(['map', 'mapped']),
             mg=rng.choice([0, 0, 1, 2]) if dim == 2 and kind == 'cell' else 0, only=rng.random() < .4)
    if kind == 'tri':
        q['n'] = rng.choice([1, 3, 7, 13])
        return q
    if kind == 'ref':
        if dim == 2 and n > 4 and rng.random() < .7:
            q['n'] = rng.choice([1, 2, 3, 4])
        return q
    if kind == 'scale':
        q['b'] = list(rng.choice([p for p in paths if list(p[:len(a)]) == a]))
    if kind == 'mapn':
        if dim == 2 and rng.random() < .4:
            q['e'] = rng.randrange(4)
        d = 1 if q['e'] >= 0 else dim
        q['pts'] = [[Q(rng.randint(0, 6), 6) for _ in range(d)] for _ in range(rng.randint(1, 5))]
        return q
    if kind == 'edge':
        q['e'] = rng.randrange(4)
    C = [w.pt(v) for v in w.node(a).get_vertices()]
    q['o'] = C[rng.randrange(len(C))]
    q['h'] = max(max(abs(p[k] - C[0][k]) for p in C) for k in range(dim)) or 1
    top = 2 * n - 1
    if kind == 'edge':
        q['ex'] = [[i, rng.randint(0, top - i)] for i in [0, top, rng.randint(0, top), rng.randint(0, top)]]
    elif dim == 1:
        q['ex'] = [[i] for i in range(top + 1)]
    else:
        rect = all((C[i][0] == C[i - 1][0]) or (C[i][1] == C[i - 1][1]) for i in range(4)) or kind == 'scale'
        if rect:
            q['ex'] = [[0, 0], [top, top], [top, rng.randint(0, top)], [rng.randint(0, top), top]]
            if n > 3:
                q['ex'] = [[0, 0], [top, rng.randint(0, 2)], [rng.randint(0, 2), top]]
        else:
            s = max(0, top - 1)
            i = rng.randint(0, s)
            q['ex'] = [[0, 0], [i, s - i]] + ([[rng.randint(0, s // 2), rng.randint(0, s // 2)]] if n < 5 else [])
    return q


def run(job):
    return drive(job, query, make_query)
