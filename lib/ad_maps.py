"""Reference maps of the code under test; observations for spec/MapsTrace.tla."""
import random
import numpy as np
import ad_mesh as AM
from num import rq, rqs, q as Q, fl


def hist_seg(w, he, path):
    for k in path:
        he = he.get_child(k)
    return he


def query(w, q):
    k = q['q']
    c = w.node(q['a'])
    ent = c if q['e'] < 0 or w.dim == 1 else c.get_half_edge(q['e'])
    S = w.scale / w.unit
    toscaled = lambda x: [[(float(p[i]) - w.shift[i]) * S for i in range(w.dim)] for p in x]
    if k == 'sub':
        pos, width = ent.subcell_position(w.node(q['b']))
        return [rqs(np.ravel(pos)), [rq(width)]]
    if k == 'esub':
        pos, width = ent.subcell_position(hist_seg(w, ent, q['b']))
        return [[rq(pos)], [rq(width)]]
    pts = [[fl(x) for x in p] for p in q['pts']]
    quad = ent is c and w.dim == 2
    seg = w.dim == 2 and not quad
    x = np.array(pts if quad else [p[0] for p in pts], dtype=float)
    arg = [tuple(p) for p in pts] if quad and q['lst'] else x
    if k == 'map':
        y = ent.reference_map(arg)
        return rqs(toscaled(y) if w.dim == 2 else toscaled([[v] for v in np.ravel(y)]))
    phys = ent.reference_map(arg)
    if k == 'inv':
        if seg:
            phys = np.array(phys)
        r = ent.reference_map(phys, mapsto='reference')
        return rqs(r if quad else [[v] for v in np.ravel(r)])
    name = dict(jr2p='jac_r2p', jp2r='jac_p2r', hr2p='hess_r2p', hp2r='hess_p2r')[k]
    kw = {name: True}
    for o in q['also']:
        kw[o] = True
    if q['back']:
        dummy, mg = ent.reference_map(np.array(phys), mapsto='reference', **kw)
    else:
        dummy, mg = ent.reference_map(arg, **kw)
    r = mg[name]
    if k == 'jr2p':
        return [rqs(np.array(j, dtype=float).reshape(w.dim, -1) * S) for j in r]
    if k == 'jp2r':
        return [rqs(np.array(j, dtype=float).reshape(-1, w.dim) / S) for j in r]
    out = []
    for h in r:
        h = np.array(h)
        out.append([rqs(h[:, :, i] * S if k == 'hr2p' else h[:, :, i] / S ** 2) for i in (0, 1)])
    return out


def make_query(w, rng, job):
    kind = rng.choice(job['qk'])
    paths = list(w.map)
    a = list(rng.choice(paths))
    q = dict(q=kind, a=a, e=-1, pts=[], lst=rng.random() < .3, back=False, also=[], b=[])
    if kind == 'sub':
        if w.dim == 2 and w.node(a).n_half_edges() != 4:
            return None
        sub = [list(p) for p in paths if list(p[:len(a)]) == a]
        q['b'] = rng.choice(sub)
        return q
    if kind == 'esub':
        if w.dim == 1:
            return None
        q['e'] = rng.randrange(w.node(a).n_half_edges())
        he = w.node(a).get_half_edge(q['e'])
        while he.has_children() and rng.random() < .75:
            k = rng.randrange(2)
            he = he.get_child(k)
            q['b'].append(k)
        return q
    if w.dim == 2 and (rng.random() < .25 or w.node(a).n_half_edges() != 4):
        q['e'] = rng.randrange(w.node(a).n_half_edges())
    if kind in ('hr2p', 'hp2r') and (w.dim == 1 or q['e'] >= 0):
        return None
    n = rng.randint(1, 5)
    v = lambda: rng.choice([Q(0), Q(1), Q(1, 2), Q(rng.randint(0, 8), 8), Q(rng.randint(0, 7), 7), Q(1, 3)])
    q['pts'] = [[v(), v()] if w.dim == 2 and q['e'] < 0 else [v()] for _ in range(n)]
    q['back'] = rng.random() < .4
    if rng.random() < .4:
        q['also'] = rng.sample(['jac_r2p', 'jac_p2r', 'hess_r2p', 'hess_p2r'], rng.randint(1, 3))
    return q


def run(job):
    rng = random.Random(job.get('seed', 0))
    w = AM.World(job['init'])
    steps = []
    w.walk()
    ops = job.get('ops')
    n = len(ops) if ops is not None else job['rand']['len']
    for k in range(n):
        op = ops[k] if ops is not None else AM.rand_op(w, rng, job)
        st = dict(op=op, exc='', qs=[])
        cur = None
        try:
            AM.apply(w, op)
            w.walk()
            if not job.get('last') or k == n - 1:
                for _ in range(job['nq']):
                    cur = q = make_query(w, rng, job)
                    if q is not None:
                        st['qs'].append(dict(q=q, r=query(w, q)))
                cur = None
        except Exception as e:
            st['exc'] = '%s: %s%s' % (type(e).__name__, str(e)[:200], ' in query %s' % cur if cur else '')
        steps.append(st)
        if st['exc']:
            break
    return dict(init=job['init'], steps=steps)
