"""Drives Mesh1D/QuadMesh/Mesh2D of the code under test; observations for spec/MeshTrace.tla.

job: {init:{grid, ctor, pre}, ops | rand:{len, ops, maxdepth}, flags, rflags, qk, nq, f, geo, top, pr, seed, last}
grid: {dim, v, c, per, scale}; real coordinate = integer * unit + shift
"""
import random
import numpy as np
import ad_forest as AF
from ad_forest import FLAG, NONE
from mesh import Mesh1D, Mesh2D, QuadMesh, Vertex, HalfEdge, QuadCell, Interval, Forest
BAD = 999983


class Free:
    """a row of intervals that are not part of a Mesh1D"""
    def __init__(self, x, n):
        v = [Vertex(xi) for xi in x]
        itv = [Interval(a, b, n_children=n) for a, b in zip(v, v[1:])]
        for a, b in zip(itv, itv[1:]):
            b.assign_previous(a)
        self.cells = Forest(itv)

    def record(self, flag):
        self.cells.record(flag)


class World(AF.World):
    def __init__(self, init):
        self.free = False
        self.kind = 'mesh'
        self.g = g = init['grid']
        ct = init['ctor']
        self.unit = ct.get('unit', 1)
        self.shift = ct.get('shift', [0, 0])
        self.scale = g['scale']
        self.dim = g['dim']
        R = lambda i, k: i * self.unit + self.shift[k]
        per = set(k for k in range(g['dim']) if g['per'][k]) or None
        if ct['k'] == 'rect':
            b = ct['box']
            kw = dict(box=[R(b[i], i // 2) for i in range(2 * self.dim)], resolution=tuple(ct['res']))
            if per:
                kw['periodic'] = True if self.dim == 1 else per
            # arguments that have their default value are left out
            if kw['box'] == [0, 1] * self.dim:
                del kw['box']
            if kw['resolution'] == (1,) * self.dim:
                del kw['resolution']
            self.mesh = (Mesh1D if self.dim == 1 else QuadMesh)(**kw)
        elif ct['k'] == 'free':
            self.mesh = Free([R(v[0], 0) for v in g['v']], g['nch'])
        elif ct['k'] == 'points':
            x = np.array([R(v[0], 0) for v in g['v']], dtype=float)
            self.mesh = Mesh1D(x=x[ct['perm']] if 'perm' in ct else x, periodic=per is not None)
        else:
            x = np.array([[R(v[0], 0), R(v[1], 1)] for v in g['v']], dtype=float)
            cls = QuadMesh if all(len(c) == 4 for c in g['c']) else Mesh2D
            self.mesh = cls(x=x, connectivity=[list(c) for c in g['c']])
        self.poly = self.dim == 2 and any(len(c) != 4 for c in g['c'])
        self.forest = self.mesh.cells
        self.marks = {}
        for p in init['pre']:
            self.node(p).split()

    def walk(self):
        AF.World.walk(self)
        self.side = {}
        if self.dim == 2:
            for path, nd in self.map.items():
                for j, he in enumerate(nd.get_half_edges()):
                    self.side[id(he)] = [list(path), j]
        return self.map

    def pt(self, v):
        """scaled integer coordinates of a vertex / point"""
        xs = v.coordinates() if isinstance(v, Vertex) else v
        out = []
        for k, x in enumerate(xs):
            y = (float(x) - self.shift[k]) / self.unit * self.scale
            r = int(round(y))
            out.append(r if abs(y - r) < 1e-6 else BAD)
        return out

    def real(self, p):
        return tuple(p[k] / self.scale * self.unit + self.shift[k] for k in range(self.dim))

    def sd(self, he):
        return [NONE, -1] if he is None else self.side.get(id(he), [[-2], -2])


def num(y):
    r = int(round(y))
    return r if abs(y - r) < 1e-6 * max(1, abs(y)) else BAD


def topo(w, halfedges):
    out = []
    for path, nd in w.map.items():
        vs = nd.get_vertices()
        d = dict(a=list(path), C=[w.pt(v) for v in vs], V=[w.vid.setdefault(id(v), len(w.vid)) for v in vs], he=[],
                 rect=False)
        w.keep.extend(vs)
        if w.dim == 1:
            d['ar'] = num(nd.length() / w.unit * w.scale)
        else:
            d['ar'] = num(2 * nd.area() / w.unit ** 2 * w.scale ** 2)
            if isinstance(nd, QuadCell):
                d['rect'] = bool(nd.is_rectangle())
            if halfedges:
                for j, he in enumerate(nd.get_half_edges()):
                    tw = he.twin()
                    t = w.sd(tw)
                    nx, pv = w.sd(he.next()), w.sd(he.previous())
                    kids = [w.sd(c) for c in he.get_children()]
                    d['he'].append(dict(tw=t[0], tj=t[1], nx=nx[1] if nx[0] == list(path) else -3,
                                        pv=pv[1] if pv[0] == list(path) else -3, own=he.cell() is nd,
                                        back=tw is None or tw.twin() is he, kids=kids, per=bool(he.is_periodic()),
                                        b=w.pt(he.base()), h=w.pt(he.head())))
        out.append(d)
    return out


def pred(w, p):
    k = p['k']
    if k == 'all':
        return lambda *x: True
    if k == 'not':
        f = pred(w, p['l'])
        return lambda *x: not f(*x)
    if k in ('and', 'or'):
        f, g = pred(w, p['l']), pred(w, p['r'])
        return (lambda *x: f(*x) and g(*x)) if k == 'and' else (lambda *x: f(*x) or g(*x))
    c = p['c'] - 1
    v = p['v'] / 16 * w.unit + w.shift[c]
    e = 1e-9 * w.unit
    if k == 'le':
        return lambda *x: x[c] <= v + e
    if k == 'ge':
        return lambda *x: x[c] >= v - e
    return lambda *x: abs(x[c] - v) <= e


def apply(w, op):
    if op['o'] == 'balance':
        w.mesh.balance(subforest_flag=FLAG[op['f']])
    elif op['o'] == 'mark_region':
        w.mesh.mark_region(FLAG[op['f']], pred(w, op['p']), entity_type=op['et'], strict_containment=op['strict'],
                           on_boundary=op['ob'], subforest_flag=FLAG[op['sf']])
    elif op['o'] == 'record' and op.get('m'):
        w.mesh.record(FLAG[op['f']])
    else:
        AF.apply(w, op)


def bins(w, bs):
    return [dict(c=w.p(c), i=[int(i) for i in idx]) for c, idx in bs]


def query(w, q):
    k = q['q']
    f = FLAG[q['f']] if 'f' in q else None
    sf = FLAG[q['sf']] if 'sf' in q else None
    m = w.mesh
    if k == 'nbr':
        c = w.node(q['a'])
        return w.p(c.get_neighbors(c.get_half_edge(q['j']), flag=f))
    if k == 'vnbr':
        c = w.node(q['a'])
        return [w.p(n) for n in c.get_neighbors(c.get_vertex(q['i']), flag=f)]
    if k == 'inbr':
        c = w.node(q['a'])
        return w.p(c.get_neighbor(c.get_vertex(q['p']) if q['v'] else q['p'], subforest_flag=f,
                                  mode='level-wise' if q['lev'] else 'physical'))
    if k == 'balanced':
        return bool(m.is_balanced(subforest_flag=f))
    if k == 'bins':
        x = np.array([w.real(p) for p in q['pts']], dtype=float)
        tgt = m if q['a'] == [] else w.node(q['a'])
        ip = q.get('ip')
        if q.get('tup') and w.dim == 2:
            x = [tuple(p) for p in x]
        try:
            bs = bins(w, tgt.bin_points(x, **(dict(i_points=np.array(ip)) if ip else {}), subforest_flag=f))
            for b in bs if ip else []:      # the caller's indices, back to positions
                b['i'] = [ip.index(i) if i in ip else -7 for i in b['i']]
            return dict(rej=False, bins=bs)
        except AssertionError:
            return dict(rej=True, bins=[])
    if k == 'inside':
        x = np.array([w.real(p) for p in q['pts']], dtype=float)
        return [bool(b) for b in w.node(q['a']).contains_points(x)]
    if k == 'onside':
        he = w.node(q['a']).get_half_edge(q['j'])
        x = np.array([w.real(p) for p in q['pts']], dtype=float)
        return [bool(b) for b in np.ravel(he.contains_points(x))]
    if k == 'bnd':
        segs = [[w.sd(he) for he in seg] for seg in m.get_boundary_segments(subforest_flag=sf, flag=f)]
        return segs if f is None else [s for s in segs if s]
    if k == 'dcnbr':
        if w.dim == 1:
            d = m.dcel.half_edges['connectivity'][q['a'][0]][q['j']]
        else:
            d = dc_sides(w)[1][q['a'][0], q['j']]
        r = m.dcel.get_neighbor(q['a'][0], d)
        return -1 if r is None else int(r)
    if k == 'dcbnd':
        side = dc_sides(w)[0]
        return [[side[int(h)] for h in seg] for seg in m.dcel.get_boundary_half_edges()]
    if k == 'dcpts':
        return [w.pt(m.dcel.points['coordinates'][int(i)]) for i in m.dcel.get_boundary_points()]
    if k == 'bbox':
        if q['a'] == []:
            b = m.bounding_box()
        elif w.dim == 2:
            b = w.node(q['a']).bounding_box()
        b = [float(x) for x in b]
        if w.dim == 1:
            return [w.pt([x])[0] for x in b]
        lo, hi = w.pt([b[0], b[2]]), w.pt([b[1], b[3]])
        return [lo[0], hi[0], lo[1], hi[1]]
    if k == 'normal':
        he = w.node(q['a']).get_half_edge(q['j'])
        L = he.length()
        n = he.unit_normal() * L * w.scale / w.unit
        return [num(n[0]), num(n[1]), num((L * w.scale / w.unit) ** 2)]
    if k == 'xseg':
        seg = [w.real(p) for p in q['s']]
        c = w.node(q['a'])
        return bool((c if q['j'] < 0 else c.get_half_edge(q['j'])).intersects_line_segment(seg))
    if k == 'bndv':
        return [w.pt(v) for v in m.get_boundary_vertices(subforest_flag=sf, flag=f)]
    if k == 'bndv1':
        return [w.pt(v) for v in m.get_boundary_vertices()]
    if k == 'bndc1':
        r = [w.p(c) for c in m.get_boundary_cells(subforest_flag=sf)]
        return r[:1] if len(r) == 2 and r[0] == r[1] else r
    if k == 'region':
        R = m.get_region(flag=f, entity_type=q['et'], on_boundary=q['ob'], subforest_flag=sf, return_cells=q['rc'])
        ent = dict(vertex=w.pt, half_edge=w.sd, cell=w.p)[q['et']]
        if q['rc']:
            return [[ent(e), w.p(c)] for e, c in R]
        return [ent(e) for e in R]
    if k == 'size':
        if w.dim == 1:
            return num(sum(c.length() for c in m.cells.get_leaves(subforest_flag=f)) / w.unit * w.scale)
        return num(2 * sum(c.area() for c in m.cells.get_leaves(subforest_flag=f)) / w.unit ** 2 * w.scale ** 2)
    if k == 'periodic':
        return bool(m.is_periodic(set(q['cs'])) if w.dim == 2 else m.is_periodic())
    if k == 'vpair':
        for c in w.map.values():
            for v in c.get_vertices():
                if w.pt(v) == q['x']:
                    prs = {tuple(w.pt(y)) for _, y in v.get_periodic_pair()} - {tuple(q['x'])} if v.is_periodic() else set()
                    return [list(p) for p in sorted(prs)]
        return [[BAD]]
    return AF.query(w, q)


def dc_sides(w):
    """half-edge index -> [[root], side] of the edge list, and back"""
    d = w.mesh.dcel
    side, back = {}, {}
    for f in range(d.faces['n']):
        h = int(d.faces['half_edge'][f])
        for j in range(len(d.faces['connectivity'][f])):
            side[h], back[f, j] = [[f], j], h
            h = int(d.half_edges['next'][h])
    return side, back


def rand_points(w, rng, cells, n, outside=.0):
    """random points in units 1/scale: corners, midpoints, and random points of given cells"""
    out = []
    for _ in range(n):
        c = rng.choice(cells)
        vs = [w.pt(v) for v in c.get_vertices()]
        if w.dim == 1:
            a, b = vs[0][0], vs[1][0]
            out.append([rng.choice([a, b, (a + b) // 2, rng.randint(a, b)])])
        else:
            r = rng.random()
            if r < .25:
                p = rng.choice(vs)
            elif r < .5:
                i = rng.randrange(len(vs))
                p = [(vs[i][k] + vs[(i + 1) % len(vs)][k]) // 2 for k in (0, 1)]
                if any((vs[i][k] + vs[(i + 1) % len(vs)][k]) % 2 for k in (0, 1)):
                    p = vs[i]
            else:
                xs, ys = [v[0] for v in vs], [v[1] for v in vs]
                p = [rng.randint(min(xs), max(xs)), rng.randint(min(ys), max(ys))]
                if not convex_in(vs, p):
                    p = rng.choice(vs)
            out.append(list(p))
    if outside and rng.random() < outside:
        far = 3 * max(abs(x) for p in out for x in p) + 7
        out[rng.randrange(len(out))] = [far] * w.dim
    return out


def convex_in(vs, p):
    n = len(vs)
    return all((vs[(i + 1) % n][0] - vs[i][0]) * (p[1] - vs[i][1]) - (p[0] - vs[i][0]) * (vs[(i + 1) % n][1] - vs[i][1]) >= 0
               for i in range(n))


def rooted(w, flags):
    return [f for f in flags if w.forest.subtrees_rooted(FLAG[f])]


def rand_pred(w, rng, depth=0):
    r = rng.random()
    if r < .1:
        return dict(k='all')
    if r < .35 and depth < 2:
        return dict(k=rng.choice(['and', 'or']), l=rand_pred(w, rng, depth + 1), r=rand_pred(w, rng, depth + 1))
    if r < .42 and depth < 2:
        return dict(k='not', l=rand_pred(w, rng, depth + 1))
    c = rng.randint(1, w.dim)
    xs = sorted({v[c - 1] for v in w.g['v']})
    v = rng.randint(16 * xs[0], 16 * xs[-1])
    if rng.random() < .6:
        v = rng.choice(xs) * 16 + rng.choice([0, 0, 8])
    return dict(k=rng.choice(['le', 'ge', 'eq', 'eq']), c=c, v=v)


def make_query(w, kind, rng, job):
    flags, rfl = job['flags'], job.get('rflags', [])
    ok = [''] + rooted(w, flags)
    paths = list(w.map)
    a = list(rng.choice(paths))
    nd = w.map[tuple(a)]
    q = dict(q=kind)
    if w.poly and kind in ('bins', 'balanced'):
        return None
    if isinstance(w.mesh, Free) and kind in ('dcnbr', 'dcpts', 'bbox', 'bndv1', 'bndc1', 'region', 'periodic', 'vpair'):
        return None
    if kind in ('nbr', 'vnbr', 'balanced', 'onside', 'bnd', 'bndv', 'dcbnd', 'normal', 'xseg') and w.dim != 2 or kind in ('inbr', 'bndv1', 'bndc1') and w.dim != 1:
        return None
    if kind == 'nbr':
        q.update(a=a, j=rng.randrange(nd.n_half_edges()), f=rng.choice([''] + flags))
    elif kind == 'vnbr':
        q.update(a=a, i=rng.randrange(nd.n_half_edges()), f=rng.choice([''] + flags))
    elif kind == 'inbr':
        q.update(a=a, p=rng.randrange(2), f=rng.choice(ok), lev=rng.random() < .3, v=rng.random() < .3)
        if w.g['per'][0] and len(w.g['c']) == 1:
            q['v'] = False
        # the requested interval should belong to the submesh it asks about
        if q['f'] and not nd.is_marked(FLAG[q['f']]):
            q['f'] = ''
    elif kind == 'dcnbr':
        a = [rng.randrange(len(w.g['c']))]
        q.update(a=a, j=rng.randrange(len(w.g['c'][a[0]])))
    elif kind in ('dcbnd', 'dcpts'):
        pass
    elif kind == 'bbox':
        q.update(a=a if w.dim == 2 and rng.random() < .6 else [])
    elif kind == 'normal':
        q.update(a=a, j=rng.randrange(nd.n_half_edges()))
    elif kind == 'xseg':
        p = rand_points(w, rng, [nd], 3) + rand_points(w, rng, list(w.map.values()), 5)
        s = rng.sample(p, 2)
        if rng.random() < .4:        # along or beside the cell
            d = [rng.choice([-1, 0, 1]) * w.scale // 4, rng.choice([-1, 0, 1]) * w.scale // 4]
            s = [[p[0][k] + d[k] for k in (0, 1)], [p[1][k] + d[k] for k in (0, 1)]]
        if s[0] == s[1]:
            return None
        q.update(a=a, j=rng.randrange(-1, nd.n_half_edges()), s=s)
    elif kind == 'balanced':
        q.update(f=rng.choice(ok))
    elif kind == 'bins':
        q.update(f=rng.choice(ok), a=a if rng.random() < .35 else [])
        q['pts'] = rand_points(w, rng, [nd] if q['a'] else list(w.map.values()), rng.randint(1, 9), .15)
        if rng.random() < .35:
            q['ip'] = rng.sample(range(3 * len(q['pts'])), len(q['pts']))
        q['tup'] = rng.random() < .2
        if isinstance(w.mesh, Free) and not q['a']:
            return None
    elif kind == 'inside':
        q.update(a=a, pts=rand_points(w, rng, [nd], 3) + rand_points(w, rng, list(w.map.values()), 3))
    elif kind == 'onside':
        j = rng.randrange(nd.n_half_edges())
        b, h = (w.pt(v) for v in nd.get_half_edge(j).get_vertices())
        on = [b, h] + [[b[k] + (h[k] - b[k]) * t // 4 for k in (0, 1)] for t in (-1, 1, 2, 3, 5)
                       if all((h[k] - b[k]) * t % 4 == 0 for k in (0, 1))]
        q.update(a=a, j=j, pts=rng.sample(on, 2) + rand_points(w, rng, [nd], 2) + rand_points(w, rng, list(w.map.values()), 2))
    elif kind in ('bnd', 'bndv'):
        q.update(sf=rng.choice(ok), f=rng.choice(['', ''] + rfl))
    elif kind == 'bndv1':
        if w.dim == 2 or any(w.g['per']):
            return None
    elif kind == 'bndc1':
        if w.dim == 2 or any(w.g['per']):
            return None
        q.update(sf=rng.choice(ok))
    elif kind == 'region':
        ob = rng.random() < .5
        if w.dim == 1 and any(w.g['per']):
            ob = False
        q.update(et=rng.choice(['vertex', 'cell'] + (['half_edge'] if w.dim == 2 else [])), ob=ob, sf=rng.choice(ok),
                 f=rng.choice([''] + rfl + rfl), rc=rng.random() < .4)
    elif kind == 'size':
        q.update(f=rng.choice(ok))
    elif kind == 'periodic':
        q.update(cs=rng.choice([[0], [1], [0, 1]]) if w.dim == 2 else [0])
    elif kind == 'vpair':
        xs = [sorted({v[k] for v in w.g['v']}) for k in range(w.dim)]
        pts = sorted({tuple(w.pt(v)) for r in w.map.values() for v in r.get_vertices()})
        edge = [p for p in pts if any(p[k] in (xs[k][0] * w.scale, xs[k][-1] * w.scale) for k in range(w.dim))]
        pts = edge if edge and rng.random() < .8 else pts
        q.update(x=list(rng.choice(pts)))
    else:
        return AF.make_query(w, kind, rng, flags)
    return q


def rand_op(w, rng, job):
    r = job['rand']
    flags, rfl = job['flags'], job.get('rflags', [])
    for _ in range(30):
        o = rng.choice(r['ops'])
        if o == 'balance' and w.dim == 1 or w.poly and o in ('balance', 'refine', 'coarsen'):
            continue
        if o == 'balance':
            ok = [''] + rooted(w, flags)
            return dict(o=o, f=rng.choice(ok))
        if o == 'mark_region':
            ob = rng.random() < .5
            if w.dim == 1 and any(w.g['per']):
                ob = False
            return dict(o=o, f=rng.choice(rfl), et=rng.choice(['vertex', 'cell'] + (['half_edge'] * 2 if w.dim == 2 else [])),
                        p=rand_pred(w, rng), strict=rng.random() < .6, ob=ob, sf=rng.choice([''] + rooted(w, flags)))
        if o == 'mrecord':
            return dict(o='record', f=rng.choice(flags), m=True)
        if o == 'split':
            w.walk()
            can = [list(p) for p, n in w.map.items() if n.n_children() and not n.has_children() and len(p) <= r['maxdepth']]
            if not can:
                continue
            if rng.random() < .4:            # prefer deep cells
                d = max(map(len, can))
                can = [p for p in can if len(p) == d]
            return dict(o=o, a=rng.choice(can))
        if o == 'delete_children':
            w.walk()
            can = [list(p) for p, n in w.map.items() if n.has_children()]
            if can:
                return dict(o=o, a=rng.choice(can))
            continue
        if o in ('refine', 'coarsen', 'root_subtrees', 'mark', 'unmark'):
            if len(w.map) > r.get('maxcells', 60) and o == 'refine':
                continue
            if o == 'coarsen' and not r.get('physical', True):
                fl = [''] + flags
                return dict(o=o, sf=rng.choice(flags), cf='', nl='', clean=True)
            op = AF.rand_op(w, rng, [o], flags, r['maxdepth'])
            if op['o'] != 'nop':
                return op
    return dict(o='nop')


def run(job):
    rng = random.Random(job.get('seed', 0))
    w = World(job['init'])
    w.vid, w.keep = {}, []
    steps = []
    ops = job.get('ops')
    n = len(ops) if ops is not None else job['rand']['len']
    if n == 0:
        ops, n = [dict(o='nop')], 1
    w.walk()
    for k in range(n):
        op = ops[k] if ops is not None else rand_op(w, rng, job)
        observe = (not job.get('last')) or k == n - 1
        st = dict(op=op, exc='', f=job['f'], geo=job['geo'], top=job['top'], pr=job['pr'], qs=[], obs=observe, dump=[], topo=[])
        cur = None
        try:
            apply(w, op)
            if observe:
                st['dump'] = [dict(a=d['a'], fl=d['fl']) for d in AF.dump(w)]
                w.walk()
                if job['geo'] or job['top'] or job['pr']:
                    st['topo'] = topo(w, job['top'] or job['pr'])
                for _ in range(job['nq']):
                    cur = q = make_query(w, rng.choice(job['qk']), rng, job)
                    if q is not None:
                        st['qs'].append(dict(q=q, r=query(w, q)))
                cur = None
        except Exception as e:
            st['exc'] = '%s: %s%s' % (type(e).__name__, str(e)[:200], ' in query %s' % cur if cur else '')
        steps.append(st)
        if st['exc']:
            break
    return dict(init=job['init'], steps=steps)
