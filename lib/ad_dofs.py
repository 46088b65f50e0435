"""DofHandler and Basis of the code under test; observations for spec/DofsTrace.tla."""
import numpy as np
import ad_mesh as AM
from ad_forest import FLAG
from adbase import drive
from fem import QuadFE, DofHandler, Basis
from mesh import Mesh1D, QuadMesh
from num import rq

BAD = AM.BAD


def fine(w):
    p = max(int(w.dh.element.polynomial_degree()), 0) or 2
    return p if w.dim == 1 else p * p


def fpos(w, x):
    out = []
    for k, v in enumerate(np.ravel(np.array(x, dtype=float))):
        y = (float(v) - w.shift[k]) / w.unit * w.scale * fine(w)
        r = int(round(y))
        out.append(r if abs(y - r) < 1e-6 else BAD)
    return out


def dist(w, f):
    w.dh.distribute_dofs(subforest_flag=FLAG[f])


def numbering(w):
    out = []
    for p, c in w.map.items():
        d = w.dh.get_cell_dofs(c)
        if d is not None and None not in d:
            out.append(dict(a=list(p), d=[int(x) for x in d]))
    return out


def ints(x):
    return [int(v) for v in x]


def query(w, q):
    k = q['q']
    sf = FLAG[q['sf']] if 'sf' in q else None
    dh = w.dh
    if k == 'region':
        return ints(dh.get_region_dofs(entity_type=q['et'], entity_flag=FLAG[q['f']], interior=q['int'], on_boundary=q['ob'],
                                       subforest_flag=sf))
    if k == 'nd':
        return int(dh.n_dofs(subforest_flag=sf))
    if k == 'verts':
        if q['form'] == 'one':
            return [fpos(w, dh.get_dof_vertices(q['dofs'][0]))]
        x = dh.get_dof_vertices(q['dofs'], as_array=q['form'] == 'array')
        return [fpos(w, p) for p in x]
    if k == 'vall':
        return [fpos(w, p) for p in dh.get_dof_vertices(subforest_flag=sf)]
    if k == 'ent':
        c = w.node(q['a'])
        e = dict(vertex=c.get_vertex, half_edge=getattr(c, 'get_half_edge', None), cell=lambda i: c)[q['kind']](q['k'])
        if q['kind'] == 'cell' and not q['int'] and q['none']:
            e = None
        return ints(dh.get_cell_dofs(c, entity=e, interior=q['int'], doftype='local' if q['loc'] else 'global'))
    if k == 'basis':
        if q['re']:
            b = Basis(dh, subforest_flag=FLAG[q['sf0']])
            b.set_subforest_flag(sf)
        else:
            b = Basis(dh, 'u', subforest_flag=sf)
        d = ints(b.dofs())
        i = ints(b.d2i(d))
        return dict(dofs=d, nd=int(b.n_dofs()), i=i, x=ints(b.i2d(i)), cd=[ints(b.dofs(w.node(a))) for a in q['cells']],
                    one=[int(b.d2i(d[0])), int(b.i2d(i[0]))])
    if k == 'same':
        if q['o'] == '':
            other, m = dh, w.mesh
        else:                                   # another numbering of the same mesh, a mesh of its own
            m = w.mesh if q['o'] == 'dh' else (Mesh1D if w.dim == 1 else QuadMesh)()
            other = DofHandler(m, dh.element)
            other.distribute_dofs(subforest_flag=FLAG[q['sf2']])
        b, c = Basis(dh, subforest_flag=sf), Basis(other, 'ux', subforest_flag=FLAG[q['sf2']])
        return [bool(x) for x in (b.same_dofs(c), b.same_mesh(basis=c), b.same_mesh(mesh=m, subforest_flag=FLAG[q['sf2']]))]
    if k == 'hang':
        h = dh.get_hanging_nodes(subforest_flag=sf)
        return [dict(d=int(d), s=ints(v[0]), c=[rq(np.ravel(x)[0]) for x in v[1]]) for d, v in h.items()]


def valid(w):
    """submeshes all of whose leaves have dofs"""
    out = []
    for f in [''] + AM.rooted(w, w.job['flags']):
        try:
            if all((lambda d: d is not None and None not in d)(w.dh.get_cell_dofs(c)) for c in w.forest.get_leaves(subforest_flag=FLAG[f])):
                out.append(f)
        except Exception:
            pass
    return out


def balanced(w, f):
    return w.dim == 1 or w.mesh.is_balanced(subforest_flag=FLAG[f])


def make_query(w, rng, job):
    kind = rng.choice(job['qk'])
    if not w.fresh:
        return None
    ok = [f for f in w.valid if f == '' or f in w.done or '' in w.done]
    if not ok:
        return None
    sf = rng.choice(ok)
    q = dict(q=kind, sf=sf)
    if kind == 'region':
        ob = rng.random() < .4 and not (w.dim == 1 and any(w.g['per']))
        q.update(et=rng.choice(['vertex', 'cell'] + (['half_edge'] * 2 if w.dim == 2 else [])), f=rng.choice(['', ''] + job['rflags'] * 2),
                 ob=ob, int=rng.random() < .5)
    elif kind == 'verts':
        d = sorted({int(x) for c in w.map.values() for x in (w.dh.get_cell_dofs(c) or []) if x is not None and c in w.seen})
        if not d:
            return None
        q['form'] = rng.choice(['one', 'array', 'list', 'list'])
        q['dofs'] = [rng.choice(d) for _ in range(1 if q['form'] == 'one' else rng.randint(1, 8))]
    elif kind == 'ent':
        a = [p for p, c in w.map.items() if (w.dh.get_cell_dofs(c) is not None and None not in w.dh.get_cell_dofs(c))]
        if not a:
            return None
        kd = rng.choice(['vertex', 'cell'] + (['half_edge'] if w.dim == 2 else []))
        q.update(a=list(rng.choice(a)), kind=kd, k=rng.randrange(2 if w.dim == 1 else 4), int=rng.random() < .5, loc=rng.random() < .4,
                 none=rng.random() < .5)
    elif kind == 'basis':
        near = [list(p) for p, c in w.map.items() if c.nearest_ancestor(FLAG[sf]) is not None
                and (sf != '' or c.is_marked(None) or True)]
        near = [p for p in near if w.dh.get_cell_dofs(w.node(p).nearest_ancestor(FLAG[sf])) is not None
                and None not in w.dh.get_cell_dofs(w.node(p).nearest_ancestor(FLAG[sf]))]
        q.update(cells=[rng.choice(near) for _ in range(3)] if near else [], re=rng.random() < .4, sf0=rng.choice(ok))
    elif kind == 'same':
        q['o'] = rng.choice(['', '', 'dh', 'mesh'])
        q['sf2'] = '' if q['o'] == 'mesh' else rng.choice(ok)
    elif kind == 'hang':
        if not balanced(w, sf) or not w.hfresh:
            return None
    return q


def prep(w, rng, job):
    w.job = job
    w.dh = DofHandler(w.mesh, QuadFE(w.dim, job['init']['et']))
    w.hfresh = False
    w.fresh, w.done, w.valid, w.seen = False, set(), [], set()


def rand_op(w, rng, job):
    r = job['rand']
    if numbering(w) and rng.random() < r.get('clear', .05):
        return dict(o='clear')
    if not w.fresh and rng.random() < .35 and w.forest.get_leaves():
        if w.dim == 2 and not w.mesh.is_balanced():
            return dict(o='balance', f='')
        return dict(o='dist', f='')
    if not w.fresh and rng.random() < .2:
        if w.dim == 2 and not w.mesh.is_balanced():
            return dict(o='balance', f='')
        ok = [f for f in AM.rooted(w, job['flags']) if balanced(w, f)]
        if ok:
            return dict(o='dist', f=rng.choice(ok))
    return AM.rand_op(w, rng, job)


def apply(w, op):
    if op['o'] == 'dist':
        dist(w, op['f'])
        w.done.add(op['f'])
        w.fresh = w.hfresh = True
        w.seen |= {c for p, c in w.map.items() if c in w.forest.traverse(flag=FLAG[op['f']])} if op['f'] else set(w.map.values())
    elif op['o'] == 'clear':
        w.dh.clear_dofs()
        w.done, w.seen = set(), set()
        w.fresh = w.hfresh = False
    else:
        AM.apply(w, op)
        if op['o'] in ('split', 'refine', 'balance', 'delete_children', 'coarsen'):
            w.fresh = False
            w.done = set()
        elif op['o'] not in ('none',):
            w.hfresh = False
    w.walk()
    w.valid = valid(w)
    w.lastop = op


def run(job):
    if 'ops' in job:
        job = dict(job)
        job['ops'] = job['ops'] + [dict(o='dist', f='')]
    tr = drive(job, query, make_query, prep, rand_op, apply, note)
    return tr


def note(w, st):
    st['num'], st['cnt'] = [], 0
    if st['op']['o'] == 'dist' and not st['exc']:
        st['num'] = numbering(w)
        st['cnt'] = int(w.dh.n_dofs(all_dofs=True))
