"""Explicit, constant and nodal functions; observations for spec/FuncTrace.tla."""
from fractions import Fraction as Fr
import numpy as np
import ad_mesh as AM
import ad_asm as AA
from ad_asm import dstr, dataof, polyfun
from ad_forest import FLAG
from adbase import drive
from fem import Basis, QuadFE, DofHandler
from function import Explicit, Constant, Nodal
from mesh import Vertex
from num import rqs, q as nq


def udata2(seed, d, e, s):
    return (((d + 1) * (seed + 3) + (e + 2) * (2 * seed + 5) + s * 3 + (d * e) % 4) % 11) - 5


def rule_of(w, rule, nv):
    if nv == 1:
        f = polyfun(w, rule[0])

        def fn(x, c=1, d=0):
            return c * f(x) + d
    else:
        f, g = polyfun(w, rule[0]), polyfun(w, rule[1])

        def fn(x, y, c=1, d=0):
            return c * f(x) * g(y) + d
    fn.spec = rule
    return fn


def par_of(par):
    return {k: v for k, v in par}


def rules_arg(w, op, nv):
    """the argument of a constructor or of set_rules; with op['reuse'] the very list passed before"""
    if op.get('reuse'):
        return w.lastrules
    rs = [rule_of(w, r, nv) for r in op['rules']]
    a = rs if len(rs) > 1 or op['lst'] else rs[0]
    if isinstance(a, list):
        w.lastrules = a
    return a


def pars_arg(w, op):
    if op.get('reuse'):
        return w.lastpars
    ps = [par_of(p) for p in op['par']]
    a = ps if len(ps) > 1 or op['plst'] else ps[0]
    if isinstance(a, list):
        w.lastpars = a
    return a


def data_arg(w, op, B):
    if op.get('reuse'):
        return w.lastdata
    d = [int(x) for x in B.dofs()]
    if op.get('nv', 1) == 2:
        a = np.array([[[float(udata2(op['seed'], x, y, s + 1)) for s in range(op['ns'])] for y in d] for x in d])
    else:
        a = np.array([[dataof(op, x, s + 1) for s in range(op['ns'])] for x in d], dtype=int if op['int'] else float)
        if op['ns'] == 1 and op['flat']:
            a = a[:, 0]
    w.lastdata = a
    return a


def content(w, i):
    f = w.fs[i - 1]['f']
    if isinstance(f, Explicit):
        return dict(i=i, rules=[r.spec for r in f.rules()], par=[sorted([k, v] for k, v in p.items()) for p in f.parameters()])
    if isinstance(f, Constant):
        return dict(i=i, c=rqs(f.data()))
    e = w.fs[i - 1]
    if alive(w, i):
        e['rows'] = [int(x) for x in f.basis().dofs()]
    return dict(i=i, rows=e['rows'], data=rqs(f.data()))


def leaves(w, sf):
    return list(w.forest.get_leaves(subforest_flag=FLAG[sf]))


def alive(w, i):
    e = w.fs[i - 1]
    if e['k'] != 'nd':
        return True
    cur = leaves(w, e['sf'])
    return len(cur) == len(e['cells']) and all(a is b for a, b in zip(cur, e['cells']))


def fop(w, op):
    k, new = op['k'], None
    f = w.fs[op['i'] - 1]['f'] if op['i'] else None
    if k == 'ex':
        kw = {} if op['nopar'] else dict(parameters=pars_arg(w, op))
        new = dict(k='ex', nv=op['nv'], f=Explicit(rules_arg(w, op, op['nv']), dim=w.dim, n_variables=op['nv'], **kw))
    elif k == 'cn':
        a = op['c'][0] if len(op['c']) == 1 and not op['lst'] else np.array(op['c'], dtype=float)
        if op.get('reuse'):
            a = w.lastconst
        w.lastconst = a
        new = dict(k='cn', nv=op['nv'], f=Constant(a, n_variables=op['nv']) if op['nv'] > 1 else Constant(a))
    elif k == 'nd':
        B = w.lastbasis if op.get('reuse') else Basis(w.dhs[op['h'] - 1], op['str'], subforest_flag=FLAG[op['sf']])
        w.lastbasis = B
        kw = {} if op['nv'] == 1 else dict(n_variables=2)
        if op['src'] == 'f':
            if not op['nopar']:
                kw['parameters'] = pars_arg(w, op)
            g = Nodal(f=rules_arg(w, op, op['nv']), basis=B, **kw)
        elif op['via'] == 'add':
            g = Nodal(basis=B, **kw)
            g.add_samples(data_arg(w, op, B))
        elif op['via'] == 'set':
            g = Nodal(basis=B, **kw)
            g.set_data(data_arg(w, op, B))
        else:
            g = Nodal(data=data_arg(w, op, B), basis=B, **kw)
        new = dict(k='nd', nv=op['nv'], f=g, sf=op['sf'], h=op['h'])
    elif k == 'add_rule':
        f.add_rule(rule_of(w, op['rules'][0], w.fs[op['i'] - 1]['nv']), **({} if op['nopar'] else dict(parameters=par_of(op['par'][0]))))
    elif k == 'set_rules':
        if op['nopar']:
            f.set_rules(rules_arg(w, op, op['nv']))
        else:
            f.set_rules(rules_arg(w, op, op['nv']), pars_arg(w, op))
    elif k == 'set_rule':
        f.set_rules(rule_of(w, op['rules'][0], op['nv']), par_of(op['par'][0]), pos=op['s'] - 1)
    elif k == 'set_pars':
        f.set_parameters(par_of(op['par'][0]))
    elif k == 'set_par':
        f.set_parameters(par_of(op['par'][0]), pos=op['s'] - 1)
    elif k == 'set_const':
        f.set_data(op['c'][0] if len(op['c']) == 1 and not op['lst'] else np.array(op['c'], dtype=float))
    elif k == 'set_data':
        if op['src'] == 'f':
            f.set_data(f=rules_arg(w, op, op['nv']), **({} if op['nopar'] else dict(parameters=pars_arg(w, op))))
        else:
            f.set_data(data_arg(w, op, f.basis()))
    elif k == 'modify':
        rows = [int(x) for x in f.basis().dofs()]
        d = [rows[i] for i in op['ix']]
        x = np.array([dataof(op, e, 1) / 2 for e in d], dtype=float)
        if op['col']:
            x = x[:, None]
        kw = dict(i_sample=op['s'] - 1)
        if op['s'] == 1 and op['dfl']:
            kw = {}
        if op['all']:
            f.modify_data(x, **kw)
        else:
            f.modify_data(x, dofs=np.array(d) if op['arr'] else d, **kw)
    elif k == 'add_samples':
        f.add_samples(data_arg(w, op, f.basis()))
    elif k == 'interp':
        kw = dict(subforest_flag=FLAG[op['sf']]) if op['sf'] else {}
        new = dict(k='nd', nv=1, f=f.interpolant(w.dhs[op['h'] - 1], **kw), sf=op['sf'], h=op['h'])
    elif k == 'diff':
        der = tuple(op['der'][:op['der'][0] + 1])
        new = dict(k='nd', nv=1, f=f.differentiate(dstr(op['der']) if op['dstr'] else der), sf=w.fs[op['i'] - 1]['sf'], h=0)
    if new:
        if new['k'] == 'nd':
            new['cells'] = leaves(w, new['sf'])
        w.fs.append(new)
    t = len(w.fs) if new else op['i']
    g = w.fs[t - 1]
    rec = dict(nv=g['f'].n_variables(), ns=int(g['f'].n_samples()), t=content(w, t), all=[content(w, i + 1) for i in range(len(w.fs)) if i + 1 != t], num=[])
    if k == 'diff':
        dh = g['f'].basis().dofhandler()
        rec['num'] = AA.numbering(w, dh)
    w.rec = rec


def fr(x):
    return Fr(int(x['n']), int(x['d']))


def phys(w, a, r):
    """real coordinates of a point given in a cell"""
    C = [w.pt(v) for v in w.node(a).get_vertices()]
    r = [fr(x) for x in r]
    if w.dim == 1:
        p = [C[0][0] + (C[1][0] - C[0][0]) * r[0]]
    else:
        s, t = r
        p = [C[0][k] * (1 - s) * (1 - t) + C[1][k] * s * (1 - t) + C[2][k] * s * t + C[3][k] * (1 - s) * t for k in (0, 1)]
    return tuple(float(p[k] * Fr(w.unit) / w.scale + w.shift[k]) for k in range(w.dim))


def container(w, xs, form):
    if form == 'tup':
        return list(xs)
    if form == 'vert':
        return [Vertex(x) for x in xs]
    if form == 'nums':
        return [x[0] for x in xs]
    if form == 'arrs':
        return [np.array(x) for x in xs]
    if form == 'vec':
        return np.array([x[0] for x in xs])
    if form == 'one':
        return xs[0]
    if form == 'onev':
        return Vertex(xs[0])
    return np.array(xs).reshape(-1, w.dim)


def query(w, q):
    e = w.fs[q['i'] - 1]
    f, nv = e['f'], e['nv']

    def ev(idx):
        xs = [[phys(w, q['pts'][k][v]['a'], q['pts'][k][v]['r']) for k in idx] for v in range(nv)]
        if q['via'] == 'phi':
            phi, dofs, cells = [], [], []
            for v in range(nv):
                c = w.node(q['cell'][v])
                d = q['der'][v]
                B = Basis(f.basis().dofhandler(), dstr(d), subforest_flag=FLAG[e['sf']])
                if q['loc'] == 'physical':
                    ph = B.eval(np.array(xs[v]).reshape(-1, w.dim), c, location='physical')
                else:
                    leaf = c.nearest_ancestor(FLAG[e['sf']])
                    xr = leaf.reference_map(np.array(xs[v]).reshape(-1, w.dim), mapsto='reference')
                    ph = B.eval(np.array(xr).reshape(-1, w.dim), c)
                phi.append(np.asarray(ph))
                dofs.append(B.dofs(c))
                cells.append(c)
            kw = dict(cell=cells[0] if nv == 1 else tuple(cells)) if q['bycell'] else dict(dofs=dofs[0] if nv == 1 else dofs)
            return f.eval(phi=phi[0] if nv == 1 else phi, **kw)
        x = [container(w, y, q['form']) for y in xs]
        x = x[0] if nv == 1 else tuple(x)
        if e['k'] != 'nd':
            return f.eval(x)
        kw = {}
        if q['cell']:
            cs = [w.node(a) for a in q['cell']]
            kw['cell'] = cs[0] if nv == 1 or (q['cell'][0] == q['cell'][-1] and q['lst']) else tuple(cs)
        ders = [dstr(d, 1) if q['dstr'] and d[0] < 2 else tuple(d[:d[0] + 1]) for d in q['der']]
        if q['lst'] and all(d == ders[0] for d in ders):
            ders = ders[0]
        if any(d[0] for d in q['der']) or q['lst']:
            kw['derivative'] = ders
        return f.eval(x, **kw)
    n = len(q['pts'])
    v = np.asarray(ev(list(range(n))))
    u = np.asarray(ev([k - 1 for k in q['sel']])) if q['sel'] else v[:0]
    return dict(v=rqs(v), w=rqs(u))


# ------------------------------- generation ---------------------------------
def rpoly(w, rng, deg):
    dim = w.dim
    p = [[rng.choice([-2, -1, 1, 2, 3]), [0] * dim]]
    for _ in range(rng.randint(0, 2) if deg else 0):
        d = rng.randint(1, deg)
        p.append([rng.choice([-2, -1, 1, 2]), [d] if dim == 1 else (lambda i: [i, d - i])(rng.randint(0, d))])
    return p


def rrule(w, rng, nv):
    return [rpoly(w, rng, rng.choice([0, 1, 2, 3])), [] if nv == 1 else rpoly(w, rng, 1)]


def rpar(rng):
    return sorted([k, rng.choice([-2, 0, 2, 3])] for k in ('c', 'd') if rng.random() < .5)


def rulespec(w, rng, nv, op):
    n = rng.choice([1, 1, 2, 3])
    m = rng.choice([1, n] if n > 1 else [1, 1, 2])
    op.update(rules=[rrule(w, rng, nv) for _ in range(n)], par=[rpar(rng) for _ in range(m)], lst=rng.random() < .4, plst=rng.random() < .3,
              nopar=False, nv=nv)
    if rng.random() < .3:
        op.update(par=[[]], nopar=True, plst=False)
    return op


def covers(w, sf, cells):
    """every cell is contained in, or a union of, leaves of the submesh"""
    L = {id(c) for c in leaves(w, sf)}

    def cov(c):
        if id(c) in L:
            return True
        return c.has_children() and all(cov(x) for x in c.get_children())
    for c in cells:
        a = c
        while a is not None and id(a) not in L:
            a = a.get_parent()
        if a is None and not cov(c):
            return False
    return True


def size(w, h, sf):
    return len(w.dhs[h - 1].get_region_dofs(subforest_flag=FLAG[sf]))


def new_nd(w, rng, job):
    h = rng.randint(1, len(w.dhs))
    sf = rng.choice([''] + AM.rooted(w, job['flags']))
    n = size(w, h, sf)
    if n == 0 or n > 45 or len(leaves(w, sf)) > job.get('maxleaves', 14):
        return None
    nv = 2 if n <= 10 and rng.random() < .4 else 1
    op = dict(o='fop', k='nd', i=0, h=h, sf=sf, nv=nv, ns=rng.choice([1, 2, 3]), seed=rng.randrange(11), int=rng.random() < .3, flat=rng.random() < .5,
              src='f' if rng.random() < .3 else 'seed', via=rng.choice(['init', 'init', 'add', 'set']), str=rng.choice(['u', 'v']))
    if op['src'] == 'f':
        if any(w.g['per']) and nv == 2:
            op['src'] = 'seed'
        else:
            rulespec(w, rng, nv, op)
    if nv == 2 and op['via'] == 'add':
        op['via'] = 'init'
    return op


def modop(w, rng, i, f):
    n, ns = f.data().shape
    al = rng.random() < .15
    ix = list(range(n)) if al else rng.sample(range(n), rng.randint(1, min(n, 6)))
    return dict(o='fop', k='modify', i=i, s=rng.randint(1, ns), ix=ix, all=al, arr=rng.random() < .4, col=rng.random() < .4, dfl=rng.random() < .5,
                seed=rng.randrange(11))


def rand_fop(w, rng, job):
    live = [i + 1 for i in range(len(w.fs)) if alive(w, i + 1)]
    r = rng.random()
    if not live or (r < .45 and len(w.fs) < 7):
        k = rng.choice(['ex', 'cn', 'nd', 'nd', 'nd'] if w.fresh else ['ex', 'cn'])
        if w.last and rng.random() < .2 and (w.last['k'] != 'nd' or w.lastfresh == w.epoch):
            op = dict(w.last, reuse=True)           # the same arguments again
            if op['k'] != 'nd' or (op['src'] == 'seed' and op['via'] != 'add'):
                return op
        if k == 'ex':
            return rulespec(w, rng, rng.choice([1, 1, 2]), dict(o='fop', k='ex', i=0))
        if k == 'cn':
            return dict(o='fop', k='cn', i=0, nv=rng.choice([1, 1, 2]), c=[rng.randint(-5, 5) for _ in range(rng.choice([1, 1, 2, 3]))], lst=rng.random() < .4)
        return new_nd(w, rng, job)
    i = rng.choice(live)
    e = w.fs[i - 1]
    f = e['f']
    if e['k'] == 'ex':
        k = rng.choice(['add_rule', 'set_rule', 'set_rule', 'set_pars', 'set_par', 'set_rules', 'interp', 'interp'])
        if k == 'interp' and (not w.fresh or e['nv'] == 2):
            k = 'set_par'
        if k == 'interp':
            return interp(w, rng, job, i)
        op = dict(o='fop', k=k, i=i)
        if k == 'set_rules':
            return rulespec(w, rng, e['nv'], op)
        op.update(rules=[rrule(w, rng, e['nv'])], par=[rpar(rng)], s=rng.randint(1, f.n_samples()), nv=e['nv'], nopar=False)
        if k == 'add_rule' and rng.random() < .4:
            op.update(par=[[]], nopar=True)
        return op
    if e['k'] == 'cn':
        if w.fresh and e['nv'] == 1 and rng.random() < .4:
            return interp(w, rng, job, i)
        return dict(o='fop', k='set_const', i=i, c=[rng.randint(-5, 5) for _ in range(rng.choice([1, 2, 3]))], lst=rng.random() < .4)
    if e['nv'] == 2:
        op = dict(o='fop', k='set_data', i=i, nv=2, ns=rng.choice([1, 2]), seed=rng.randrange(11), src='f' if rng.random() < .4 and not any(w.g['per']) else 'seed')
        return rulespec(w, rng, 2, op) if op['src'] == 'f' else op
    k = rng.choice(['modify'] * 3 + ['add_samples', 'set_data', 'interp', 'interp', 'diff', 'diff'])
    if k == 'modify':
        return modop(w, rng, i, f)
    if k in ('add_samples', 'set_data'):
        ns = rng.choice([1, 1, 2])
        if f.n_samples() + ns > 5 and k == 'add_samples':
            return None
        op = dict(o='fop', k=k, i=i, ns=ns, nv=1, seed=rng.randrange(11), int=rng.random() < .3, flat=rng.random() < .5, src='seed')
        if k == 'set_data' and rng.random() < .3:
            op['src'] = 'f'
            rulespec(w, rng, 1, op)
        return op
    if k == 'interp':
        return interp(w, rng, job, i) if w.fresh else None
    if not w.fresh:
        return None
    o = rng.choice([0, 1, 1, 2])
    return dict(o='fop', k='diff', i=i, der=[o, rng.randrange(w.dim) if o else 0, rng.randrange(w.dim) if o > 1 else 0], dstr=rng.random() < .4)


def interp(w, rng, job, i):
    h = rng.randint(1, len(w.dhs))
    sf = rng.choice([''] + AM.rooted(w, job['flags']))
    if not 0 < size(w, h, sf) <= 45:
        return None
    e = w.fs[i - 1]
    if e['k'] == 'nd' and not covers(w, e['sf'], leaves(w, sf)):
        return None
    return dict(o='fop', k='interp', i=i, h=h, sf=sf)


def rpt(w, rng, dim=None):
    return [nq(*rng.choice([(0, 1), (1, 1), (1, 2), (1, 4), (3, 8), (5, 8)])) for _ in range(w.dim)]


def below(w, rng, c):
    """a cell in the mesh below (or equal to) a cell"""
    while c.has_children() and rng.random() < .5:
        c = rng.choice(list(c.get_children()))
    return c


def make_query(w, rng, job):
    live = [i + 1 for i in range(len(w.fs)) if alive(w, i + 1)]
    if job.get('only'):
        live = [i for i in live if w.fs[i - 1]['k'] == job['only']] or live
    if not live:
        return None
    i = rng.choice(live)
    e = w.fs[i - 1]
    nv, nd = e['nv'], e['k'] == 'nd'
    n = rng.randint(1, 4 if nv == 2 else 6)
    L = leaves(w, e['sf'] if nd else '')
    q = dict(q='eval', i=i, cell=[], der=[[0, 0, 0]] * nv, via='x', form='arr', dstr=rng.random() < .3, lst=rng.random() < .3, loc='physical', bycell=False)
    if nd and rng.random() < .6:
        q['der'] = []
        for v in range(nv):
            o = rng.choice([0, 1, 1, 2])
            q['der'].append([o, rng.randrange(w.dim) if o else 0, rng.randrange(w.dim) if o > 1 else 0])
    cells = [None] * nv
    if nd and rng.random() < .4:
        cells = [below(w, rng, rng.choice(L)) for _ in range(nv)]
        if rng.random() < .4:
            q.update(via='phi', loc=rng.choice(['physical', 'reference']), bycell=rng.random() < .3)
        elif rng.random() < .4:      # an ancestor in the submesh
            f = FLAG[e['sf']]
            up = []
            for c in cells:
                p = c.nearest_ancestor(f) if f else c
                while p.has_parent() and (f is None or p.get_parent().is_marked(f)) and rng.random() < .7:
                    p = p.get_parent()
                up.append(p)
            cells = up
        q['cell'] = [w.p(c) for c in cells]
    if q['via'] == 'x':
        forms = ['arr', 'arr', 'tup', 'vert', 'arrs'] + (['vec', 'nums'] if w.dim == 1 and e['k'] != 'cn' else [])
        q['form'] = rng.choice(forms)
        if n == 1 and e['k'] != 'cn':
            q['form'] = rng.choice(['one', 'onev', 'arr'])

    def pt(c):
        if c is None:
            return dict(a=w.p(below(w, rng, rng.choice(L))), r=rpt(w, rng))
        f = FLAG[e['sf']]
        if w.p(c) in [w.p(x) for x in L] or not any(x is c for x in ups(L)):
            return dict(a=w.p(below(w, rng, c)), r=rpt(w, rng))
        inner = [x for x in L if anc(c, x)]
        return dict(a=w.p(rng.choice(inner)), r=rpt(w, rng))
    q['pts'] = [[pt(cells[v]) for v in range(nv)] for _ in range(n)]
    one = q['form'] in ('one', 'onev')
    q['sel'] = [1] if one else [rng.randint(1, n) for _ in range(rng.randint(1, n + 1))] if rng.random() < .6 else []
    return q


def ups(L):
    out = []
    for c in L:
        while c is not None:
            out.append(c)
            c = c.get_parent() if c.has_parent() else None
    return out


def anc(c, x):
    while x is not None:
        if x is c:
            return True
        x = x.get_parent() if x.has_parent() else None
    return False


def prep(w, rng, job):
    AA.prep(w, rng, job)
    w.fs, w.last, w.epoch, w.lastfresh, w.rec = [], None, 0, -1, None


def rand_op(w, rng, job):
    if rng.random() < (.75 if w.fresh else .25) and w.forest.get_leaves():
        for _ in range(6):
            op = rand_fop(w, rng, job)
            if op is not None:
                return op
    return AA.rand_op(w, rng, job)


def apply(w, op):
    w.rec = None
    if op['o'] == 'fop':
        fop(w, op)
        if op['k'] in ('ex', 'cn', 'nd') and not op.get('reuse'):
            if op['k'] != 'ex' or (isinstance(w.__dict__.get('lastrules'), list) and len(op['rules']) > 1 and (len(op['par']) > 1 or op['nopar'])):
                w.last, w.lastfresh = op, w.epoch
            else:
                w.last = None
        elif op['k'] in ('set_rules', 'set_data', 'set_const', 'add_samples'):
            w.last = None
    else:
        AA.apply(w, op)
        if op['o'] in ('split', 'refine', 'balance', 'delete_children', 'coarsen'):
            w.epoch += 1


def note(w, st):
    st['nums'], st['rec'] = [], None
    if st['op']['o'] == 'dist' and not st['exc']:
        st['nums'] = [AA.numbering(w, dh) for dh in w.dhs]
    if w.rec is not None:
        st['rec'] = w.rec
    else:
        del st['rec']


def run(job):
    tr = drive(job, query, make_query, prep, rand_op, apply, note)
    for s in tr['steps']:
        s.setdefault('nums', [])
    return tr
