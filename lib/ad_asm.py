"""Forms and Assembler of the code under test; observations for spec/AssemTrace.tla."""
import random
import numpy as np
import ad_mesh as AM
from ad_forest import FLAG
from adbase import drive
from fem import QuadFE, DofHandler, Basis
from function import Explicit, Constant, Nodal
from assembler import Kernel, Form, Assembler
from num import big
DEN = 2 ** 30


def den(a):
    """numerators over DEN"""
    a = np.asarray(a)
    if a.ndim:
        return [den(x) for x in a]
    x = complex(a)
    if x.imag != 0 or not np.isfinite(x.real):
        return '1' + '0' * 40
    return big(round(x.real * DEN))


DEG = dict(DQ0=0, Q1=1, Q2=2, Q3=3, DQ1=1, DQ2=2, DQ3=3)
DSTR = {(0, 0, 0): ['u', 'v', 'f'], (1, 0, 0): ['ux', 'vx'], (1, 1, 0): ['uy', 'vy'], (2, 0, 0): ['uxx'], (2, 0, 1): ['uxy'], (2, 1, 0): ['vyx'],
        (2, 1, 1): ['uyy']}


def dstr(der, k=0):
    s = DSTR[tuple((list(der) + [0, 0])[:3])]
    return s[k % len(s)]


def dataof(at, d, s):
    return (((d + 3) * (7 + at['seed']) + s * 5 + (d % 3) * s) % 11) - 5


def basis(w, b, k=0):
    return Basis(w.dhs[b['h'] - 1], dstr(b['der'], k), subforest_flag=FLAG[b['sf']])


def polyfun(w, p):
    sh = np.array(w.shift[:w.dim], dtype=float)

    def f(x):
        y = np.asarray(x, dtype=float).reshape(-1, w.dim) - sh
        out = np.zeros(len(y))
        for c, ex in p:
            t = float(c) * np.ones(len(y))
            for k, e in enumerate(ex):
                t = t * y[:, k] ** e
            out = out + t
        return out
    return f


def nodal_of(w, at, plain=False):
    b = dict(at['b'], der=[0, 0, 0]) if plain else at['b']
    B = basis(w, b, 2)
    d = [int(x) for x in B.dofs()]
    data = np.array([[float(dataof(at, x, s + 1)) for s in range(at['ns'])] for x in d])
    return Nodal(data=data, basis=B)


def fun_of(w, at):
    if at['a'] == 'poly':
        fs = [polyfun(w, p) for p in at['p']]
        return Explicit(fs if len(fs) > 1 or at['lst'] else fs[0], dim=w.dim)
    if at['a'] == 'const':
        return Constant(float(at['c'][0]) if len(at['c']) == 1 and not at['lst'] else np.array(at['c'], dtype=float))
    return nodal_of(w, at, at['via'] == 'kernel')


def kernel_of(w, k):
    if k['F'] == 'none':
        return None
    f = [fun_of(w, at) for at in k['at']]
    if k['num']:
        return float(k['at'][0]['c'][0])
    if k['map']:
        return f[0]
    kw = {}
    if any(at['a'] == 'nodal' and at['via'] == 'kernel' for at in k['at']):
        ds = [dstr(at['b']['der']) if at['a'] == 'nodal' and at['via'] == 'kernel' else None for at in k['at']]
        kw['derivatives'] = ds[0] if len(ds) == 1 else ds
    cw = k['cw']
    fac = (lambda c: 2.0 if c.is_marked(FLAG[cw]) else 1.0) if cw else None
    if k['F'] == 'id':
        F = (lambda a, cell: fac(cell) * a) if cw else None
    elif k['F'] == 'prod':
        F = (lambda a, b, cell: fac(cell) * a * b) if cw else (lambda a, b: a * b)
    else:
        F = (lambda a, b, cell: fac(cell) * (2 * a - b)) if cw else (lambda a, b: 2 * a - b)
    return Kernel(f if len(f) > 1 or k['lst'] else f[0], F=F, **kw)


def form_of(w, f, cache):
    def bas(b):
        key = (b['h'], b['sf'], tuple(b['der']), b['o'])
        if key not in cache:
            cache[key] = basis(w, b, b['o'])
        return cache[key]
    kw = dict(dmu=f['mu'], flag=FLAG[f['f']])
    if f['t'] > 0:
        kw['test'] = bas(f['b'])
    else:
        kw['dim'] = w.dim
    if f['t'] > 1:
        kw['trial'] = bas(f['c'])
    return Form(kernel_of(w, f['k']), **kw)


def assembler(w, q):
    cache = {}
    P = [[form_of(w, f, cache) for f in p] for p in q['probs']]
    if q['call'] == 1:
        P = [p[0] if len(p) == 1 else p for p in P]
    if q['call'] == 2 and len(P) == 1:
        P = P[0]
    if q['call'] == 3 and len(P) == 1 and len(P[0]) == 1:
        P = P[0][0]
    if q['call'] == 1 and all(isinstance(p, Form) for p in P):     # a flat list is one problem
        P = [[p] for p in P]
    ng = q['ng']
    return Assembler(P, w.mesh, subforest_flag=FLAG[q['sf']], n_gauss=(ng, ng * ng))


def result(A, probs):
    out = []
    for i, p in enumerate(probs):
        ts = {f['t'] for f in p}
        r = dict(M=dict(rows=[], cols=[], a=[]), V=dict(rows=[], a=[]), S=[])
        if 2 in ts:
            af = A.assembled_forms(i)[2]
            rows, cols = [[int(x) for x in u] for u in af.aggregate_data()['udofs']]
            r['M'] = dict(rows=rows, cols=cols, a=[den(A.get_matrix(i_problem=i, i_sample=s).toarray()) for s in range(af.n_samples())])
            if [int(x) for x in A.get_dofs('interior', i_problem=i)] != rows:
                r['M']['rows'] = [-1]
        if 1 in ts:
            af = A.assembled_forms(i)[1]
            n = af.n_samples()
            vs = [A.get_vector(i_problem=i, i_sample=s) for s in range(n)] if i % 2 == 0 else A.get_vector(i_problem=i, i_sample=list(range(n)))
            r['V'] = dict(rows=[int(x) for x in af.aggregate_data()['udofs'][0]], a=[[[v] for v in den(x)] for x in vs])
        if 0 in ts:
            af = A.assembled_forms(i)[0]
            r['S'] = [den(A.get_scalar(i_problem=i, i_sample=s)) for s in range(af.n_samples())]
        out.append(r)
    return out


def query(w, q):
    if q['q'] == 'asm':
        A = assembler(w, q)
        A.assemble(keep_cellwise_data=q['keep'], region_flag=FLAG[q['rf']])
        return result(A, q['probs'])


# ------------------------------- generation ---------------------------------
def affine(w, cells):
    if w.dim == 1:
        return True
    for c in cells:
        v = [w.pt(x) for x in c.get_vertices()]
        if any(v[0][k] + v[2][k] != v[1][k] + v[3][k] for k in (0, 1)):
            return False
    return True


def contained(w, cells, sf):
    """every cell lies in a leaf of submesh sf"""
    L = {id(c) for c in w.forest.get_leaves(subforest_flag=FLAG[sf])}
    for c in cells:
        while c is not None and id(c) not in L:
            c = c.get_parent()
        if c is None:
            return False
    return True


class Gen:
    def __init__(self, w, rng, job, sf, cells):
        self.w, self.rng, self.job, self.sf, self.cells = w, rng, job, sf, cells
        self.aff = affine(w, cells)
        fl = [''] + AM.rooted(w, job['flags'])
        self.sfs = [f for f in fl if contained(w, cells, f)]
        self.ns = rng.choice([2, 3])

    def der(self, budget):
        r = self.rng
        o = r.choice([0, 0, 1, 1, 2]) if budget >= 2 else r.choice([0, 0, 1]) if budget == 1 else 0
        i, j = (0, 0) if self.w.dim == 1 else (r.randrange(2), r.randrange(2))
        return [o, i if o > 0 else 0, j if o > 1 else 0]

    def bas(self, h, sf, budget):
        return dict(h=h, sf=sf, der=self.der(budget), o=self.rng.randrange(2))

    def sfpick(self):
        return self.rng.choice(self.sfs)

    def poly(self, deg):
        r, dim = self.rng, self.w.dim
        p = [[r.choice([-2, -1, 1, 2, 3]), [0] * dim]]
        for _ in range(r.randint(0, 2) if deg else 0):
            d = r.randint(1, deg)
            ex = [d] if dim == 1 else (lambda i: [i, d - i])(r.randint(0, d))
            p.append([r.choice([-2, -1, 1, 2]), ex])
        return p

    def atom(self, budget, maxdeg):
        r = self.rng
        a = r.choice(['poly', 'const', 'nodal', 'nodal'])
        ns = r.choice([1, 1, self.ns])
        if a == 'poly':
            deg = r.randint(0, maxdeg)
            p = [self.poly(deg) for _ in range(ns)]
            return dict(a='poly', p=p, deg=max(sum(e) for q in p for _, e in q), lst=r.random() < .3), 0
        if a == 'const':
            return dict(a='const', c=[r.choice([-2, -1, 1, 2, 3]) for _ in range(ns)], lst=r.random() < .3), 0
        h = r.randint(1, len(self.w.dhs))
        b = self.bas(h, self.sfpick(), budget)
        return dict(a='nodal', b=b, ns=ns, seed=r.randrange(11), via=r.choice(['basis', 'basis', 'kernel'])), b['der'][0]

    def kernel(self, budget):
        r = self.rng
        F = r.choice(['none', 'id', 'id', 'id', 'prod', 'lin'])
        k = dict(F=F, at=[], cw='', num=False, map=False, lst=False)
        if F == 'none':
            return k, 0
        a, o = self.atom(budget, 2)
        k['at'] = [a]
        if F != 'id':
            b, o2 = self.atom(budget - o if F == 'prod' else budget if self.aff else 0, 1)
            k['at'].append(b)
            if F == 'lin' and not self.aff and o:        # both terms carry the same power of the determinant
                k['at'][1] = dict(a='const', c=[0], lst=False)
                k['at'][0], o2 = dict(a='const', c=[r.randint(1, 3)], lst=False), 0
                o = 0
            o = o + o2
        one = F == 'id'
        k['num'] = one and a['a'] == 'const' and len(a['c']) == 1 and r.random() < .5
        k['map'] = one and not k['num'] and not (a['a'] == 'nodal' and a['via'] == 'kernel') and r.random() < .5
        k['lst'] = r.random() < .3
        if not k['num'] and not k['map'] and self.job.get('rflags') and r.random() < .25:
            k['cw'] = self.job['rflags'][0]
        return k, o

    def form(self, t, B, C):
        r = self.rng
        mu = r.choice(['dx', 'dx', 'dx', 'ds', 'dv'] if self.w.dim == 2 else ['dx', 'dx', 'dx', 'dv'])
        f = r.choice([''] + self.job.get('rflags', [])) if mu == 'dx' else r.choice(([''] if r.random() < .3 else []) + self.job.get('rflags', []) or [''])
        if mu == 'dv':
            budget = 4 if self.aff else 1
        elif self.aff:
            budget = 4
        else:
            budget = 1 if mu == 'dx' else 0
        fm = dict(t=t, mu=mu, f=f)
        for nm, src in (('b', B), ('c', C)):
            if (nm == 'b' and t > 0) or t > 1:
                h, sf = src
                x = self.bas(h, sf, min(2, budget))
                if not (mu == 'dv' and not self.aff):
                    budget -= x['der'][0]
                fm[nm] = x
        fm['k'], _ = self.kernel(min(2, budget))
        return fm

    def deg(self, f):
        e = lambda b: DEG[self.job['init']['ets'][b['h'] - 1]]
        d = sum(e(f[n]) for n in ('b', 'c') if n in f)
        ks = [a['deg'] if a['a'] == 'poly' else e(a['b']) if a['a'] == 'nodal' else 0 for a in f['k']['at']]
        if ks:
            d += sum(ks) if f['k']['F'] == 'prod' else max(ks)
        return max(1, d + (0 if self.aff else 1))

    def cost(self, f):
        n = len(self.cells) * {'dx': 1, 'ds': 4, 'dv': 4}[f['mu']]
        m = self.deg(f) + 1
        pts = (m ** self.w.dim if f['mu'] == 'dx' else m)
        nl = lambda b: (DEG[self.job['init']['ets'][b['h'] - 1]] + 1) ** self.w.dim
        s = max([1] + [a['ns'] if a['a'] == 'nodal' else len(a.get('p', a.get('c'))) for a in f['k']['at']])
        loc = 1
        for x in ('b', 'c'):
            if x in f:
                loc *= nl(f[x])
        return n * pts * s * (loc + 40)

    def probs(self):
        r = self.rng
        out, tot = [], 0
        for _ in range(r.choice([1, 1, 2])):
            h1, h2 = r.randint(1, len(self.w.dhs)), r.randint(1, len(self.w.dhs))
            B, C, Lb = (h1, self.sfpick()), (h2, self.sfpick()), (r.randint(1, len(self.w.dhs)), self.sfpick())
            if r.random() < .5:
                C = Lb = B
            p = []
            for _ in range(r.choice([1, 1, 2, 2, 3])):
                t = r.choice([0, 1, 1, 2, 2, 2])
                for _ in range(20):
                    f = self.form(t, Lb if t == 1 else B, C)
                    if self.deg(f) <= 9 and self.cost(f) < 250000:
                        break
                else:
                    continue
                p.append(f)
                tot += self.cost(f)
            if p:
                out.append(p)
        if not out or tot > 600000:
            return None
        return out


def submesh(w, rng, job):
    fl = [''] + AM.rooted(w, job['flags'])
    sf = rng.choice(fl)
    cells = list(w.forest.get_leaves(subforest_flag=FLAG[sf]))
    return sf, cells


def make_query(w, rng, job):
    if not w.fresh:
        return None
    kind = rng.choice(job['qk'])
    sf, cells = submesh(w, rng, job)
    if not cells or len(cells) > job.get('maxleaves', 14):
        return None
    g = Gen(w, rng, job, sf, cells)
    if kind == 'asm':
        rf = ''
        if rng.random() < .2 and job.get('rflags'):
            rf = rng.choice(job['rflags'])
            if not any(c.is_marked(FLAG[rf]) for c in cells):
                rf = ''
        p = g.probs()
        if p is None:
            return None
        need = max(g.deg(f) for x in p for f in x)
        n0 = need // 2 + 1
        return dict(q='asm', sf=sf, rf=rf, probs=p, ng=rng.choice([n0, n0, min(5, n0 + 1)]), call=rng.randrange(4), keep=rng.random() < .2)


def prep(w, rng, job):
    w.job = job
    w.dhs = [DofHandler(w.mesh, QuadFE(w.dim, et)) for et in job['init']['ets']]
    w.fresh = False


def rand_op(w, rng, job):
    if not w.fresh and rng.random() < .4 and w.forest.get_leaves():
        if w.dim == 2 and not w.mesh.is_balanced():
            return dict(o='balance', f='')
        return dict(o='dist')
    return AM.rand_op(w, rng, job)


def apply(w, op):
    if op['o'] == 'dist':
        for dh in w.dhs:
            dh.distribute_dofs()
        w.fresh = True
    else:
        AM.apply(w, op)
        if op['o'] in ('split', 'refine', 'balance', 'delete_children', 'coarsen'):
            w.fresh = False


def numbering(w, dh):
    out = []
    for p, c in w.map.items():
        d = dh.get_cell_dofs(c)
        if d is not None and None not in d:
            out.append(dict(a=list(p), d=[int(x) for x in d]))
    return out


def note(w, st):
    st['nums'] = []
    if st['op']['o'] == 'dist' and not st['exc']:
        st['nums'] = [numbering(w, dh) for dh in w.dhs]


def run(job):
    if 'ops' in job:
        job = dict(job)
        job['ops'] = job['ops'] + [dict(o='dist')]
    tr = drive(job, query, make_query, prep, rand_op, apply, note)
    for s in tr['steps']:
        s.setdefault('nums', [])
    return tr
