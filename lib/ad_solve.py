"""Constrained solves with the Assembler and with LinearSystem; observations for spec/SolveTrace.tla."""
import numpy as np
import ad_mesh as AM
import ad_asm as AA
from ad_asm import basis, den, dataof, polyfun, affine, DEN
from ad_forest import FLAG
from adbase import drive
from fem import Basis
from function import Explicit, Constant, Nodal
from assembler import Assembler
from solver import LinearSystem
from num import big
D40 = 2 ** 40


def den40(a):
    a = np.asarray(a)
    if a.ndim:
        return [den40(x) for x in a]
    x = complex(a)
    if x.imag != 0 or not np.isfinite(x.real):
        return '1' + '0' * 40
    return big(round(x.real * D40))


def fn_of(w, fn, B):
    if fn['a'] == 'num':
        return fn['c'][0]
    if fn['a'] == 'const':
        return Constant(np.array(fn['c'], dtype=float))
    if fn['a'] == 'poly':
        fs = [polyfun(w, p) for p in fn['p']]
        return Explicit(fs if len(fs) > 1 else fs[0], dim=w.dim)
    return Nodal(data=np.array([[float(dataof(fn, int(x), s + 1)) for s in range(fn['ns'])] for x in B.dofs()]), basis=B)


def ints(a):
    return [int(x) for x in a]


def solve(w, q):
    probs, bases = [], []
    for p in q['probs']:
        cache = {}
        probs.append([AA.form_of(w, f, cache) for f in p['forms']])
        bases.append(basis(w, p['b']))
    A = Assembler(probs, w.mesh, subforest_flag=FLAG[q['sf']], n_gauss=(q['ng'], q['ng'] ** 2))
    for i, p in enumerate(q['probs']):
        kw = {} if i == 0 and q['dflt'] else dict(i_problem=i)
        steps = [('d', d) for d in p['dirs']] + ([('h', None)] if p['hang'] else [])
        if q['hfirst']:
            steps = steps[-1:] + steps[:-1] if p['hang'] else steps
        for k, d in steps:
            if k == 'h':
                A.add_hanging_nodes(**kw)
            else:
                A.add_dirichlet(FLAG[d['mk']], dir_fn=fn_of(w, d['fn'], bases[i]), on_bnd=d['on'], **kw)
    A.assemble()
    out = []
    for i, p in enumerate(q['probs']):
        r = dict(rows=ints(bases[i].dofs()), dir=ints(A.get_dofs('dirichlet', i_problem=i)), hng=ints(A.get_dofs('hanging_nodes', i_problem=i)),
                 int=ints(A.get_dofs('interior', i_problem=i)), u=[], red=[])
        for k, (im, iv) in enumerate(p['sols']):
            r['u'].append(den40(A.solve(i_problem=i, i_matrix=im, i_vector=iv)))
        for im, iv in p['sols'][:1]:
            r['red'].append(dict(M=den(A.get_matrix(i_problem=i, i_sample=im).toarray()), V=den(A.get_vector(i_problem=i, i_sample=iv)),
                                 x0=den(A.assembled_bnd(i_problem=i, i_sample=im))))
        out.append(r)
    return out


def system(w, q):
    B = basis(w, q['b'])
    cache = {}
    P = [[AA.form_of(w, f, cache) for f in fs] for fs in q['forms']]
    P[0] = P[0] + [AA.form_of(w, f, cache) for f in q['lin']]
    A = Assembler(P, w.mesh, subforest_flag=FLAG[q['sf']], n_gauss=(q['ng'], q['ng'] ** 2))
    A.assemble()
    mats = [A.get_matrix(i_problem=i) for i in range(len(P))]
    mats = [m if q['fmt'] == 'coo' else m.tocsr() if q['fmt'] == 'csr' else m.tocsc() for m in mats]
    vec = A.get_vector()

    def rhs(r):
        if r['k'] == '':
            return None
        if r['k'] == 'asm':
            return vec.copy()
        b = np.array([[float(dataof(r, int(d), c + 1)) for c in range(r['n'])] for d in B.dofs()])
        return b[:, 0] if r['n'] == 1 and r['flat'] else b
    ys, out, rows = [], [], ints(B.dofs())
    for ev in q['script']:
        o = {}
        if ev['e'] == 'new':
            y = LinearSystem(B, A=mats[ev['a'] - 1] if ev['a'] and not ev['late'] else None, b=rhs(ev['rhs']) if not ev['late'] else None)
            if ev['late']:
                if ev['a']:
                    y.set_matrix(mats[ev['a'] - 1])
                if ev['rhs']['k']:
                    y.set_rhs(rhs(ev['rhs']))
            ys.append(y)
        elif ev['e'] == 'dir':
            y, d = ys[ev['y'] - 1], ev['d']
            kw = {} if d['on'] else dict(on_boundary=False)
            if d['fn'] == dict(a='num', c=[0]):
                y.add_dirichlet_constraint(FLAG[d['mk']], **kw)
            else:
                y.add_dirichlet_constraint(FLAG[d['mk']], fn_of(w, d['fn'], B), **kw)
        else:
            y = ys[ev['y'] - 1]
            if ev['a']:
                y.set_matrix(mats[ev['a'] - 1])
            b = rhs(ev['rhs'])
            if ev['path'] == 'solve':
                y.solve_system(b, factor=ev['factor']) if b is not None else y.solve_system(factor=ev['factor'])
            else:
                y.set_constraint_relation()
                y.constrain_matrix()
                if b is not None:
                    y.set_rhs(b)
                y.constrain_rhs()
                y.invert_matrix(factor=ev['factor'])
                y.resolve_constraints()
            f = y.get_solution()
            u = np.asarray(y.get_solution(as_function=False))
            if not np.array_equal(np.asarray(f.data()), u) or ints(f.basis().dofs()) != rows:
                u = np.zeros((0, 0))
            K = y.get_matrix()
            o = dict(u=den40(u), K=den(K.toarray() if hasattr(K, 'toarray') else K))
            rows = ints(y.get_dofs())
        out.append(o)
    return dict(rows=rows, out=out)


def query(w, q):
    return solve(w, q) if q['q'] == 'solve' else system(w, q)


# ------------------------------- generation ---------------------------------
def kern(at=None):
    return dict(F='none' if at is None else 'id', at=[] if at is None else [at], cw='', num=False, map=False, lst=False)


class SGen(AA.Gen):
    def coef(self, sampled):
        r = self.rng
        k = r.choice(['const', 'const', 'poly'])
        ns = self.ns if sampled and r.random() < .6 else 1
        if k == 'const':
            return kern(dict(a='const', c=[r.choice([1, 2, 3]) for _ in range(ns)], lst=False))
        z = [0] * self.w.dim
        ex = list(z)
        ex[r.randrange(self.w.dim)] = 2
        return kern(dict(a='poly', p=[[[r.choice([1, 2]), z], [r.choice([0, 1]), ex]] for _ in range(ns)], deg=2, lst=False))

    def bilinear(self, B, sampled, dirichlet):
        """a coercive form: stiffness, mass, convection, Robin terms"""
        r, dim = self.rng, self.w.dim
        h, sf = B
        bas = lambda der: dict(h=h, sf=sf, der=der, o=r.randrange(2))
        z = [0, 0, 0]
        d = lambda k: [1, k, 0]
        F = lambda mu, fl, k, b, c: dict(t=2, mu=mu, f=fl, b=bas(b), c=bas(c), k=k)
        out = []
        stiff = self.aff and r.random() < .8
        if stiff:
            out += [F('dx', '', self.coef(sampled), d(k), d(k)) for k in range(dim)]
        if not stiff or not dirichlet or r.random() < .5:
            out.append(F('dx', '', self.coef(sampled), z, z))
            if stiff and r.random() < .3:
                out.append(F('dx', '', kern(dict(a='const', c=[r.choice([-1, 1])], lst=False)), z, d(r.randrange(dim))))
        if dim == 2 and r.random() < .25:
            out.append(F('ds', r.choice(self.job['rflags']), self.coef(sampled), z, z))
        if r.random() < .25:
            out.append(F('dx', r.choice(self.job['rflags']), self.coef(False), z, z))
        r.shuffle(out)
        return out

    def linear(self, B, sampled):
        out = []
        for _ in range(self.rng.choice([1, 1, 2])):
            for _ in range(20):
                f = self.form(1, B, None)
                s = max([1] + [a['ns'] if a['a'] == 'nodal' else len(a.get('p', a.get('c'))) for a in f['k']['at']])
                if self.deg(f) <= 9 and (sampled or s == 1):
                    out.append(f)
                    break
        if all(f['mu'] != 'dx' for f in out):
            f = dict(t=1, mu='dx', f='', k=self.coef(False), b=dict(h=B[0], sf=B[1], der=[0, 0, 0], o=0))
            out.append(f)
        return out

    def dirichlet(self, ns, per, only=None):
        r = self.rng
        a = r.choice(['num', 'num', 'const', 'nodal'] if per else ['num', 'const', 'poly', 'poly', 'nodal'])
        n = ns if r.random() < .5 else 1
        if a == 'num':
            fn = dict(a='num', c=[r.choice([0, 0, 1, -2])])
        elif a == 'const':
            fn = dict(a='const', c=[r.choice([-2, -1, 1, 3]) for _ in range(n)])
        elif a == 'poly':
            deg = r.randint(0, 2)
            fn = dict(a='poly', p=[self.poly(deg) for _ in range(n)])
        else:
            fn = dict(a='nodal', ns=n, seed=r.randrange(11))
        on = not (self.w.dim == 1 and any(self.w.g['per'])) and r.random() < .85
        mk = r.choice(self.job['rflags'] * 2 + ([''] if on else []))
        return dict(mk=mk, on=on, fn=fn)


def isbal(w, f):
    return w.dim == 1 or w.mesh.is_balanced(subforest_flag=FLAG[f])


def nonempty(w, d, sf, kinds):
    """a function can only be evaluated when the marker selects something"""
    return any(len(w.mesh.get_region(flag=FLAG[d['mk']], entity_type=k, on_boundary=d['on'], subforest_flag=FLAG[sf])) > 0 for k in kinds)


def make_query(w, rng, job):
    if not w.fresh:
        return None
    kind = rng.choice(job['qk'])
    sf, cells = AA.submesh(w, rng, job)
    if not cells or len(cells) > job.get('maxleaves', 12):
        return None
    g = SGen(w, rng, job, sf, cells)
    ok = [f for f in g.sfs if isbal(w, f)]
    if not ok:
        return None
    per = any(w.g['per'])
    ets = job['init']['ets']
    kinds = ['vertex'] if w.dim == 1 else ['vertex', 'half_edge'] if kind == 'solve' else ['half_edge']

    def dirs(bsf, ns, n):
        out = []
        for _ in range(n):
            d = g.dirichlet(ns, per)
            if d['fn']['a'] in ('num',) or nonempty(w, d, bsf, kinds):
                out.append(d)
        return out

    def size(B):
        return len(w.forest.get_leaves(subforest_flag=FLAG[B[1]])) * (AA.DEG[ets[B[0] - 1]] + 1) ** w.dim
    need, cost = 0, 0
    if kind == 'solve':
        probs = []
        for _ in range(rng.choice([1, 1, 2])):
            B = (rng.randint(1, len(ets)), rng.choice(ok))
            if size(B) > 130:
                continue
            sampled = rng.random() < .4
            hang = rng.random() < .8 and w.hfresh
            ds = dirs(B[1], 1, rng.choice([0, 1, 1, 2]))
            whole = sf == '' and hang and any(d['mk'] == '' for d in ds)
            bil = g.bilinear(B, sampled, whole)
            lin = g.linear(B, sampled)
            nb = max(nsamp(f) for f in bil)
            if nb > 1:
                ds = dirs(B[1], nb, len(ds))
                if whole:
                    ds.append(dict(mk='', on=True, fn=dict(a='num', c=[1])))
            nv = max(nsamp(f) for f in lin)
            forms = bil + lin
            rng.shuffle(forms)
            sols = [[rng.randrange(nb), rng.randrange(nv)] for _ in range(2 if nb * nv > 1 else 1)]
            p = dict(b=dict(h=B[0], sf=B[1], der=[0, 0, 0], o=0), forms=forms, dirs=ds, hang=hang, sols=sols)
            need = max([need] + [g.deg(f) for f in forms])
            cost += sum(g.cost(f) for f in forms)
            probs.append(p)
        if not probs or cost > 500000 or need > 9:
            return None
        return dict(q='solve', sf=sf, probs=probs, ng=need // 2 + 1, dflt=rng.random() < .5, hfirst=rng.random() < .3)
    # linear systems
    if not w.hfresh:
        return None
    B = (rng.randint(1, len(ets)), rng.choice(ok))
    if size(B) > 110:
        return None
    forms = [g.bilinear(B, False, False) for _ in range(rng.choice([1, 2]))]
    lin = g.linear(B, False)
    fs = [f for p in forms for f in p] + lin
    need = max(g.deg(f) for f in fs)
    if need > 9 or sum(g.cost(f) for f in fs) > 400000:
        return None

    def rhs(empty=False):
        k = rng.choice(['asm', 'data', 'data'] + ([''] if empty else []))
        return dict(k=k, n=rng.choice([1, 1, 2, 3]), seed=rng.randrange(11), flat=rng.random() < .5)
    none = dict(k='', n=1, seed=0, flat=False)
    script, info = [], []
    for _ in range(rng.choice([1, 1, 2])):
        a = rng.choice([0] + list(range(1, len(forms) + 1)))
        script.append(dict(e='new', a=a, rhs=rhs(True), late=rng.random() < .3))
        info.append(dict(a=a, b=script[-1]['rhs']['k'] != '', done=False))
    todo = []
    for y in range(len(info)):
        todo += [(y, 'dir')] * rng.choice([0, 1, 1, 2]) + [(y, 'solve')] * rng.choice([1, 2, 3])
    rng.shuffle(todo)
    # conditions of a system come before its first solve
    for y in range(len(info)):
        mine = sorted((k for _, k in todo if _ == y), key=lambda k: k != 'dir')
        it = iter(mine)
        todo = [(z, k) if z != y else (y, next(it)) for z, k in todo]
    for y, k in todo:
        s = info[y]
        if k == 'dir':
            for d in dirs(B[1], 1, 1):
                script.append(dict(e='dir', y=y + 1, d=d))
            continue
        a = 0 if s['a'] and rng.random() < .6 else rng.randint(1, len(forms))
        b = none if s['b'] and not (a and s['done']) and rng.random() < .5 else rhs()
        new = a or not s['done']
        script.append(dict(e='solve', y=y + 1, a=a, rhs=b, path=rng.choice(['solve', 'solve', 'manual']) if new else 'solve', factor=rng.random() < .4))
        s.update(a=a or s['a'], b=True, done=True)
    return dict(q='ls', sf=sf, b=dict(h=B[0], sf=B[1], der=[0, 0, 0], o=0), forms=forms, lin=lin, script=script, ng=need // 2 + 1,
                fmt=rng.choice(['coo', 'csr', 'csc']))


def nsamp(f):
    return max([1] + [a['ns'] if a['a'] == 'nodal' else len(a.get('p', a.get('c'))) for a in f['k']['at']])


def prep(w, rng, job):
    AA.prep(w, rng, job)
    w.hfresh = False


def apply(w, op):
    AA.apply(w, op)
    if op['o'] == 'dist':
        w.hfresh = True
    elif op['o'] not in ('none', 'mark_region'):
        w.hfresh = False


def run(job):
    if 'ops' in job:
        job = dict(job)
        job['ops'] = job['ops'] + job['marks'] + [dict(o='dist')]
    tr = drive(job, query, make_query, prep, AA.rand_op, apply, AA.note)
    for s in tr['steps']:
        s.setdefault('nums', [])
    return tr
