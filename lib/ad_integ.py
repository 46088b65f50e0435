"""Integral forms (IIForm, IPForm), covariance kernels and operators of the code under test; observations for spec/IntegTrace.tla."""
import numpy as np
import ad_asm as AA
import ad_mesh as AM
from ad_forest import FLAG
from adbase import drive
from fem import Basis
from function import Explicit, Constant, Nodal
from assembler import Kernel, Form, IIForm, IPForm, Assembler
import gmrf
from num import rq, rqs

den, DEG = AA.den, AA.DEG


def bdata(at, d, e, s):
    return (((d + 2) * (at['seed'] + 3) + (e + 1) * (e + 5) + s * (d + 2 * e)) % 9) - 4


def sepfun(p, shift, dim):
    """sum of c x^e y^f in coordinates relative to shift"""
    sh = np.array(shift[:dim], dtype=float)

    def f(x, y):
        x = np.asarray(x, dtype=float).reshape(-1, dim) - sh
        y = np.asarray(y, dtype=float).reshape(-1, dim) - sh
        out = np.zeros(len(x))
        for c, e, g in p:
            t = float(c) * np.ones(len(x))
            for k in range(dim):
                t = t * x[:, k] ** e[k] * y[:, k] ** g[k]
            out = out + t
        return out
    return f


def fun_of(w, at):
    if at['a'] == 'sep':
        fs = [sepfun(p, w.shift, w.dim) for p in at['p']]
        return Explicit(fs if len(fs) > 1 else fs[0], dim=w.dim, n_variables=2, symmetric=at['sym'])
    if at['a'] == 'const':
        return Constant(float(at['c'][0]) if len(at['c']) == 1 else np.array(at['c'], dtype=float), n_variables=2)
    B = AA.basis(w, at['b'], 2)
    d = [int(x) for x in B.dofs()]
    data = np.array([[[float(bdata(at, x, y, s + 1)) for s in range(at['ns'])] for y in d] for x in d])
    return Nodal(data=data, basis=B, n_variables=2)


def kernel_of(w, k):
    f = [fun_of(w, at) for at in k['at']]
    return Kernel(f if len(f) > 1 or k['lst'] else f[0], F=(lambda a, b: a * b) if k['F'] == 'prod' else None)


def form_of(w, f, cache):
    if f['t'] < 3:
        return AA.form_of(w, f, cache)

    def bas(b):
        key = (b['h'], b['sf'], tuple(b['der']), b['o'])
        if key not in cache:
            cache[key] = AA.basis(w, b, b['o'])
        return cache[key]
    cls = IPForm if f['t'] == 3 else IIForm
    return cls(kernel_of(w, f['k']), test=bas(f['b']), trial=bas(f['c']), dmu=f['mu'], flag=FLAG[f['f']])


def parameters(w, q):
    f = lambda x: float(x['n']) / float(x['d'])
    P = {}
    if q['name'] != 'rational':
        P['sgm'] = f(q['sgm'])
    if q['name'] in ('gaussian', 'exponential', 'matern'):
        P['l'] = f(q['l'])
    if q['name'] == 'matern':
        P['nu'] = q['nu2'] / 2.0
    if q['name'] == 'rational':
        P['a'] = q['a']
    if q['M']:
        P['M'] = f(q['M'][0][0]) if len(q['M']) == 1 else np.array([[f(x) for x in r] for r in q['M']])
    if q['per']:
        P['periodic'] = True
        P['box'] = [float(x) for x in q['box']]
    return P


def query(w, q):
    if q['q'] == 'int':
        cache = {}
        P = [[form_of(w, f, cache) for f in p] for p in q['probs']]
        A = Assembler(P, w.mesh, subforest_flag=FLAG[q['sf']], n_gauss=(q['ng'], q['ng'] ** 2))
        A.assemble()
        out = []
        for i in range(len(P)):
            af = A.assembled_forms(i)[2]
            rows, cols = [[int(x) for x in u] for u in af.aggregate_data()['udofs']]
            out.append(dict(M=dict(rows=rows, cols=cols, a=[den(A.get_matrix(i_problem=i, i_sample=s).toarray()) for s in range(af.n_samples())])))
        return out
    if q['q'] == 'kern':
        X = np.array([[float(v['n']) / float(v['d']) for v in x] for x in q['x']])
        Y = np.array([[float(v['n']) / float(v['d']) for v in x] for x in q['y']])
        P = parameters(w, q)
        f = getattr(gmrf, q['name'])
        if q['via'] == 'map':
            v = Kernel(Explicit(f, parameters=P, dim=w.dim, n_variables=2)).eval((X, Y))
        else:
            v = f(X, Y, **P)
        return dict(v=rqs(np.asarray(v).ravel()))
    dh, sf = w.dhs[q['h'] - 1], FLAG[q['sf']]
    if q['name'] == 'sep':
        C = gmrf.Covariance(dh, discretization=q['disc'], subforest_flag=sf, cov_fn=sepfun(q['p'], w.shift, w.dim))
    else:
        C = gmrf.Covariance(dh, discretization=q['disc'], subforest_flag=sf, name=q['name'], parameters=parameters(w, q))
    D, V = C.get_eigenvalues(), C.get_eigenvectors()
    mat = lambda a: [rqs(r) for r in np.asarray(a)]
    return dict(rows=[int(d) for d in dh.get_region_dofs(subforest_flag=sf)], n=int(C.size()), C=mat(C.get_matrix()), lam=rqs(np.asarray(D).ravel()),
                V=mat(V), S=mat(gmrf.GaussianField(C.size(), covariance=C).sample(z=np.eye(C.size()))))


# ------------------------------- generation ---------------------------------
def add(a, b):
    return [x + y for x, y in zip(a, b)]


class Gen(AA.Gen):
    def expo(self, deg, free):
        e = [0] * self.w.dim
        for _ in range(deg):
            k = [i for i in range(self.w.dim) if free or not self.w.g['per'][i]]
            if k:
                e[self.rng.choice(k)] += 1
        return e

    def sep(self, t, mx, my, sym):
        """terms with degree <= mx in x and <= my in y"""
        r = self.rng
        out = []
        for _ in range(r.randint(1, 2)):
            if sym:
                m = min(mx, my)
                e, f = self.expo(r.randint(0, m), t == 3), self.expo(r.randint(0, m), t == 3)
                c = r.choice([-2, -1, 1, 2, 3])
                out.append([c, e, f])
                if e != f:
                    out.append([c, f, e])
            else:
                out.append([r.choice([-2, -1, 1, 2, 3]), self.expo(r.randint(0, mx), t == 3), self.expo(r.randint(0, my), True)])
        return out

    def ikernel(self, t, mx, my):
        r = self.rng
        a = r.choice(['sep', 'sep', 'sep', 'const', 'nod']) if t == 3 else r.choice(['sep', 'sep', 'sep', 'const'])
        ns = r.choice([1, 1, self.ns])
        k = dict(F='id', at=[], lst=r.random() < .3)
        if a == 'nod':
            h = r.randint(1, len(self.w.dhs))
            b = dict(h=h, sf=self.sfpick(), der=[0, 0, 0], o=0)
            n = len(Basis(self.w.dhs[h - 1], 'u', subforest_flag=FLAG[b['sf']]).dofs())
            if n <= 30:
                k['at'] = [dict(a='nod', b=b, ns=ns, seed=r.randrange(11))]
                return k
            a = 'sep'
        sym = r.random() < .4

        def one(a, mx, my):
            if a == 'const':
                return dict(a='const', c=[r.choice([-2, -1, 1, 2, 3]) for _ in range(ns)])
            return dict(a='sep', p=[self.sep(t, mx, my, sym) for _ in range(r.choice([1, ns]))], sym=sym)
        if r.random() < .3:
            k['F'] = 'prod'
            k['at'] = [one(r.choice(['sep', 'const']), mx // 2, my // 2), one('sep', mx // 2, my // 2)]
            if r.random() < .5:
                k['at'].reverse()
        else:
            k['at'] = [one(a, mx, my)]
        return k

    def iprobs(self):
        r = self.rng
        out = []
        for _ in range(r.choice([1, 1, 2])):
            h1, h2 = r.randint(1, len(self.w.dhs)), r.randint(1, len(self.w.dhs))
            B, C = (h1, self.sfpick()), (h2, self.sfpick())
            if r.random() < .5:
                C = B
            t = r.choice([3, 3, 4])
            p, deg = [], 1
            for _ in range(r.choice([1, 1, 2])):
                mu = r.choice(['dx', 'dx', 'dx', 'ds'] if self.w.dim == 2 else ['dx'])
                f = r.choice([''] + self.job.get('rflags', [])) if mu == 'dx' or r.random() < .3 else r.choice(self.job.get('rflags', []) or [''])
                bud = 1 if self.aff or mu == 'dx' else 0
                b, c = self.bas(B[0], B[1], bud if t == 3 else 0), self.bas(C[0], C[1], bud)
                e = lambda b: DEG[self.job['init']['ets'][b['h'] - 1]]
                k = self.ikernel(t, 3 - (e(b) > 2), 3 - (e(c) > 2))
                ek = max([e(at['b']) for at in k['at'] if at['a'] == 'nod'] + [3])
                deg = max(deg, e(b) + ek + (not self.aff), e(c) + ek + (not self.aff))
                p.append(dict(t=t, mu=mu, f=f, k=k, b=b, c=c))
            if r.random() < .4 and t == 3:           # an ordinary bilinear form in the same problem
                for _ in range(20):
                    f = self.form(2, B, C)
                    if self.deg(f) <= 9 and self.cost(f) < 100000:
                        p.insert(r.randrange(len(p) + 1), f)
                        deg = max(deg, self.deg(f))
                        break
            out.append((p, deg))
        return [p for p, _ in out], max(d for _, d in out)


def frac(n, d=1):
    from fractions import Fraction
    f = Fraction(n) / Fraction(d)
    return dict(n=f.numerator, d=f.denominator)


def kern(w, r, cov):
    """a named kernel with parameters"""
    name = r.choice(['constant', 'linear', 'gaussian', 'exponential', 'matern', 'rational', 'gaussian', 'exponential', 'matern'])
    q = dict(name=name, sgm=frac(r.choice([1, 2, 3, 5]), r.choice([1, 2])), l=frac(r.choice([1, 2, 3, 5]), r.choice([1, 2])), a=r.choice([1, 2, 3]),
             nu2=r.choice([1, 3, 5]), M=[], per=[], box=[], p=[])
    if name != 'constant' and r.random() < .4:
        if w.dim == 1:
            q['M'] = [[frac(r.choice([1, 2, 4, 9]), r.choice([1, 2]))]]
        else:
            a, b, c = r.choice([1, 2, 3]), r.choice([-1, 0, 1]), r.choice([1, 2, 3])      # L L'
            q['M'] = [[frac(a * a), frac(a * b)], [frac(a * b), frac(b * b + c * c)]]
    return q


def box_of(w):
    b = w.mesh.bounding_box()
    return [frac(*float(v).as_integer_ratio()) for v in b]


def make_query(w, rng, job):
    kind = rng.choice(job['qk'])
    if kind == 'kern':
        q = kern(w, rng, False)
        n = rng.randint(1, 4)
        pt = lambda lo, hi: frac(rng.randint(4 * lo, 4 * hi), 4)
        q.update(q='kern', via=rng.choice(['fn', 'map']))
        if q['name'] not in ('constant', 'linear') and rng.random() < .4 and (w.dim == 1 or not q['M'] or q['M'][0][1]['n'] == 0):
            lo, wd = [rng.randint(-2, 2) for _ in range(w.dim)], [rng.randint(1, 4) for _ in range(w.dim)]
            q['per'] = [frac(x) for x in wd]
            q['box'] = [v for a, b in zip(lo, wd) for v in (a, a + b)]
            q['x'], q['y'] = [[[pt(a, a + b) for a, b in zip(lo, wd)] for _ in range(n)] for _ in (0, 1)]
        else:
            q['x'], q['y'] = [[[pt(-3, 3) for _ in range(w.dim)] for _ in range(n)] for _ in (0, 1)]
        if rng.random() < .3:
            q['y'][0] = q['x'][0]
        return q
    if not w.fresh:
        return None
    sf, cells = AA.submesh(w, rng, job)
    if not cells or len(cells) > job.get('maxleaves', 8):
        return None
    g = Gen(w, rng, job, sf, cells)
    if kind == 'int':
        p, need = g.iprobs()
        if need > 9:
            return None
        n0 = need // 2 + 1
        if len(cells) ** 2 * n0 ** (2 * w.dim) > 40000:
            return None
        return dict(q='int', sf=sf, rf='', probs=p, ng=rng.choice([n0, n0, min(5, n0 + 1)]))
    # covariance operators
    h = rng.randint(1, len(w.dhs))
    if sf != '' and sf not in g.sfs:
        return None
    n = w.dhs[h - 1].n_dofs(subforest_flag=FLAG[sf])
    if n > job.get('maxdofs', 20):
        return None
    e = DEG[job['init']['ets'][h - 1]]
    q = kern(w, rng, True)
    q.update(q='cov', h=h, sf=sf, disc='interpolation', shift=[frac(v) for v in w.shift[:w.dim]])
    if rng.random() < .5:
        q['name'] = 'sep'
        q['M'] = []
        q['disc'] = rng.choice(['galerkin', 'galerkin', 'interpolation'])
        # sum of squares of polynomials: a covariance
        terms = []
        for _ in range(rng.randint(1, 3)):
            m = [(rng.choice([-2, -1, 1, 2]), g.expo(rng.randint(0, 2), q['disc'] == 'galerkin')) for _ in range(rng.randint(1, 2))]
            terms += [[a * b, x, y] for a, x in m for b, y in m]
        q['p'] = terms
        if q['disc'] == 'galerkin' and (e + 2 + (not g.aff) > 7 or len(cells) > 6):
            return None
    elif any(w.g['per'][:w.dim]) and q['name'] not in ('constant', 'linear') and all(w.g['per'][:w.dim]) and (w.dim == 1 or not q['M'] or q['M'][0][1]['n'] == 0):
        pass
    if any(w.g['per'][:w.dim]) and q['disc'] == 'interpolation':
        return None      # the point of a dof on the seam is a choice
    return q


def run(job):
    if 'ops' in job:
        job = dict(job)
        job['ops'] = job['ops'] + [dict(o='dist')]
    tr = drive(job, query, make_query, AA.prep, AA.rand_op, AA.apply, AA.note)
    for s in tr['steps']:
        s.setdefault('nums', [])
    return tr
