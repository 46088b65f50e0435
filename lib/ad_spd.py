"""Decompositions of symmetric positive (semi)definite matrices (spd.py); observations for spec/SpdTrace.tla."""
import random
from fractions import Fraction as Fr
import numpy as np
import scipy.sparse as sp
from num import rqs, big
from spd import CholeskyDecomposition, EigenDecomposition

FMT = dict(dense=lambda A: A, F=np.asfortranarray, csc=sp.csc_matrix, csr=sp.csr_matrix, coo=sp.coo_matrix)


def fr(x):
    return Fr(int(x[0]), int(x[1]))


def mat(A):
    """nested list with one column for vectors"""
    if sp.issparse(A):
        A = A.toarray()
    A = np.asarray(A)
    if A.ndim == 0:
        A = A.reshape(1, 1)
    if A.ndim == 1:
        A = A.reshape(-1, 1)
    return rqs(A)


class World:
    """the matrix under construction, exactly"""
    def __init__(self, d):
        self.C = [[Fr(d)]]
        self.Q, self.D = [[Fr(1)]], [Fr(d)]
        self.nul = int(d == 0)
        self.objs = []
        self.sc = 0         # exponent of the size of the matrix

    def n(self):
        return len(self.C)

    def apply(self, op):
        n, C = self.n(), self.C
        o = op['o']
        if o == 'border':
            w = op['w']
            cw = [sum(C[i][j] * w[j] for j in range(n)) for i in range(n)]
            self.C = [C[i] + [cw[i]] for i in range(n)] + [cw + [sum(w[i] * cw[i] for i in range(n)) + op['d']]]
            self.nul += op['d'] == 0
            if any(w) or self.D is None:
                self.D = None
            else:
                self.D = self.D + [Fr(op['d'])]
                self.Q = [r + [Fr(0)] for r in self.Q] + [[Fr(0)] * n + [Fr(1)]]
            return
        if o == 'scale':
            s = Fr(2) ** op['k']
            self.sc += op['k']
            self.C = [[s * x for x in r] for r in C]
            if self.D is not None:
                self.D = [s * x for x in self.D]
            return
        E = [[Fr(int(i == j)) for j in range(n)] for i in range(n)]
        i, j = op['i'] - 1, op['j'] - 1
        if o == 'mix':
            E[i][j] += op['k']
            self.D = None
        elif o == 'swap':
            E[i], E[j] = E[j], E[i]
        elif o == 'rot':
            a, b, c = op['t']
            E[i][i] = E[j][j] = Fr(b, c)
            E[i][j], E[j][i] = Fr(-a, c), Fr(a, c)
        mul = lambda A, B: [[sum(A[p][k] * B[k][q] for k in range(n)) for q in range(len(B[0]))] for p in range(n)]
        self.C = mul(mul(E, C), [list(r) for r in zip(*E)])
        if self.D is not None:
            self.Q = mul(E, self.Q)

    def arr(self):
        return np.array([[float(x) for x in r] for r in self.C])


def rand_op(w, rng, job):
    n = w.n()
    r = rng.random()
    if n < job['rand']['n'] and (n == 1 or r < .55):
        z = rng.random()
        ww = [0] * n if z < .35 else [rng.choice([-2, -1, 0, 0, 0, 1, 1, 3]) if z < .7 else rng.choice([0, 0, 0, 1, -1]) for _ in range(n)]
        return dict(o='border', w=ww, d=rng.choice([1, 2, 3, 5, 9, 1, 4] + ([0] if rng.random() < job['rand']['sing'] else [])))
    if n == 1 or r > .93:
        return dict(o='scale', k=rng.choice([-6, -2, -1, 1, 3, 8]))
    i, j = rng.sample(range(1, n + 1), 2)
    if r < .68:
        return dict(o='swap', i=i, j=j)
    if w.D is not None and rng.random() < .75:
        return dict(o='rot', i=i, j=j, t=rng.choice([[3, 4, 5], [-4, 3, 5], [5, 12, 13], [8, 15, 17], [1, 0, 1]]))
    return dict(o='mix', i=i, j=j, k=rng.choice([-2, -1, 1, 2]))


def spread(w):
    e = np.linalg.eigvalsh(w.arr())
    pos = sorted(e)[w.nul:]
    return (pos[0], pos[-1]) if pos else (0., 0.)


def new_op(w, rng, job):
    lo, hi = spread(w)
    if not hi or lo < 1e-5 * hi:
        return None
    k = rng.choice(job['kinds'])
    if k != 'chol' and lo < 1e-11:        # the documented cut-offs are absolute: 2e-16 and 1e-13
        return None
    op = dict(o='new', k=k, fmt=rng.choice(['dense', 'dense', 'F', 'csc', 'csr', 'coo']), delta=[], integer=rng.random() < .2, M=[])
    if k == 'eig':
        z = rng.random()
        if z < .5:
            op['delta'] = [0, 1]
        elif z < .7 and w.D is not None:
            ds = sorted(set(w.D))
            a = rng.randrange(len(ds))
            x = ds[a] * Fr(5, 4) if a == len(ds) - 1 else (ds[a] + ds[a + 1]) / 2
            x = max(x, Fr(2) ** (w.sc - 6))
            op['delta'] = [big(x.numerator), big(x.denominator)]
        elif z < .8:
            op['delta'] = [1, big(2 ** 40)]
        if op['delta'] == [1, big(2 ** 40)] and abs(w.sc) > 12:
            op['delta'] = [0, 1]
    elif k == 'gen':
        if w.nul:
            return None
        n = w.n()
        L = np.array([[rng.choice([0, 0, 1, -1]) if j < i else rng.choice([1, 2]) if i == j else 0 for j in range(n)] for i in range(n)])
        M = L @ L.T
        if max(np.linalg.eigvalsh(M)) > 1e4 * min(np.linalg.eigvalsh(M)):
            return None
        op['M'] = M.tolist()
        op['mfmt'] = rng.choice(['dense', 'dense', 'csc', 'csr'])
        op['delta'] = [0, 1]
    return op


class Obj:
    pass


def make(w, op):
    A = w.arr()
    if op['integer'] and all(x.denominator == 1 for r in w.C for x in r):
        A = A.astype(int)
    fmt = FMT[op['fmt']]
    C = fmt(A.copy())
    o = Obj()
    o.k, o.op, o.A, o.n = op['k'], op, A.astype(float), w.n()
    if op['k'] == 'chol':
        o.x = CholeskyDecomposition(C)
    else:
        d = float(fr(op['delta'])) if op['delta'] else None
        if op['k'] == 'gen':
            M = FMT[op['mfmt']](np.array(op['M'], dtype=float))
            o.x = EigenDecomposition(C, M=M, delta=d)
        elif d is None:
            o.x = EigenDecomposition(C)
        else:
            o.x = EigenDecomposition(C, delta=d)
    # eigenvalues after the floor, for the choice of cut-offs
    o.sing, o.sc = w.nul > 0, w.sc
    if w.D is not None:
        b = fr(op['delta']) if op['delta'] else Fr(float(np.sqrt(np.finfo(float).eps) * np.linalg.norm(o.A)))
        o.D = sorted(float(max(x, b)) for x in w.D)
    else:
        o.D = None
        lo, hi = spread(w)
        o.lo, o.hi = lo, hi
    r = dict(size=int(o.x.get_size()), same=same(o), root=[], degenerate=False, sparse=False)
    if op['k'] == 'chol':
        r['degenerate'], r['sparse'] = bool(o.x.is_degenerate()), bool(o.x.is_sparse())
    if op['k'] != 'gen':
        r['root'] = mat(o.x.sqrt_dot(np.eye(o.n)))
    w.objs.append(o)
    return r


def same(o):
    m = o.x.get_matrix()
    m = m.toarray() if sp.issparse(m) else m
    return bool(np.array_equal(m, o.A))


def cutoff(o, rng, small):
    """a power of two inside a gap of the spectrum, or None"""
    xs = o.D if o.D is not None else ([0.] if o.sing else []) + [o.lo, o.hi]
    if o.D is None and o.op['delta'] in ([], [1, big(2 ** 40)]) and o.sing:
        xs = [1e-7 * o.hi] + xs[1:]
    xs = [max(x, 1e-9 * xs[-1]) for x in xs]
    out = []
    for e in range(o.sc - 40, o.sc + 30):
        c = 2. ** e
        if c < xs[-1] / 2 and all(x < c / 2 or x > 2 * c for x in xs) and (not small or c < min(x for x in xs if x > 1e-7 * xs[-1]) / 2) and c > 3e-7 * xs[-1]:
            out.append(e)
    return rng.choice(out) if out else None


def call_op(w, rng, job):
    y = rng.randrange(len(w.objs))
    o = w.objs[y]
    k = o.k
    fs = dict(chol=['dot', 'reconstruct', 'solve', 'solve', 'sqrt_dot', 'sqrt_dot', 'sqrt_solve', 'sqrt_solve', 'roots', 'undo', 'factors'],
              eig=['dot', 'reconstruct', 'solve', 'solve', 'sqrt_dot', 'sqrt_dot', 'sqrt_solve', 'sqrt_solve', 'roots', 'undo', 'factors', 'rank', 'null', 'range'],
              gen=['solve', 'solve', 'factors'])[k]
    f = rng.choice(fs)
    n = o.n
    m = rng.choice([1, 1, 2, 3, n])
    q = dict(o='call', y=y + 1, f=f, b=[[rng.randint(-4, 4) for _ in range(m)] for _ in range(n)], T=rng.random() < .5, rg=False, eps=[],
             flat=m == 1 and rng.random() < .7, order=rng.choice('CF'), integer=rng.random() < .2, sparse=False)
    if rng.random() < .1:
        q['b'] = [[int(i == j) for j in range(n)] for i in range(n)]
        q['flat'] = False
    # eigenvalues that are zero up to roundoff, with no floor above them
    raw = k == 'eig' and o.sing and o.op['delta'] == [0, 1] or k == 'eig' and o.sing and o.op['delta'] == [1, big(2 ** 40)]
    if f == 'dot' and k == 'chol' and not q['flat']:
        q['sparse'] = rng.random() < .3
    if f == 'undo' and o.sing:
        return None
    if f in ('solve', 'sqrt_solve') and k == 'eig':
        if raw or o.D is None and o.sing or rng.random() < .3:
            e = cutoff(o, rng, o.D is None)
            if e is None:
                return None
            q['eps'] = e
        if o.D is None and o.sing:
            q['rg'] = True
            if f == 'sqrt_solve' and q['T']:
                return None
    elif f == 'solve' and o.sing:
        q['rg'] = True
    elif f == 'sqrt_solve' and k == 'chol' and o.sing:
        q['rg'] = not q['T']
    if f in ('rank', 'null', 'range'):
        if o.sing and o.D is None or raw or rng.random() < .6:
            e = cutoff(o, rng, o.D is None)
            if e is None:
                return None
            q['eps'] = e
        elif o.D is not None and min(o.D) < 1e-6 * max(o.D):
            return None
    if q['rg'] or o.sing:
        b = np.array(q['b'])
        if np.any(np.abs(o.A @ b).max(axis=0) < 1e-3 * np.abs(o.A).max() * np.abs(b).max(axis=0)) and (q['rg'] or f == 'solve'):
            return None
    if q['eps'] != []:
        e = q['eps']
        if f == 'sqrt_solve':
            e = (e - 1) // 2 if e < 0 else e // 2
            xs = o.D if o.D is not None else [o.lo, o.hi]
            if any(.6 < x / 4. ** e < 1.6 for x in xs):
                return None
        q['eps'] = [1, big(2 ** -e)] if e < 0 else [big(2 ** e), 1]
    return q


def call(w, q):
    o = w.objs[q['y'] - 1]
    x, f = o.x, q['f']
    b = np.array(q['b'], dtype=float)
    if q['rg']:
        b = o.A @ b
    elif q['integer']:
        b = b.astype(int)
    if q['flat']:
        b = b[:, 0]
    elif q['order'] == 'F':
        b = np.asfortranarray(b)
    b0 = b.copy()
    kw = {}
    if q['eps']:
        kw['tol' if f in ('rank', 'null', 'range') else 'eps'] = float(fr(q['eps']))
    r = dict(v=[])
    shape = b.shape
    if f == 'dot':
        v = x.dot(sp.csc_matrix(b) if q['sparse'] else b)
    elif f == 'reconstruct':
        v, shape = x.reconstruct(), None
    elif f == 'solve':
        v = x.solve(b, generalized=True, **kw) if o.k == 'gen' and q['T'] else x.solve(b, **kw)
    elif f == 'undo':
        v = x.solve(x.dot(b), **kw)
    elif f == 'sqrt_dot':
        v = x.sqrt_dot(b, transpose=True) if q['T'] else x.sqrt_dot(b)
    elif f == 'roots':
        v = x.sqrt_dot(x.sqrt_dot(b, transpose=True))
    elif f == 'sqrt_solve':
        v = x.sqrt_solve(b, transpose=True, **kw) if q['T'] else x.sqrt_solve(b, **kw)
    elif f == 'factors':
        F = x.get_factors()
        v, shape = [], None
        if o.k == 'chol':
            if isinstance(F, tuple):
                r.update(kind='mod', L=mat(F[0]), D=mat(F[1]), P=mat(F[2]), D0=mat(F[3]))
            elif isinstance(F, np.ndarray):
                r.update(kind='dense', L=mat(F))
            else:
                r.update(kind='sparse', L=mat(F.L()), p=[int(i) + 1 for i in F.P()])
        else:
            r.update(kind='eig', d=rqs(F[0]), V=mat(F[1]))
            if not (np.array_equal(F[0], x.get_eigenvalues()) and np.array_equal(F[1], x.get_eigenvectors())):
                r['d'] = []
    else:
        v, shape = dict(rank=x.get_rank, null=x.get_nullspace, range=x.get_range)[f](**kw), None
        if f == 'rank':
            v = int(v)
    r['v'] = mat(v) if f != 'factors' else []
    if shape is not None and tuple(np.shape(v)) != tuple(shape):
        r['v'] = [[dict(n=3, d=0)]]
    r['same'] = same(o) and bool(np.array_equal(b, b0))
    return r


def run(job):
    rng = random.Random(job['seed'])
    hist = job.get('ops') or [dict(o='init', d=rng.choice([1, 2, 3, 4, 9]))]
    w = World(hist[0]['d'])
    steps = []
    todo = list(hist[1:])
    if 'rand' in job:
        todo += [None] * rng.randint(1, job['rand']['len'])
    calls = job['ncalls']
    if 'rand' in job and rng.random() < .3:
        todo.append(dict(o='scale', k=rng.choice([-60, -40, -30, -24, 20, 40] if job['kinds'] == ['chol'] else [-30, -24, -20, 20, 40])))
    plan = [('op', o) for o in todo]
    for _ in range(job['nobj']):
        plan += [('new', None)] + [('call', None)] * calls
    for kind, op in plan:
        st = dict(op=dict(o='none'), exc='', r=dict(root=[]))
        try:
            if kind == 'op':
                op = op or rand_op(w, rng, job)
                st['op'] = op
                w.apply(op)
            elif kind == 'new':
                op = new_op(w, rng, job)
                if op is None:
                    continue
                st['op'] = op
                st['r'] = make(w, op)
            else:
                op = call_op(w, rng, job) if w.objs else None
                if op is None:
                    continue
                st['op'] = op
                st['r'] = dict(call(w, op), root=[])
        except Exception as e:
            import os, traceback
            if os.environ.get('VT_TB'):
                traceback.print_exc(file=__import__('sys').stderr)
            st['exc'] = '%s: %s in %s' % (type(e).__name__, str(e)[:200], {k: v for k, v in st['op'].items() if k != 'b'})
        steps.append(st)
        if st['exc']:
            break
    return dict(init=dict(d=hist[0]['d']), steps=steps)
