"""Gaussian fields (gmrf.py); observations for spec/GaussTrace.tla."""
import random
from fractions import Fraction as Fr
import numpy as np
import scipy.sparse as sp
import ad_spd as AS
from ad_spd import FMT, mat, spread
from gmrf import GaussianField
from num import big
from spd import CholeskyDecomposition, EigenDecomposition


class World(AS.World):
    def __init__(self, d):
        AS.World.__init__(self, d)
        self.fl = []


class Fld:
    pass


def dec(w, d):
    """the argument describing a covariance or a precision: (matrix or decomposition, name of the decomposition)"""
    A = FMT[d['fmt']](w.arr())
    if d['way'] != 'obj':
        return A
    if d['k'] == 'chol':
        return CholeskyDecomposition(A)
    return EigenDecomposition(A, delta=float(AS.fr(d['delta']))) if d['delta'] else EigenDecomposition(A)


def imat(x):
    return np.array(x, dtype=float) if x else None


def constraint(q):
    A = np.array(q['A'], dtype=float)
    if q['af'] == 'ix':
        return np.array([r.index(1) for r in q['A']])
    return dict(dense=lambda A: A, csr=sp.csr_matrix, csc=sp.csc_matrix, coo=sp.coo_matrix)[q['af']](A)


def observe(w, y):
    """the roots a field applies to noise, its mean and canonical mean"""
    F = w.fl[y]
    f = F.f
    r = dict(KS=[], QS=[], KL=[], rank0=F.rank0)
    mu = np.asarray(f.get_mean(), dtype=float)
    r['mu'] = mat(mu)
    b = f.get_canonical_mean()
    r['b'] = [] if b is None else mat(np.asarray(b))
    C = f.get_covariance()
    if F.K:
        I = np.eye(C.get_size())
        r['KS'] = mat(f.sample(z=I) - mu[:, [0]])
        if F.eig:
            r['KL'] = mat(f.KL_sample(z=I) - mu[:, [0]])
    elif C is not None:
        r['KS'] = [[dict(n=0, d=1)]]
    if F.Q:
        I = np.eye(f.get_precision().get_size())
        r['QS'] = mat(f.sample(z=I, mode='precision') - mu[:, [0]])
    elif f.get_precision() is not None:
        r['QS'] = [[dict(n=0, d=1)]]
    F.last = {k: r[k] for k in ('KS', 'QS', 'KL', 'mu', 'b')}
    return r


def frame(w, but):
    out = []
    for y in range(len(w.fl)):
        if y == but:
            out.append(True)
        else:
            old = w.fl[y].last
            observe(w, y)
            out.append(w.fl[y].last == old)
    return out


def field_op(w, op):
    o = op['o']
    if o == 'field':
        F = Fld()
        F.n = w.n()
        F.K, F.Q, F.sup, F.m = op['K']['k'] != 'none', op['Q']['k'] != 'none', False, max(1, len(op['mu'][0]) if op['mu'] else 1)
        F.eig = op['K']['k'] == 'eig'
        F.rank0 = F.n - w.nul
        F.sing = w.nul > 0
        kw = {}
        if op['mu']:
            kw['mean'] = imat(op['mu'])
        if op['b']:
            kw['canonical_mean'] = imat(op['b'])
        for k, nm in (('K', 'covariance'), ('Q', 'precision')):
            d = op[k]
            if d['k'] != 'none' and d['way'] != 'set':
                kw[nm] = dec(w, d)
        F.f = GaussianField(F.n, **kw)
        if op['K']['way'] == 'set':
            F.f.set_covariance(dec(w, op['K']), decomposition=op['K']['k'])
        if op['Q']['way'] == 'set':
            F.f.set_precision(dec(w, op['Q']), decomposition=op['Q']['k'])
        F.Km = F.Qm = w.arr()
        F.b = bool(op['b'])
        w.fl.append(F)
        y = len(w.fl) - 1
    elif o == 'cond':
        P = w.fl[op['i'] - 1]
        F = Fld()
        F.f = P.f.condition(constraint(op), imat(op['e']), output='field', **({} if op['mode'] == 'covariance' and op['dfl'] else dict(mode=op['mode'])))
        F.n, F.K, F.Q, F.sup, F.m, F.eig, F.b = P.n, True, False, True, 1, True, False
        F.sing = True
        K = cov(P, op['mode'])
        A = np.array(op['A'], dtype=float)
        F.Km = K - K @ A.T @ np.linalg.solve(A @ K @ A.T, A @ K)
        F.rank0 = P.rank0
        w.fl.append(F)
        y = len(w.fl) - 1
    else:
        y = op['i'] - 1
        F = w.fl[y]
        f = F.f
        if o == 'set_mean':
            f.set_mean(imat(op['mu']))
            F.m = len(op['mu'][0]) if op['mu'] else 1
        elif o == 'set_b':
            f.set_canonical_mean(imat(op['b']))
            F.b = True
        elif o == 'comp_mean':
            f.compute_mean()
            F.m = 1
        elif o == 'comp_b':
            f.compute_canonical_mean()
            F.b = True
        elif o == 'set_K':
            F.K, F.eig, F.Km, F.sing = True, op['K']['k'] == 'eig', w.arr(), w.nul > 0
            F.rank0 = F.n - w.nul
            f.set_covariance(dec(w, op['K']), **(dict(decomposition=op['K']['k']) if op['K']['way'] == 'set' else {}))
        elif o == 'set_Q':
            F.Q, F.Qm = True, w.arr()
            f.set_precision(dec(w, op['Q']), **(dict(decomposition=op['Q']['k']) if op['Q']['way'] == 'set' else {}))
        elif o == 'support':
            f.update_support()
            F.sup = True
    r = observe(w, y)
    r['frame'] = frame(w, y)
    if o == 'cond':
        w.fl[y].rank0 -= len(op['A'])
    return r


def cov(F, mode):
    return F.Km if mode == 'covariance' else np.linalg.inv(F.Qm)


def call(w, q):
    F = w.fl[q['i'] - 1]
    f = F.f
    z = np.array(q['z'], dtype=float) if q['z'] else None
    if z is not None and q['order'] == 'F':
        z = np.asfortranarray(z)
    z0 = None if z is None else z.copy()
    if q['f'] == 'mean':
        a = [q['col'] - 1] if q['col'] > 1 or not q['dfl'] else []
        return dict(v=mat(f.mean(*a) if q['m'] == 1 and q['order'] == 'F' else f.mean(*a, n_copies=q['m'])), same=True)
    if q['f'] == 'project':
        v = f.project(z, **({} if q['mode'] == 'range' and q['dfl'] else dict(space=q['mode'])))
        return dict(v=mat(v), same=bool(np.array_equal(z, z0)))
    kw = dict(z=z) if z is not None else dict(n_samples=q['m'])
    if q['mode'] != 'covariance' or not q['dfl']:
        kw['mode'] = q['mode']
    if q['f'] == 'sample':
        if q['col'] > 1 or not q['dfl']:
            kw['m_col'] = q['col'] - 1
        v = f.sample(**kw)
    elif q['f'] == 'kl':
        kw.pop('mode', None)
        if q['hi'] < q['nz'] or not q['dfl']:
            kw['i_max'] = q['hi'] - 1
        v = f.KL_sample(i_min=q['lo'] - 1, **kw)
    else:
        A, e = constraint(q), imat(q['e'])
        v = f.condition(A, e, **kw)
    return dict(v=mat(v), same=z is None or bool(np.array_equal(z, z0)))


# ------------------------------- generation ---------------------------------
def rdec(w, rng, kinds, default):
    k = rng.choice(kinds)
    way = rng.choice(['ctor', 'set', 'obj']) if k == default else rng.choice(['set', 'obj'])
    d = dict(k=k, fmt=rng.choice(['dense', 'dense', 'csc', 'csr', 'coo']), way=way, delta=[])
    if k == 'eig' and way == 'obj' and not w.nul and rng.random() < .6:
        d['delta'] = [0, 1]
    return d


NONE = dict(k='none', fmt='dense', way='ctor', delta=[])


def ints(rng, n, m, k=4):
    return [[rng.randint(-k, k) for _ in range(m)] for _ in range(n)]


def constraints(w, rng, F, mode):
    """independent equations that are well conditioned for the covariance"""
    K = cov(F, mode)
    lim = F.rank0
    if lim < 1:
        return None
    for _ in range(10):
        k = rng.randint(1, min(3, lim))
        ix = rng.random() < .3
        if ix:
            A = [[int(i == j) for j in range(F.n)] for i in rng.sample(range(F.n), k)]
        else:
            A = [[rng.choice([0, 0, 1, -1, 2]) for _ in range(F.n)] for _ in range(k)]
        M = np.array(A, dtype=float)
        G = M @ K @ M.T
        ev = np.linalg.eigvalsh(G)
        if ev[0] > 1e-4 * ev[-1] and ev[-1] > 1e-3 * np.abs(K).max() and ev[0] > 1e-3 * np.abs(K).max():
            return dict(A=A, af='ix' if ix and rng.random() < .6 else rng.choice(['dense', 'dense', 'csr', 'coo', 'csc']), k=k)
    return None


def fine(w):
    lo, hi = spread(w)
    return hi > 0 and lo >= 1e-4 * hi and .01 < hi < 1e5


def field(w, rng, job):
    if not fine(w):
        return None
    full = w.nul == 0
    n = w.n()
    hasK = not full or rng.random() < .7
    hasQ = full and (not hasK or rng.random() < .4)
    op = dict(o='field', mu=ints(rng, n, rng.choice([1, 1, 1, 2, 3])) if rng.random() < .7 else [], b=ints(rng, n, 1) if hasQ and rng.random() < .5 else [],
              K=rdec(w, rng, ['eig', 'eig', 'chol'], 'eig') if hasK else NONE, Q=rdec(w, rng, ['chol', 'chol', 'eig'], 'chol') if hasQ else NONE)
    return op


def change(w, rng, job):
    y = rng.randrange(len(w.fl))
    F = w.fl[y]
    k = rng.choice(['set_mean', 'set_mean', 'set_b', 'comp_mean', 'comp_b', 'set_K', 'set_Q', 'support', 'cond', 'cond', 'cond'])
    op = dict(o=k, i=y + 1)
    full = w.nul == 0
    if k == 'set_mean':
        op['mu'] = ints(rng, F.n, rng.choice([1, 1, 2])) if rng.random() < .85 else []
        return op
    if k == 'cond':
        mode = rng.choice([m for m, h in (('covariance', F.K), ('precision', F.Q)) if h])
        if mode == 'covariance' and F.sing and not F.sup or F.sup and mode == 'precision' or len(w.fl) > 4:
            return None
        c = constraints(w, rng, F, mode)
        if c is None or c['k'] >= F.rank0:
            return None
        op.update(A=c['A'], af=c['af'], e=ints(rng, c['k'], 1), mode=mode, dfl=rng.random() < .5)
        K = cov(F, mode)
        A = np.array(c['A'], dtype=float)
        ev = np.linalg.eigvalsh(K - K @ A.T @ np.linalg.solve(A @ K @ A.T, A @ K))[::-1]
        r = F.rank0 - c['k']
        return op if ev[r - 1] > 1e-4 * ev[0] else None
    if F.sup:
        return None
    if k == 'set_b':
        op['b'] = ints(rng, F.n, 1)
        return op
    if k == 'comp_mean':
        return op if F.b and (F.Q or not F.sing) else None
    if k == 'comp_b':
        return op if F.m == 1 and (F.Q or not F.sing) else None
    if k in ('set_K', 'set_Q'):
        if F.n != w.n() or not fine(w) or k == 'set_Q' and not full:
            return None
        op[k[-1]] = rdec(w, rng, ['eig', 'chol'], 'eig' if k == 'set_K' else 'chol')
        return op
    if k == 'support':
        return op if F.eig and not F.sing and not F.Q else None


def call_op(w, rng, job):
    y = rng.randrange(len(w.fl))
    F = w.fl[y]
    f = rng.choice(['sample', 'sample', 'kl', 'csample', 'csample', 'mean', 'project'])
    modes = [m for m, h in (('covariance', F.K), ('precision', F.Q), ('canonical', F.Q)) if h]
    mode = rng.choice(modes)
    q = dict(o='call', i=y + 1, f=f, mode=mode, m=rng.choice([1, 1, 2, 4]), z=[], col=1, lo=1, hi=1, nz=0, A=[], e=[], af='dense', order=rng.choice('CCF'),
             dfl=rng.random() < .6)
    if f == 'mean':
        q.update(mode='covariance', col=rng.randint(1, F.m))
        return q
    if f == 'project':
        if not F.sup:
            return None
        q.update(mode=rng.choice(['range', 'nullspace']), z=ints(rng, F.n, q['m']))
        return q
    nz = F.f.get_covariance().get_size() if mode == 'covariance' else F.n
    if f == 'kl':
        if not F.eig:
            return None
        q['mode'] = 'covariance'
        nz = F.f.get_covariance().get_size()
        q['nz'] = nz
        q['lo'] = rng.randint(1, nz)
        q['hi'] = rng.randint(q['lo'], nz)
        if rng.random() < .8:
            q['z'] = ints(rng, q['hi'] - q['lo'] + 1, q['m'])
        return q
    if rng.random() < .8:
        q['z'] = ints(rng, nz, q['m'])
    if f == 'sample':
        q['col'] = rng.randint(1, F.m) if mode != 'canonical' else 1
        return q
    if mode == 'canonical' or mode == 'covariance' and F.sing and not F.sup:
        return None
    c = constraints(w, rng, F, mode)
    if c is None:
        return None
    q.update(A=c['A'], af=c['af'], e=ints(rng, c['k'], rng.choice([1, 1, q['m']])))
    return q


def run(job):
    rng = random.Random(job['seed'])
    np.random.seed(job['seed'] % (1 << 31))
    hist = job.get('ops') or [dict(o='init', d=rng.choice([1, 2, 3, 4, 9]))]
    w = World(hist[0]['d'])
    steps = []
    plan = [('op', o) for o in hist[1:]]
    if 'rand' in job:
        plan += [('op', None)] * rng.randint(1, job['rand']['len'])
    for _ in range(job['nobj']):
        plan += [('new', None)]
        for _ in range(job['ncalls']):
            plan.append(('call' if rng.random() < .7 else 'change', None))
        if 'rand' in job and rng.random() < .5:
            plan.append(('op', None))
    blank = dict(mu=[], b=[], KS=[], QS=[], KL=[], frame=[], rank0=0, v=[], same=True)
    for kind, op in plan:
        st = dict(op=dict(o='none'), exc='', r=dict(blank))
        try:
            if kind == 'op':
                op = op or AS.rand_op(w, rng, job)
                st['op'] = op
                w.apply(op)
            elif kind in ('new', 'change'):
                op = field(w, rng, job) if kind == 'new' else change(w, rng, job) if w.fl else None
                if op is None:
                    continue
                st['op'] = op
                st['r'] = dict(blank, **field_op(w, op))
            else:
                op = call_op(w, rng, job) if w.fl else None
                if op is None:
                    continue
                st['op'] = op
                st['r'] = dict(blank, **call(w, op))
        except Exception as e:
            import os, traceback
            if os.environ.get('VT_TB'):
                traceback.print_exc(file=__import__('sys').stderr)
            st['exc'] = '%s: %s in %s' % (type(e).__name__, str(e)[:200], {k: v for k, v in st['op'].items() if k != 'z'})
        steps.append(st)
        if st['exc']:
            break
    return dict(init=dict(d=hist[0]['d']), steps=steps)
