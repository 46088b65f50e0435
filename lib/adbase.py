"""Common driver of the adapters: builds a mesh history, asks queries, records the answers."""
import random
import ad_mesh as AM


def drive(job, query, make_query, prep=None, op_of=None, apply_of=None, note=None):
    """ops come from job['ops'] (explicit) or are drawn at random; with job['last'] queries are asked after the last one only"""
    rng = random.Random(job.get('seed', 0))
    w = AM.World(job['init'])
    if prep:
        prep(w, rng, job)
    steps = []
    w.walk()
    ops = job.get('ops')
    n = len(ops) if ops is not None else job['rand']['len']
    for k in range(n):
        st = dict(op=dict(o='none'), exc='', qs=[], num=[], cnt=0)
        cur = None
        try:
            op = ops[k] if ops is not None else (op_of or AM.rand_op)(w, rng, job)
            st['op'] = op
            (apply_of or AM.apply)(w, op)
            w.walk()
            if note:
                note(w, st)
            if not job.get('last') or k == n - 1:
                for _ in range(job['nq']):
                    cur = q = make_query(w, rng, job)
                    if q is not None:
                        r = query(w, q)
                        st['qs'].append(dict(q=q, r=r))
                cur = None
        except Exception as e:
            import os, traceback
            if os.environ.get('VT_TB'):
                traceback.print_exc(file=__import__('sys').stderr)
            st['exc'] = '%s: %s%s' % (type(e).__name__, str(e)[:200], ' in query %s' % (cur,) if cur else '')
        steps.append(st)
        if st['exc']:
            break
    return dict(init=job['init'], steps=steps)
