"""Drives Tree/Forest (and the cell forests of meshes) of the code under test and records
what it does, for validation against spec/ForestTrace.tla.

job: {init:{free, kind, trees:[{n,reg,pre}]}, ops:[op..] | rand:{len,ops,maxdepth},
      flags:[..], qk:[query kinds], nq, s, f, seed, last: only observe after the last op}
"""
import random
from mesh import Tree, Forest, Mesh1D, QuadMesh

FLAG = {'': None, 'a': 'a', 'b': 'b', 'c': 'c', 'z': 0, 't': (1, 2), 'x': 1.5, 'T': True, 'r': 'r', 's': 's', 'y': ('y', 0)}
UNFLAG = {v: k for k, v in FLAG.items()}
NONE = [-1]


class World:
    def __init__(self, init):
        self.free = init['free']
        self.kind = init.get('kind', 'tree')
        tr = init['trees']
        self.forest = None
        if self.kind == 'tree':
            roots = [self.newtree(t) for t in tr]
            if self.free:
                self.root = roots[0]
            elif init.get('ctor'):
                self.forest = Forest(roots)
            else:
                self.forest = Forest()
                for r in roots:
                    self.forest.add_tree(r)
        elif self.kind == 'interval':
            self.mesh = Mesh1D(resolution=(len(tr),), box=[0, len(tr)])
            self.forest = self.mesh.cells
        elif self.kind == 'quad':
            self.mesh = QuadMesh(resolution=(len(tr), 1), box=[0, len(tr), 0, 1])
            self.forest = self.mesh.cells
        if self.kind != 'tree':
            for i, t in enumerate(tr):
                for p in t['pre']:
                    self.node([i] + p).split()

    @staticmethod
    def newtree(t):
        r = Tree(n_children=t['n']) if t['reg'] else Tree(regular=False)
        for p in t['pre']:
            nd = r
            for i in p:
                nd = nd.get_child(i)
            nd.split()
        return r

    def roots(self):
        return [self.root] if self.free else [self.forest.get_child(i) for i in range(self.forest.n_children())]

    def walk(self):
        """path -> node, in depth-first order, following child slots only"""
        out = {}

        def rec(nd, path):
            out[path] = nd
            for i in range(nd.n_children()):
                try:
                    ch = nd.get_child(i)
                except AssertionError:
                    ch = None
                if ch is not None:
                    rec(ch, path + (i,))
        for i, r in enumerate(self.roots()):
            rec(r, (i,))
        self.map = out
        self.path = {id(n): list(p) for p, n in out.items()}
        return out

    def node(self, a):
        nd = self.roots()[a[0]]
        for i in a[1:]:
            nd = nd.get_child(i)
        return nd

    def p(self, nd):
        if nd is None:
            return NONE
        if nd is self.forest:
            return []
        return self.path.get(id(nd), [-2])


def mark_args(rec):
    return dict(recursive=rec in ('down', 'up'), reverse=rec == 'up')


def apply(w, op):
    o = op['o']
    f = FLAG[op['f']] if 'f' in op else None
    if o == 'nop':
        return
    if o == 'record':
        if w.free:
            w.root.mark(f, recursive=True)
        elif w.kind != 'tree' and op.get('m'):
            w.mesh.record(f)
        else:
            w.forest.record(f)
    elif o == 'root_subtrees':
        w.forest.root_subtrees(f)
    elif o == 'refine':
        w.forest.refine(subforest_flag=FLAG[op['sf']], refinement_flag=FLAG[op['rf']], new_label=FLAG[op['nl']],
                        clean_up=op['clean'])
    elif o == 'coarsen':
        w.forest.coarsen(subforest_flag=FLAG[op['sf']], coarsening_flag=FLAG[op['cf']], new_label=FLAG[op['nl']],
                         clean_up=op['clean'])
    elif o == 'add_tree':
        w.forest.add_tree(w.newtree(op))
    elif o == 'remove_tree':
        w.forest.remove_tree(op['i'])
    else:
        nd = w.node(op['a'])
        if o == 'split':
            nd.split()
        elif o == 'splitn':
            nd.split(n_children=op['n'])
        elif o == 'add_child':
            nd.add_child()
        elif o == 'remove':
            nd.remove()
        elif o == 'delete_children':
            nd.delete_children()
        elif o == 'delete_child':
            nd.delete_children(position=op['i'])
        elif o == 'mark':
            nd.mark(*([] if f is True else [f]), **mark_args(op['rec']))    # without a name: the label True
        elif o == 'unmark':
            nd.unmark(f, **mark_args(op['rec']))
        elif o == 'unmark_all':
            nd.unmark(None, **mark_args(op['rec']))
        elif o == 'make_rooted':
            nd.make_rooted_subtree(f)
        else:
            raise RuntimeError('unknown op ' + o)


def dump(w):
    out = []
    w.walk()
    for path, nd in w.map.items():
        ad = list(nd.get_node_address())
        if w.free:
            ad = [0] + ad
        pos = nd.get_node_position()
        out.append(dict(a=list(path), ad=ad, ty=nd.get_node_type(), d=nd.get_depth(), n=nd.n_children(),
                        ch=[i for i in range(nd.n_children()) if nd.has_children(position=i)],
                        pos=-1 if pos is None else pos, par=w.p(nd.get_parent()),
                        fl=[k for k, v in FLAG.items() if v is not None and nd.is_marked(v)]))
    return out


MODES = {'d': 'depth-first', 'b': 'breadth-first'}


def query(w, q):
    k = q['q']
    f = FLAG[q['f']] if 'f' in q else None
    sf = FLAG[q['sf']] if 'sf' in q else None
    P = lambda it: [w.p(n) for n in it]
    if k == 'trav':
        tgt = w.forest if q['a'] == [] else w.node(q['a'])
        return P(tgt.traverse(flag=f, mode=MODES[q['m']]))
    if k == 'leaves':
        if q['a'] == []:
            return P(w.forest.get_leaves(flag=f, subforest_flag=sf, mode=MODES[q['m']]))
        return P(w.node(q['a']).get_leaves(flag=f, subtree_flag=sf, mode=MODES[q['m']]))
    if k == 'fdepth':
        return w.forest.depth()
    if k == 'find':
        return w.p(w.forest.find_node(list(q['a'])))
    if k == 'fkids':
        return P(w.forest.get_children(flag=f, reverse=q['rev']) or []) if q['f'] == '' or True else None
    if k == 'fhaskids':
        return bool(w.forest.has_children(flag=f))
    if k == 'rooted':
        return bool(w.forest.subtrees_rooted(f))
    if k == 'within':
        return bool(w.forest.is_contained_in(f, sf))
    nd = w.node(q['a'])
    if k == 'depth':
        return nd.tree_depth(flag=f)
    if k == 'tfind':
        return w.p(nd.find_node(list(q['b'])[1:] if w.free else list(q['b'])))
    if k == 'near':
        return w.p(nd.nearest_ancestor(f))
    if k == 'parent':
        return w.p(nd.get_parent(flag=f))
    if k == 'hasparent':
        return bool(nd.has_parent(flag=f))
    if k == 'root':
        return w.p(nd.get_root())
    if k == 'kids':
        return P(nd.get_children(flag=f, reverse=q['rev']))
    if k == 'haskids':
        return bool(nd.has_children(flag=f))
    if k == 'haskid':
        return bool(nd.has_children(position=q['i'], flag=f))
    if k == 'marked':
        return bool(nd.is_marked(f))
    if k == 'contains':
        return bool(nd.contains(w.node(q['b'])))
    if k == 'trooted':
        return bool(nd.is_rooted_subtree(f))
    raise RuntimeError('unknown query ' + k)


def make_query(w, kind, rng, flags):
    paths = list(w.map)
    a = list(rng.choice(paths))
    fl = [''] + flags
    q = dict(q=kind)
    if kind in ('trav', 'leaves'):
        q.update(a=a if w.free or rng.random() < .4 else [], f=rng.choice(fl), m=rng.choice('db'))
        if kind == 'leaves':
            q['sf'] = rng.choice(fl)
    elif kind in ('fdepth', 'find', 'fkids', 'fhaskids', 'rooted', 'within') and w.free:
        return None
    elif kind == 'find':
        q['a'] = list(a)
        if rng.random() < .5:
            q['a'] = rand_addr(rng, a)
    elif kind == 'tfind':
        t = rng.choice(paths)
        q.update(a=list(t))
        b = list(rng.choice([p for p in paths if p[0] == t[0]]))
        if rng.random() < .5:
            b = [t[0]] + rand_addr(rng, b)[1:]
        q['b'] = b
    elif kind in ('fkids', 'kids'):
        q.update(f=rng.choice(fl), rev=rng.random() < .5)
        if kind == 'kids':
            q['a'] = a
    elif kind in ('fhaskids',):
        q['f'] = rng.choice(fl)
    elif kind == 'rooted':
        q['f'] = rng.choice(fl)
    elif kind == 'within':
        q.update(f=rng.choice(fl), sf=rng.choice(fl))
    elif kind == 'haskid':
        n = w.map[tuple(a)].n_children()
        if n == 0:
            return None
        q.update(a=a, f=rng.choice(fl), i=rng.randrange(n))
    elif kind == 'contains':
        q.update(a=a, b=list(rng.choice(paths)))
    elif kind == 'trooted':
        q.update(a=a, f=rng.choice(flags))
    elif kind in ('root',):
        q['a'] = a
    elif kind in ('fdepth',):
        pass
    else:
        q.update(a=a, f=rng.choice(fl))
    return q


def rand_addr(rng, a):
    b = list(a)
    r = rng.random()
    if r < .5:
        return b + [rng.randrange(4) for _ in range(rng.randint(1, 2))]
    b[rng.randrange(len(b))] = rng.randrange(6)
    return b


def rand_op(w, rng, names, flags, maxdepth):
    w.walk()
    paths = list(w.map)
    for _ in range(40):
        o = rng.choice(names)
        a = list(rng.choice(paths))
        nd = w.map[tuple(a)]
        n = nd.n_children()
        kids = [i for i in range(n) if nd.get_child(i) is not None]
        if o == 'split' and nd.is_regular() and not kids and len(a) <= maxdepth:
            return dict(o=o, a=a)
        if o == 'splitn' and not nd.is_regular() and n == 0 and len(a) <= maxdepth:
            return dict(o=o, a=a, n=rng.randint(1, 3))
        if o == 'add_child' and not nd.is_regular() and n < 4 and len(a) <= maxdepth:
            return dict(o=o, a=a)
        if o == 'remove' and len(a) > 1:
            return dict(o=o, a=a)
        if o == 'delete_children':
            return dict(o=o, a=a)
        if o == 'delete_child' and kids:
            return dict(o=o, a=a, i=rng.choice(kids))
        if o in ('mark', 'unmark'):
            return dict(o=o, a=a, f=rng.choice(flags), rec=rng.choice(['no', 'no', 'down', 'up']))
        if o == 'unmark_all':
            return dict(o=o, a=a, rec=rng.choice(['no', 'down', 'up']))
        if o == 'record':
            return dict(o=o, f=rng.choice(flags))
        if o == 'make_rooted':
            return dict(o=o, a=a, f=rng.choice(flags))
        if w.free:
            continue
        fl = [''] + flags
        if o == 'root_subtrees':
            return dict(o=o, f=rng.choice(flags))
        if o == 'refine' and len(paths) < 90 and max(map(len, paths)) <= maxdepth and \
                all(x.is_regular() for x in w.map.values()):
            rf = rng.choice(flags if rng.random() < .8 else [''])
            oth = [x for x in fl if x == '' or x != rf]
            return dict(o=o, sf=rng.choice(oth), rf=rf, nl=rng.choice(oth), clean=rng.random() < .6)
        if o == 'coarsen':
            cf = rng.choice(fl)
            oth = [x for x in fl if x == '' or x != cf]
            return dict(o=o, sf=rng.choice(oth), cf=cf, nl=rng.choice(oth), clean=rng.random() < .6)
        if w.kind == 'tree' and o == 'add_tree' and w.forest.n_children() < 4:
            reg = rng.random() < .7
            return dict(o=o, n=rng.choice([2, 4]), reg=reg, pre=rng.choice([[], [[]], [[], [1]]]) if reg else [])
        if w.kind == 'tree' and o == 'remove_tree' and w.forest.n_children() > 1:
            return dict(o=o, i=rng.randrange(w.forest.n_children()))
    return dict(o='nop')


def run(job):
    rng = random.Random(job.get('seed', 0))
    w = World(job['init'])
    flags = job['flags']
    steps = []
    ops = job.get('ops')
    r = job.get('rand')
    n = len(ops) if ops is not None else r['len']
    if n == 0:
        ops, n = [dict(o='nop')], 1
    for k in range(n):
        op = ops[k] if ops is not None else rand_op(w, rng, r['ops'], flags, r['maxdepth'])
        observe = not job.get('last') or k == n - 1
        st = dict(op=op, exc='', s=job['s'], f=job['f'], qs=[], obs=observe)
        try:
            apply(w, op)
            if observe:
                st['dump'] = dump(w)
                for _ in range(job['nq']):
                    q = make_query(w, rng.choice(job['qk']), rng, flags)
                    if q is not None:
                        st['qs'].append(dict(q=q, r=query(w, q)))
        except Exception as e:
            st['exc'] = '%s: %s' % (type(e).__name__, str(e)[:200])
        st.setdefault('dump', [])
        steps.append(st)
        if st['exc']:
            break
    return dict(init=job['init'], steps=steps)
