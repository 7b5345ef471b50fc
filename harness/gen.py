"""Seeded random drivers: they choose operations and run them on the real
code.  Usage: gen.py PROFILE SEED COUNT OUT.ndjson"""
import json
import random
import sys
import resource
import traceback

import world
from world import World, Hang, op, NONE, FILTERS, FNAMES

TAGS = [[], ['red'], ['blue'], ['red', 'blue']]
# no column of the GTK models shows this tag
HEAVY = TAGS + [t + ['heavy'] for t in TAGS]
IDS = list('abcdefgh')
ODD_IDS = ['added', 'deleted', 'modified', 'reordered', 'a b', 'a-b', '0', 'x:y']
SIMPLE = ['red', 'blue', 'notred', 'all', 'flatall', 'flatred', 'flatnotred']
RECURSIVE = ['leaf', 'inner', 'redleaf', 'anyred', 'anyblue', 'notanyred',
             'nobluechild', 'noreddesc', 'oddred', 'flatleaf', 'flatany',
             'flatnoblue', 'orphan', 'notorphan', 'single', 'flatsingle']
# the others are needed for the queries with additional filters
REMOVABLE = ['all', 'single', 'redleaf', 'flatred', 'noreddesc', 'flatleaf', 'u1', 'u2']
STATIC = [f for f in FNAMES if f not in ('p1', 'p2')]


class Driver(object):
    def __init__(self, rng, ids, dense=True, full=True, main_full=True):
        Driver.last = self
        self.r = rng
        self.tags = TAGS
        self.w = World(ids, full=full, main_full=main_full)
        self.ids = ids
        self.declared = set()
        self.nact = 0
        self.nlab = 0
        self.labels = []
        self.chained = set()
        self.queued = set()   # ids with a queued addition (other thread)
        self.exists = set()   # ids with an object
        self.names = []
        self.counters = []
        self.views = []

    # helpers
    def intree(self):
        return [i for i in self.ids if self.w.tree.has_node(i)]

    def pick(self, xs):
        return self.r.choice(list(xs))

    def do(self, opname, **kw):
        return self.w.do(op(opname, **kw))

    def known(self, p, c):
        """declare the same waiting relation only once"""
        if (p, c) in self.declared:
            return True
        t = self.w.tree
        if p == NONE or not (t.has_node(p) and t.has_node(c)):
            self.declared.add((p, c))
        return False

    def target(self, n, bias=0.85):
        """another node, mostly an existing one"""
        here = [x for x in self.intree() if x != n]
        if here and self.r.random() < bias:
            return self.pick(here)
        return self.pick(self.ids)

    # node operations
    def new(self, n, p=None, th='m'):
        if p is None:
            p = NONE
        if p != NONE and self.known(p, n):
            p = NONE
        self.exists.add(n)
        # a new object: what was declared on a detached one is lost
        self.do('new', n=n, p=p)

    def arrive(self, th='m', under=0.5, pri=None):
        out = [i for i in self.ids if not self.w.tree.has_node(i) and i not in self.queued]
        if not out:
            return
        n = self.pick(out)
        if n not in self.exists or self.r.random() < 0.4:
            self.new(n, self.target(n) if self.r.random() < 0.15 else None)
            if self.r.random() < 0.6:
                self.do('col', n=n, col=self.pick(self.tags), th='m')
        p = NONE
        if self.r.random() < under:
            p = self.target(n)
            if p == n and self.r.random() < 0.7:
                p = NONE
            if p != NONE and not self.w.tree.has_node(p) and self.known(p, n):
                p = NONE
        if th == 'w':
            self.queued.add(n)
        self.do('add', n=n, p=p, th=th, pri=pri or self.pick(['low', 'low', 'normal', 'high']))

    def relate(self, th='m'):
        k = self.pick(['addpar', 'addpar', 'move', 'naddp', 'naddc', 'nset', 'nremp', 'nremp'])
        if k in ('addpar', 'move'):
            n = self.target(NONE, 0.95)
        else:
            if not self.exists:
                return
            here = [x for x in self.intree() if x in self.exists]
            n = self.pick(here) if here and self.r.random() < 0.85 else self.pick(self.exists)
        if k == 'nremp':
            ps = self.w.obj[n].get_parents()
            p = self.pick(ps) if ps and self.r.random() < 0.9 else self.pick(self.ids)
            return self.do(k, n=n, p=p, th=th)
        p = self.target(n)
        if k in ('move', 'nset') and self.r.random() < 0.2:
            p = NONE
        pc = (n, p) if k == 'naddc' else (p, n)
        if self.w.tree.has_node(n) or n in self.exists:
            if self.known(*pc):
                return
        self.do(k, n=n, p=p, th=th)

    def delete(self, th='m', rec=0.3):
        n = self.target(NONE, 0.95)
        if n in self.queued:
            return
        self.do('del', n=n, rec=self.r.random() < rec, th=th)
        self.declared = set(x for x in self.declared if n not in x)
        gone = [i for i in self.ids if not self.w.tree.has_node(i)]
        self.declared = set(x for x in self.declared
                            if not (x[0] in gone or x[1] in gone) or
                            self.r.random() < 0.7)

    def recolor(self, th='m'):
        here = [x for x in self.intree() if x in self.exists]
        if not here:
            return
        n = self.pick(here)
        self.do('col', n=n, col=self.pick(self.tags), th=th, reset=self.r.random() < 0.5,
                pri=self.pick(['low', 'normal', 'high']))

    def refresh(self, th='m'):
        if self.r.random() < 0.1:
            self.do('refall', th=th)
        else:
            self.do('ref', n=self.target(NONE, 0.95), th=th,
                    pri=self.pick(['low', 'normal', 'high']))

    def flag(self, th='m'):
        here = [x for x in self.intree() if x in self.exists]
        if not here or self.r.random() < 0.2:
            here = sorted(self.exists)
        if here:
            self.do(self.pick(['setpe', 'setce']), n=self.pick(here),
                    rec=self.r.random() < 0.5, th=th)

    def dup(self):
        if self.intree():
            n = self.pick(self.intree())
            if self.r.random() < 0.5:
                self.do('dupadd', n=n)
            elif n in self.exists:
                self.do('add', n=n, p=self.pick([NONE, self.pick(self.ids)]))

    # views
    def view(self, name=None, refresh=True, conn=True, filters=()):
        line = self.do('view', name=NONE if name is None else name, refresh=refresh, rec=conn)
        if not line:
            return None
        v = line['ret']
        if line['out'] != 'ok':
            return None
        if v.startswith('v') and v not in self.views:
            self.views.append(v)
        for f in filters:
            self.do('apply', v=v, f=f)
        return v

    def filterop(self, names=None, lazy=0.15, params=0.15):
        if not self.views:
            return
        v = self.pick(self.views)
        k = self.pick(['apply', 'apply', 'unapply', 'reset'])
        refresh = self.r.random() > lazy
        names = names or STATIC
        if k == 'apply':
            if self.r.random() < params:
                self.do('apply', v=v, f=self.pick(['p1', 'p2']), refresh=refresh,
                        reset=self.r.random() < 0.4,
                        par={'set': True, 'tag': self.pick(['red', 'blue']),
                             'neg': self.r.random() < 0.4,
                             'flat': self.r.random() < 0.3})
            else:
                self.do('apply', v=v, f=self.pick(names), refresh=refresh,
                        reset=self.r.random() < 0.4)
        elif k == 'unapply':
            # mostly one which is applied
            cur = self.w.view(v).list_applied_filters()
            f = self.pick(cur) if cur and self.r.random() < 0.8 else self.pick(names)
            self.do('unapply', v=v, f=f, refresh=refresh)
        else:
            self.do('reset', v=v, refresh=refresh)

    def action(self):
        again = [x for x in sorted(self.w.actions) if x[2] not in self.chained]
        if again and self.r.random() < 0.25:
            # the same once more
            v, n, a = self.pick(again)
            self.do('act', v=v, n=n, a=a)
        elif self.views:
            self.nact += 1
            e = self.pick([NONE] * 5 + ['none', 'zero', 'empty', 'false', 'tuple', 'obj', 'chain', 'chain'])
            if e == 'chain':
                self.chained.add('x%d' % self.nact)
            self.do('act', v=self.pick(self.views), n=self.pick(self.ids),
                    a='x%d' % self.nact, rec=self.r.random() < 0.3,
                    e=e)

    def label(self):
        live = [x for x in self.labels if x[1]]
        if live and self.r.random() < 0.45:
            x = self.pick(live)
            x[1] = False
            self.do('dereg', a=x[0])
            return
        self.nlab += 1
        lab = ['l%d' % self.nlab, True]
        self.labels.append(lab)
        if self.views and self.r.random() < 0.6:
            self.do('reg', v=self.pick(self.views), a=lab[0], rec=self.r.random() < 0.3,
                    e=self.pick(['node-added-inview', 'node-deleted-inview',
                                 'node-modified-inview']))
        else:
            self.do('reg', v='main', a=lab[0], rec=self.r.random() < 0.3,
                    e=self.pick(['node-added', 'node-deleted', 'node-modified']))

    def counter(self):
        k = self.pick(['count', 'capply', 'capply', 'cunapply', 'cunreg', 'creg', 'conce'])
        if k == 'count' or not self.counters:
            line = self.do('count', name=self.pick([NONE, 'k1', 'k2', '']),
                           refresh=self.r.random() < 0.8)
            if line and line['ret'] not in self.counters and line['out'] == 'ok':
                self.counters.append(line['ret'])
        elif k in ('capply', 'cunapply'):
            self.do(k, v=self.pick(self.counters), f=self.pick(['red', 'blue', 'notred', 'all', 'orphan', 'single']),
                    refresh=True if k == 'cunapply' else self.r.random() < 0.85)
        else:
            self.do(k, v=self.pick(self.counters), rec=self.r.random() < 0.5)

    def bank(self):
        k = self.pick(['addfilt', 'remfilt'])
        fs = ['u1', 'u2', 'red' if k == 'addfilt' else 'u2'] + REMOVABLE[:2]
        if k == 'remfilt' and self.r.random() < 0.6:
            # one which is in use
            fs = [f for v in self.views for f in self.w.view(v).list_applied_filters() if f in REMOVABLE] or fs
        self.do(k, f=self.pick(fs), rec=k == 'addfilt' and self.r.random() < 0.3)

    def mainfilt(self):
        self.do(self.pick(['apply', 'unapply', 'reset']), v='main', f='red')

    # widgets
    def sort(self, v):
        self.do('wsort', v=v, a=self.pick(['num', 'key', 'key']),
                e=self.pick([NONE, NONE, 'click']), rec=self.r.random() < 0.4, reset=self.r.random() < 0.5)

    def colfun(self):
        vs = [v.key for v in self.w.views if v.model is not None]
        if vs:
            self.do('colfun', v=self.pick(vs), a=self.pick(['first', 'last', 'dark']))

    def rows(self, v):
        """the rows of the widget, from the last observation"""
        for line in reversed(self.w.lines):
            if line.get('has'):
                for x in line['obs']['views']:
                    if x['v'] == v:
                        return [row['path'] for row in x['rows']], x['open']
        return [], []

    def sample(self, v, n):
        rows, opened = self.rows(v)
        vis = [p for p in rows if all(p[:k] in opened for k in range(1, len(p)))]
        if not vis:
            return []
        first = self.pick(vis)
        # rows below or above it are of interest
        near = [p for p in vis if p != first and
                (p[:len(first)] == first or first[:len(p)] == p or p[-1] == first[-1])]
        out = [first]
        while len(out) < n:
            out.append(self.pick(near) if near and self.r.random() < 0.6 else self.pick(vis))
        return out

    def widgets(self):
        return [v.key for v in self.w.views if v.widget is not None]

    def select(self):
        ws = self.widgets()
        if ws:
            v = self.pick(ws)
            self.do('wsel', v=v, rows=self.sample(v, self.pick([0, 1, 2, 3])))

    def drop(self):
        ws = self.widgets()
        if not ws:
            return
        v = self.pick(ws)
        src, how = v, 'int'
        if len(ws) > 1 and self.r.random() < 0.4 or self.r.random() < 0.05:
            src, how = self.pick(ws), self.pick(['ext', 'ext', 'ext2', 'ext2', 'extmove', 'ext9'])
        rows = self.sample(src, self.pick([0, 1, 1, 1, 2, 2, 3]))
        dst = self.sample(v, 1)
        self.do('drop', v=v, f=src if how != 'int' else NONE, a=how, rows=rows,
                row=dst[0] if dst else [],
                e=self.pick(['into', 'into', 'into', 'before', 'after', 'out']))

    def fold(self):
        ws = self.widgets()
        if ws:
            v = self.pick(ws)
            rows, opened = self.rows(v)
            if opened and self.r.random() < 0.7:
                n = self.pick(opened)[-1]
            else:
                n = self.pick(self.ids)
            folded = [l['o']['n'] for l in self.w.lines if l['o']['op'] == 'fold' and l['o']['v'] == v]
            if folded and self.r.random() < 0.4:
                self.do('unfold', v=v, n=self.pick(folded))
            else:
                self.do('fold', v=v, n=n)

    def drain(self):
        self.do('drain')
        self.queued = set()

    # building a dense DAG
    def build(self, n, extra, th='m'):
        order = self.ids[:]
        self.r.shuffle(order)
        order = order[:n]
        for k, i in enumerate(order):
            self.new(i)
            if self.r.random() < 0.7:
                self.do('col', n=i, col=self.pick(self.tags))
            p = self.pick(order[:k]) if k and self.r.random() < 0.7 else NONE
            self.do('add', n=i, p=p)
        for _ in range(extra):
            c, p = self.pick(order), self.pick(order)
            if c != p:
                self.do('addpar', n=c, p=p)

    def tree_op(self, th='m', flags=True, weights=None):
        x = self.r.random()
        if x < 0.25:
            self.arrive(th)
        elif x < 0.55:
            self.relate(th)
        elif x < 0.70:
            self.delete(th)
        elif x < 0.85:
            self.recolor(th)
        elif x < 0.93:
            self.refresh(th)
        elif x < 0.96:
            if flags:
                self.flag(th)
            else:
                self.relate(th)
        elif x < 0.98 and th == 'm':
            self.dup()
        else:
            self.arrive(th)


def universe(r, lo, hi):
    n = r.randint(lo, hi)
    ids = IDS[:n]
    if r.random() < 0.15:
        odd = ODD_IDS[:]
        r.shuffle(odd)
        ids[:3] = odd[:3]
    elif r.random() < 0.3:
        # as long as the ids of applications
        ids = ['5f0c1a%02d-%s%s%s' % (r.randint(0, 99), i, i, i) for i in ids]
    return ids


def p_struct(r):
    """requests only, checked through the main view and one unfiltered view"""
    d = Driver(r, universe(r, 3, 7))
    if r.random() < 0.5:
        d.view()
    if r.random() < 0.6:
        d.build(r.randint(2, len(d.ids)), r.randint(0, 4))
    for _ in range(r.randint(10, 30)):
        d.tree_op()
    return d


def p_pend(r):
    """relations with missing nodes, arrivals in every order"""
    d = Driver(r, universe(r, 3, 7))
    if r.random() < 0.3:
        d.view()
    rel = [(p, c) for p in d.ids for c in d.ids if p != c]
    r.shuffle(rel)
    focus = r.choice(d.ids) if r.random() < 0.35 else None
    if focus:
        # a node which declares many of its relations itself
        rel.sort(key=lambda x: focus not in x)
        rel = rel[:r.randint(3, min(12, len(rel)))]
        r.shuffle(rel)
    else:
        rel = rel[:r.randint(1, min(9, len(rel)))]
    todo = [('rel', x) for x in rel] + [('node', i) for i in d.ids]
    r.shuffle(todo)
    if r.random() < 0.5:
        # nodes mostly first declared, later added
        todo.sort(key=lambda x: (x[0] == 'node') + r.random() * 1.5)
    for kind, x in todo:
        if kind == 'node':
            if x not in d.exists:
                d.new(x)
            if not d.w.tree.has_node(x):
                p = NONE
                if r.random() < 0.3:
                    p = r.choice(d.ids)
                    if p == x or (not d.w.tree.has_node(p) and d.known(p, x)):
                        p = NONE
                d.do('add', n=x, p=p)
        else:
            p, c = x
            k = r.choice(['naddp', 'naddc', 'nset', 'addpar', 'ctor'])
            if focus in x and r.random() < 0.7:
                k = 'naddc' if p == focus else r.choice(['naddp', 'naddp', 'nset'])
            if k in ('naddp', 'nset', 'ctor') and c not in d.exists:
                d.new(c, p if k == 'ctor' else None)
            if k == 'naddc' and p not in d.exists:
                d.new(p)
            if k == 'ctor':
                k = 'naddp'
            if d.known(p, c):
                continue
            if k == 'naddc':
                d.do(k, n=p, p=c)
            elif k == 'addpar' and not d.w.tree.has_node(c):
                d.declared.discard((p, c))
            else:
                d.do(k, n=c, p=p)
        if r.random() < 0.08:
            d.delete()
        if r.random() < 0.05:
            d.flag()
    for _ in range(r.randint(0, 8)):
        d.tree_op()
    return d


def p_dense(r, filters=None, gtk=False, n=None):
    """a DAG with filtered views, then changes"""
    d = Driver(r, universe(r, 4, 6), full=r.random() < 0.3, main_full=False)
    nv = r.choice([1, 1, 2])
    early = r.random() < 0.5
    if not early:
        d.build(r.randint(3, len(d.ids)), r.randint(1, 6))
    for _ in range(nv):
        fs = r.sample(filters or (RECURSIVE * 2 + SIMPLE), r.choice([1, 1, 1, 2]))
        v = d.view(refresh=r.random() < 0.8, filters=fs)
        if gtk and v:
            d.do('gtk', v=v, rec=r.random() < 0.3, reset=r.random() < 0.5)
    if early:
        d.build(r.randint(3, len(d.ids)), r.randint(1, 6))
    for _ in range(r.randint(8, 22)):
        if gtk and r.random() < 0.06:
            d.colfun()
        d.tree_op(flags=r.random() < 0.3)
    return d


def p_gtk(r):
    return p_dense(r, gtk=True)


def p_deep(r):
    """long chains and many nodes"""
    n = r.randint(10, 22)
    ids = ['n%d' % k for k in range(n)]
    d = Driver(r, ids, full=r.random() < 0.5, main_full=r.random() < 0.5)
    if r.random() < 0.3:
        d.view(filters=r.sample(STATIC, 1))
    order = ids[:]
    r.shuffle(order)
    wide = r.choice([1, 1, 2, 4])
    for k, i in enumerate(order):
        d.new(i)
        if r.random() < 0.5:
            d.do('col', n=i, col=d.pick(TAGS))
        d.w.do(op('add', n=i, p=r.choice(order[max(0, k - wide):k]) if k else NONE), observe=False)
    for _ in range(r.randint(1, 2)):
        v = d.view(filters=r.sample(STATIC, r.choice([0, 1])))
        if v and r.random() < 0.4:
            d.do('gtk', v=v)
    # the ends of chains
    for _ in range(3):
        d.do(r.choice(['addpar', 'move', 'naddp', 'nset']),
             n=order[r.randint(0, 1)], p=order[-1 - r.randint(0, 1)])
    d.do('col', n=order[-1], col=d.pick(TAGS))
    for _ in range(r.randint(4, 8)):
        d.tree_op()
    return d


def p_ladder(r):
    """few nodes, but very many paths: each layer is below all of the one
    before (the paths are not asked for)"""
    layers, wide = r.choice([(24, 2), (18, 3), (30, 2)])
    ids = ['n%d_%d' % (k, j) for k in range(layers) for j in range(wide)]
    d = Driver(r, ids, full=False, main_full=False)
    order = list(range(len(ids)))
    if r.random() < 0.5:
        # relations first declared, the nodes arrive in any order
        r.shuffle(order)
    for x in order:
        k, j = divmod(x, wide)
        i = ids[x]
        d.w.do(op('new', n=i), observe=False)
        d.exists.add(i)
        if order[0] == 0:
            d.w.do(op('add', n=i, p=ids[(k - 1) * wide] if k else NONE), observe=False)
            ps = range(1, wide) if k else []
        else:
            ps = range(wide) if k else []
        for q in ps:
            d.w.do(op('naddp', n=i, p=ids[(k - 1) * wide + q]), observe=False)
        if order[0] != 0:
            d.w.do(op('add', n=i, p=NONE), observe=False)
    last = len(ids) - 1
    for _ in range(5):
        k = r.choice(['addpar', 'move', 'naddp', 'naddc', 'nset'])
        n, p = ids[r.randint(0, wide)], ids[last - r.randint(0, wide)]
        if r.random() < 0.3:
            n, p = p, n
        d.do(k, n=n, p=p)
    d.delete(rec=0)
    return d


def p_big(r):
    """hubs: many siblings, many parents, many waiting relations, bursts of
    requests, many listeners and actions"""
    n = r.randint(14, 24)
    ids = ['n%d' % k for k in range(n)]
    d = Driver(r, ids, full=False, main_full=False)
    hub, low = ids[0], ids[-1]
    early = r.random() < 0.5
    gtk = r.random() < 0.5

    def views():
        for k in range(r.choice([1, 1, 2, 6])):
            v = d.view(name=r.choice([None, 'w%d' % k]), filters=r.sample(STATIC, r.choice([0, 1, 1, 2])))
            if v and gtk and k == 0:
                d.do('gtk', v=v, rec=r.random() < 0.3)

    def quiet(opname, **kw):
        return d.w.do(op(opname, **kw), observe=False)
    if early:
        views()
    wait = r.random() < 0.5
    for i in ids:
        d.new(i)
        if r.random() < 0.6:
            quiet('col', n=i, col=d.pick(TAGS))
    order = ids[:]
    if wait:
        r.shuffle(order)
        for i in ids[1:-1]:
            if r.random() < 0.8 and not d.known(hub, i):
                quiet('naddp', n=i, p=hub)
            if r.random() < 0.6 and not d.known(i, low):
                quiet('naddc', n=i, p=low)
    for i in order:
        p = NONE
        if not wait and i not in (hub, low) and r.random() < 0.8:
            p = hub
        quiet('add', n=i, p=p)
        if not wait and i == low:
            for j in r.sample(ids[1:-1], r.randint(5, 12)):
                quiet('naddp', n=low, p=j)
    if not early:
        views()
    for _ in range(r.choice([0, 0, 12])):
        d.label()
    if r.random() < 0.4 and d.views:
        v, x = d.pick(d.views), d.pick([hub, low, ids[1]])
        for k in range(12):
            d.nact += 1
            d.do('act', v=v, n=x, a='x%d' % d.nact, e=NONE)
        d.drain()
    if r.random() < 0.3:
        d.counter()
    steps = r.randint(6, 10)
    for k in range(steps):
        x = r.random()
        if x < 0.2:
            d.do(r.choice(['col', 'ref', 'setpe', 'setce']), n=d.pick([hub, low]) if d.w.tree.has_node(hub) else low,
                 rec=r.random() < 0.5, col=d.pick(TAGS))
        elif x < 0.3:
            d.do('del', n=d.pick([hub, low, ids[1]]), rec=r.random() < 0.4)
        elif x < 0.45:
            d.filterop(lazy=0)
        elif x < 0.55:
            for _ in range(r.randint(20, 60)):
                w = d.w
                if r.random() < 0.7:
                    quiet('col', n=d.pick(ids[1:-1]), col=d.pick(TAGS), th='w', pri=d.pick(['low', 'normal', 'high']))
                else:
                    quiet(d.pick(['naddp', 'nremp', 'nset']), n=d.pick(ids[1:]), p=d.pick(ids[1:]), th='w')
            d.drain()
        elif x < 0.65:
            a, b = d.pick(ids), d.pick(ids)
            if d.w.tree.has_node(a) and d.w.tree.has_node(b):
                d.do('move', n=a, p=b)
        else:
            d.tree_op()
    return d


def p_long(r):
    """few nodes, but a long history"""
    d = Driver(r, universe(r, 3, 5), full=False, main_full=False)
    for _ in range(r.choice([1, 2])):
        v = d.view(filters=r.sample(STATIC, r.choice([0, 1, 1])))
        if v and r.random() < 0.3 and not [x for x in d.w.views if x.key == v][0].model:
            d.do('gtk', v=v, rec=r.random() < 0.3)
    d.counter()
    for _ in range(r.randint(120, 200)):
        x = r.random()
        if x < 0.04:
            d.filterop(lazy=0.05)
        elif x < 0.08:
            d.action()
        elif x < 0.10:
            d.label()
        elif x < 0.12:
            d.counter()
        elif x < 0.15:
            d.drain()
        elif x < 0.25:
            d.tree_op('w')
        else:
            d.tree_op('m')
    d.drain()
    return d


def p_filters(r):
    d = Driver(r, universe(r, 4, 6), main_full=False)
    d.build(r.randint(2, len(d.ids)), r.randint(0, 4))
    for _ in range(r.choice([1, 2, 2, 3])):
        d.view(name=r.choice([None, 'w1', 'w2']), refresh=r.random() < 0.7)
    for _ in range(r.randint(12, 30)):
        x = r.random()
        if x < 0.53:
            d.filterop(names=STATIC + ['u1', 'u2'] if 'u1' in d.w.tree.list_filters() else None)
        elif x < 0.60:
            d.bank()
        elif x < 0.63:
            d.mainfilt()
        else:
            d.tree_op()
    for v in d.views:
        d.do(r.choice(['apply', 'reset']), v=v, f=r.choice(STATIC), reset=True)
    return d


def p_counts(r):
    d = Driver(r, universe(r, 3, 6), full=False, main_full=False)
    if r.random() < 0.5:
        d.build(r.randint(1, len(d.ids)), r.randint(0, 3))
    for _ in range(r.randint(1, 3)):
        d.counter()
    for _ in range(r.randint(15, 35)):
        x = r.random()
        if x < 0.3:
            d.counter()
        elif x < 0.36:
            d.bank()
        else:
            d.tree_op(th='m')
    return d


def p_acts(r):
    d = Driver(r, universe(r, 3, 6), full=False, main_full=False)
    if r.random() < 0.4:
        d.build(r.randint(1, len(d.ids)), r.randint(0, 4))
    for _ in range(r.choice([1, 2])):
        d.view(filters=r.sample(STATIC, r.choice([0, 1, 1])))
    for _ in range(r.randint(15, 35)):
        x = r.random()
        if x < 0.25:
            d.action()
        elif x < 0.35:
            d.drain()
        elif x < 0.5:
            d.filterop(lazy=0.25, params=0.0)
        else:
            d.tree_op()
    d.drain()
    return d


def p_callbacks(r):
    d = Driver(r, universe(r, 3, 6), full=False, main_full=False)
    for _ in range(r.choice([1, 2])):
        d.view(filters=r.sample(STATIC, r.choice([0, 1])))
    for _ in range(r.randint(20, 40)):
        x = r.random()
        if x < 0.35:
            d.label()
        elif x < 0.45:
            d.filterop(lazy=0.0, params=0.0)
        else:
            d.tree_op()
    return d


def p_names(r):
    d = Driver(r, universe(r, 3, 6), full=False, main_full=False)
    if r.random() < 0.6:
        d.build(r.randint(1, len(d.ids)), r.randint(0, 4))
    for _ in range(r.randint(20, 40)):
        x = r.random()
        if x < 0.2 and len(d.views) < 5:
            d.view(name=r.choice([None, 'w1', 'w2', 'w3', '', 'main', 'k1']),
                   refresh=r.random() < 0.8)
        elif x < 0.35:
            if len(d.counters) < 4:
                d.counter()
        elif x < 0.65:
            d.filterop(params=0.0)
        else:
            d.tree_op()
    return d


def p_async(r):
    """requests from another thread, executed by the main loop"""
    d = Driver(r, universe(r, 3, 6), full=False, main_full=False)
    if r.random() < 0.6:
        d.build(r.randint(1, len(d.ids)), r.randint(0, 4))
    if r.random() < 0.7:
        d.view(filters=r.sample(STATIC, r.choice([0, 1])))
    if r.random() < 0.3:
        d.counter()
    for _ in range(r.randint(15, 40)):
        x = r.random()
        if x < 0.12:
            d.drain()
        elif x < 0.25:
            d.tree_op('m')
        else:
            d.tree_op('w')
    d.drain()
    return d


def p_widget(r):
    """the GTK widget: drags, selection, sorting, expanding and collapsing"""
    wide = r.random() < 0.12
    d = Driver(r, ["n%02d" % k for k in range(r.randint(11, 14))] if wide else universe(r, 4, 6), full=False, main_full=False)
    d.tags = HEAVY
    if wide:
        # siblings with numbers of one and of two digits
        for i in d.ids:
            d.new(i)
            d.w.do(op('add', n=i, p=d.ids[0] if i != d.ids[0] and r.random() < 0.1 else NONE), observe=False)
    elif r.random() < 0.7:
        d.build(r.randint(3, len(d.ids)), r.randint(0, 5))
    for k in range(r.choice([1, 1, 2])):
        v = d.view(refresh=r.random() < 0.9, filters=r.sample(
            STATIC, 1) if r.random() < (0.3 if k == 0 else 0.6) else [])
        if v:
            d.do('gtk', v=v, a='widget')
            if r.random() < 0.5:
                d.sort(v)
    for _ in range(r.randint(12, 30)):
        x = r.random()
        if x < 0.35:
            d.drop()
        elif x < 0.45:
            d.select()
        elif x < 0.53:
            d.fold()
        elif x < 0.56 and d.views:
            d.sort(d.pick(d.views))
        elif x < 0.60:
            d.filterop(lazy=0.1)
        elif x < 0.62:
            d.colfun()
        else:
            d.tree_op(flags=False)
    return d


def p_mixed(r):
    d = Driver(r, universe(r, 4, 6), full=r.random() < 0.5, main_full=r.random() < 0.5)
    if r.random() < 0.5:
        d.build(r.randint(2, len(d.ids)), r.randint(0, 5))
    for _ in range(r.choice([1, 2])):
        v = d.view(name=r.choice([None, 'w1', 'w2']), refresh=r.random() < 0.8,
                   filters=r.sample(STATIC, r.choice([0, 1, 1, 2])))
        if v and r.random() < 0.5 and r.random() < 0.9:
            if not [x for x in d.w.views if x.key == v][0].model:
                d.do('gtk', v=v, rec=r.random() < 0.3, reset=r.random() < 0.5)
    d.counter()
    for _ in range(r.randint(15, 35)):
        x = r.random()
        if x < 0.08:
            d.filterop()
        elif x < 0.12:
            d.action()
        elif x < 0.15:
            d.label()
        elif x < 0.18:
            d.counter()
        elif x < 0.21:
            d.drain()
        elif x < 0.35:
            d.tree_op('w')
        else:
            d.tree_op('m')
    d.drain()
    return d


PROFILES = {k[2:]: v for k, v in list(globals().items()) if k.startswith('p_')}


def record(run, src):
    """run a driver; a failure of the driver itself (which a broken tree can
    provoke) keeps the lines recorded so far"""
    Driver.last = None
    problem, guilty = '', False
    if world.JOURNAL is not None:
        world.JOURNAL.seek(0)
        world.JOURNAL.truncate()
        world.JOURNAL.write(json.dumps({'src': src}) + '\n')
        world.JOURNAL.flush()
    try:
        run()
        Driver.last.w.close()
    except (Exception, Hang):
        problem = traceback.format_exc()[-1500:]
        # raised by the code under test, or by the driver itself?
        frame = traceback.extract_tb(sys.exc_info()[2])[-1]
        guilty = frame.filename.startswith(world.REPO)
        if Driver.last is None:
            raise
        try:
            Driver.last.w.close()
        except (Exception, Hang):
            pass
    w = Driver.last.w
    return {'src': src, 'problem': problem, 'guilty': guilty, 'ids': w.ids, 'filters': FILTERS,
            'lines': w.lines}


def setup(out):
    world.JOURNAL = open(out + '.journal', 'w')
    # a runaway operation gets a MemoryError
    resource.setrlimit(resource.RLIMIT_AS, (5 << 29, 5 << 29))


def hung(t):
    return bool(t['lines']) and t['lines'][-1]['out'] == 'hang'


def main():
    profile, seed, count, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    setup(out)
    hangs = 0
    with open(out, 'w') as f:
        for k in range(count):
            r = random.Random('%s-%d-%d' % (profile, seed, k))
            src = '%s-%d-%d' % (profile, seed, k)
            t = record(lambda: PROFILES[profile](r), src)
            f.write(json.dumps(t) + '\n')
            f.flush()
            hangs += hung(t)
            if hangs >= 2:
                break


if __name__ == '__main__':
    main()
