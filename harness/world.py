"""Runs operations on the real liblarch (public API only) and records what is
observable: outcome, notifications, and the state as reported by queries.

An operation is a dict with uniform fields (see op()).  A recorded line is
{o, out, ret, ev, cb, acts, obs}.  Everything is normalised to strings, ints,
booleans and lists, so that TLC can compare the values."""
import io
import json
import os
import signal
import sys
import threading
import contextlib

REPO = os.environ.get('LARCH_REPO', '/repo')
sys.path.insert(0, REPO)
import warnings
warnings.simplefilter('ignore')

import gi
gi.require_version('Gtk', '3.0')
from gi.repository import GLib, Gtk

import liblarch
from liblarch import Tree, TreeNode

NONE = '~none'
OP_TIMEOUT = float(os.environ.get('LARCH_OP_TIMEOUT', '15'))
JOURNAL = None      # file which gets every operation before it is executed


class Hang(BaseException):
    pass


HUNG = [False]
FLOOD = 150000    # length of all paths which one operation notifies


LARGE = 6000      # notifications of one operation which are judged


def _alarm(*_):
    # inside a callback of GLib the exception would be swallowed
    HUNG[0] = True
    raise Hang()


def op(opname, **kw):
    o = {'op': opname, 'n': NONE, 'p': NONE, 'rec': False, 'pri': 'low',
         'col': [], 'th': 'm', 'v': NONE, 'f': NONE, 'name': NONE,
         'reset': False, 'refresh': True, 'e': NONE, 'a': NONE,
         'rows': [], 'row': [],
         'par': {'set': False, 'tag': NONE, 'neg': False, 'flat': False}}
    o.update(kw)
    return o


def fresh(x):
    """an equal value which is not the same object"""
    if isinstance(x, str):
        return x[:1] + x[1:]
    if isinstance(x, (list, tuple)):
        return type(x)(fresh(y) for y in x)
    return x


class Node(TreeNode):
    def __init__(self, node_id, parent=None):
        self.col = set()
        TreeNode.__init__(self, node_id, parent)


# filters: functions of the node and its descendants only ------------------
def _desc(node):
    tree = node.get_tree()
    seen, todo = set(), list(node.get_children())
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo.extend(tree.get_node(x).get_children())
    return [tree.get_node(x) for x in seen]


def make_filter(kind, tag):
    def f(node, parameters=None):
        t = tag
        if parameters and parameters.get('tag'):
            t = parameters['tag']
        if kind == 'all':
            return True
        if kind == 'col':
            return t in node.col
        if kind == 'leaf':
            return not node.has_child()
        if kind == 'orphan':
            return not node.has_parent()
        if kind == 'single':
            return len(node.get_parents()) < 2
        if kind == 'inner':
            return node.has_child()
        if kind == 'colleaf':
            return t in node.col and not node.has_child()
        if kind == 'any':
            return t in node.col or any(t in d.col for d in _desc(node))
        if kind == 'nochild':
            tree = node.get_tree()
            return all(t not in tree.get_node(c).col
                       for c in node.get_children())
        if kind == 'nodesc':
            return all(t not in d.col for d in _desc(node))
        if kind == 'odd':
            return sum(1 for d in _desc(node) if t in d.col) % 2 == 1
        raise AssertionError(kind)
    return f


def fspec(name, kind, tag='red', neg=False, flat=False):
    return {'name': name, 'kind': kind, 'tag': tag, 'neg': neg, 'flat': flat}


FILTERS = [
    fspec('red', 'col'), fspec('blue', 'col', 'blue'),
    fspec('notred', 'col', 'red', neg=True),
    fspec('leaf', 'leaf'), fspec('inner', 'inner'),
    fspec('redleaf', 'colleaf'),
    fspec('anyred', 'any'), fspec('anyblue', 'any', 'blue'),
    fspec('notanyred', 'any', neg=True),
    fspec('nobluechild', 'nochild', 'blue'),
    fspec('noreddesc', 'nodesc'), fspec('oddred', 'odd'),
    fspec('all', 'all'),
    fspec('flatall', 'all', flat=True), fspec('flatred', 'col', flat=True),
    fspec('flatleaf', 'leaf', flat=True), fspec('flatany', 'any', flat=True),
    fspec('flatnoblue', 'nochild', 'blue', flat=True),
    fspec('flatnotred', 'col', neg=True, flat=True),
    fspec('orphan', 'orphan'), fspec('notorphan', 'orphan', neg=True),
    fspec('single', 'single'), fspec('flatsingle', 'single', flat=True),
    fspec('p1', 'col', 'red'), fspec('p2', 'any', 'red'),
]
FNAMES = [f['name'] for f in FILTERS]


def bank(tree, filters):
    for f in filters:
        par = {}
        if f['neg']:
            par['negate'] = True
        if f['flat']:
            par['flat'] = True
        tree.add_filter(f['name'], make_filter(f['kind'], f['tag']),
                        parameters=par or None)


EVENTS = {'node-added-inview': 'added', 'node-deleted-inview': 'deleted',
          'node-modified-inview': 'modified'}
MAIN_EVENTS = {'node-added': 'added', 'node-deleted': 'deleted',
               'node-modified': 'modified'}


# after an exception of one of these, going on makes no sense
def text(value):
    return '~null' if value is None else str(value)


def seen(node):
    return sorted(c for c in node.col if c != 'heavy')


# functions of the last column of GTK models
COLFUN = {'first': lambda node: ('blue' if 'blue' in node.col else 'red' if 'red' in node.col else None),
          'last': lambda node: ('red' if 'red' in node.col else 'blue' if 'blue' in node.col else None),
          'dark': lambda node: None if seen(node) else 'black'}
FATAL = ('view', 'count', 'gtk', 'state', 'apply', 'unapply', 'reset',
         'capply', 'cunapply', 'cunreg', 'creg', 'conce', 'act', 'reg', 'dereg',
         'addfilt', 'remfilt', 'drain', 'new', 'wsort', 'wsel', 'fold', 'unfold')


class View(object):
    def __init__(self, world, key, view):
        self.world, self.key, self.view = world, key, view
        self.model = None
        self.widget = None
        self.sorted = False
        for ev, short in EVENTS.items():
            reserve(view, ev, self.logger(short), (len(world.views) + 1) % 3)

    def logger(self, short):
        def log(node_id, path):
            self.world.flood(path)
            self.world.ev.append({
                'v': self.key, 'e': short, 'n': str(node_id),
                'path': [str(x) for x in path],
                'd': bool(self.view.is_displayed(node_id)),
                'at': self.here(node_id, path)})
        return log

    def here(self, node_id, path):
        """what the view tells its listener about the path of the event"""
        try:
            if not self.view.is_displayed(node_id):
                return 'no'
            return 'yes' if path in self.view.get_paths_for_node(node_id) else 'no'
        except Exception as e:
            return type(e).__name__


class Counter(object):
    def __init__(self, world, key, count):
        self.key, self.count, self.seen = key, count, []
        self.once = []     # [registered at the start of the step, now, calls]
        count.register_cllbck(self.listener)

    def more(self):
        """a listener which unregisters itself when it is called"""
        rec = [True, True, 0]

        def listener():
            rec[2] += 1
            if rec[1]:
                rec[1] = False
                self.count.unregister_cllbck(listener)
        self.once.append(rec)
        self.count.register_cllbck(listener)

    def listener(self):
        self.seen.append(self.count.get_n_nodes())


def reserve(view, ev, log, n):
    """register log so that the first n keys stay free for others"""
    keys = [view.register_cllbck(ev, lambda *a: None) for _ in range(n)]
    view.register_cllbck(ev, log)
    for k in keys:
        view.deregister_cllbck(ev, k)


class World(object):
    def __init__(self, ids, filters=FILTERS, full=True, main_full=True):
        self.ids = list(ids)
        self.filters = filters
        self.ev, self.acts = [], []
        self.volume = 0
        self.tree = Tree()
        bank(self.tree, filters)
        self.main = self.tree.get_main_view()
        for ev, short in MAIN_EVENTS.items():
            reserve(self.main, ev, self.main_logger(short), 1)
        self.obj = {}
        self.actions = {}
        self.views = []
        self.counters = []
        self.labels = {}      # label -> [view key, event, key, calls]
        self.lines = []
        self.dead = False
        self.full = full
        self.main_full = main_full
        self.broken_queries = []

    def main_logger(self, short):
        def log(node_id, path):
            self.flood(())
            self.ev.append({'v': 'main', 'e': short, 'n': str(node_id),
                            'path': [],
                            'd': bool(self.tree.has_node(node_id))})
        return log

    def flood(self, path):
        """an operation which notifies and notifies does not end"""
        self.volume += 2 + len(path or ())
        if self.volume > FLOOD:
            _alarm()

    def close(self):
        """forget the tree: sources of the main loop must not survive"""
        self.pump()
        for v in self.views:
            if v.widget is not None:
                v.widget.close()
        self.pump()

    # -- operations ---------------------------------------------------------
    def pump(self, limit=3000):
        ctx = GLib.MainContext.default()
        n = 0
        while ctx.pending():
            ctx.iteration(False)
            n += 1
            if n > limit:
                raise Hang()

    def view(self, key):
        if key == 'main':
            return self.main
        for v in self.views:
            if v.key == key:
                return v.view
        raise KeyError(key)

    def widget(self, key):
        return [x for x in self.views if x.key == key][0].widget

    def counter(self, key):
        return [c for c in self.counters if c.key == key][0]

    def nid(self, x):
        return None if x == NONE else fresh(x)

    # the defaults are given explicitly every other time
    def pri(self, o):
        if o['pri'] == 'low' and len(self.lines) % 2:
            return {}
        return {'priority': o['pri']}

    def refresh(self, o):
        if o['refresh'] and len(self.lines) % 2:
            return {}
        return {'refresh': o['refresh']}

    def call(self, o):
        k, n, p, f = o['op'], fresh(o['n']), self.nid(o['p']), fresh(o['f'])
        t = self.tree
        if k == 'new':
            self.obj[n] = Node(n, p) if p is not None else Node(n)
        elif k == 'add':
            if p is None:
                t.add_node(self.obj[n], **self.pri(o))
            else:
                t.add_node(self.obj[n], parent_id=p, **self.pri(o))
        elif k == 'dupadd':
            t.add_node(Node(n))
        elif k == 'del':
            if o['rec']:
                t.del_node(n, recursive=True)
            else:
                t.del_node(n)
        elif k == 'move':
            return t.move_node(n, p)
        elif k == 'addpar':
            r = t.add_parent(n, p)
            return r if r is False else None
        elif k == 'nset':
            self.obj[n].set_parent(p)
        elif k == 'naddp':
            self.obj[n].add_parent(p)
        elif k == 'nremp':
            self.obj[n].remove_parent(p)
        elif k == 'naddc':
            self.obj[n].add_child(p)
        elif k == 'setpe':
            self.obj[n].set_parents_enabled(o['rec'])
        elif k == 'setce':
            self.obj[n].set_children_enabled(o['rec'])
        elif k == 'col':
            self.obj[n].col = set(o['col'])
            if o['reset']:
                t.refresh_node(n, **self.pri(o))
            else:
                self.obj[n].modified(**self.pri(o))
        elif k == 'ref':
            t.refresh_node(n, **self.pri(o))
        elif k == 'refall':
            t.refresh_all()
        elif k == 'drain':
            self.pump()
        elif k == 'view':
            v = t.get_viewtree(name=self.nid(o['name']), **self.refresh(o))
            if v is self.main:
                return 'main'
            for x in self.views:
                if x.view is v:
                    return x.key
            x = View(self, 'v%d' % len(self.views), v)
            self.views.append(x)
            if o['rec']:
                v.get_current_state()
            return x.key
        elif k == 'state':
            self.view(o['v']).get_current_state()
        elif k == 'gtk':
            from liblarch_gtk.treemodel import TreeModel
            x = [x for x in self.views if x.key == o['v']][0]
            if o['a'] == 'widget':
                from widget import Widget
                x.widget = Widget(self, x.key, x.view)
                x.model = x.widget.model
                return None
            x.model = TreeModel(x.view, [
                [str, lambda node: ','.join(seen(node))],
                [int, lambda node: len(seen(node)) or None],
                [str, COLFUN['first']]])
            x.sorted = o['rec']
            if x.sorted:
                x.model.set_sort_column_id(1 if o['reset'] else 0,
                                           Gtk.SortType.ASCENDING)
            x.model.connect_model()
        elif k == 'apply':
            kw = {}
            if o['par']['set']:
                par = {}
                if o['par']['tag'] != NONE:
                    par['tag'] = o['par']['tag']
                if o['par']['neg']:
                    par['negate'] = True
                if o['par']['flat']:
                    par['flat'] = True
                kw['parameters'] = par
            if o['reset']:
                kw['reset'] = True
            if not o['refresh']:
                kw['refresh'] = False
            self.view(o['v']).apply_filter(f, **kw)
        elif k == 'unapply':
            kw = {} if o['refresh'] else {'refresh': False}
            self.view(o['v']).unapply_filter(f, **kw)
        elif k == 'reset':
            kw = {} if o['refresh'] else {'refresh': False}
            self.view(o['v']).reset_filters(**kw)
        elif k == 'addfilt':
            return t.add_filter(('!' if o['rec'] else '') + f, make_filter('all', 'red'))
        elif k == 'remfilt':
            return t.remove_filter(f)
        elif k == 'count':
            c = t.get_viewcount(name=self.nid(o['name']),
                                **self.refresh(o))
            for x in self.counters:
                if x.count is c:
                    return x.key
            x = Counter(self, 'c%d' % len(self.counters), c)
            self.counters.append(x)
            return x.key
        elif k == 'capply':
            kw = {} if o['refresh'] else {'refresh': False}
            self.counter(o['v']).count.apply_filter(f, **kw)
        elif k == 'cunapply':
            self.counter(o['v']).count.unapply_filter(f)
        elif k == 'cunreg':
            c = self.counter(o['v'])
            c.count.unregister_cllbck(c.listener)
        elif k == 'creg':
            c = self.counter(o['v'])
            c.count.register_cllbck(c.listener)
        elif k == 'conce':
            # called before and after the one which is registered for good
            c = self.counter(o['v'])
            c.more()
            if o['rec']:
                c.count.unregister_cllbck(c.listener)
                c.count.register_cllbck(c.listener)
        elif k == 'act':
            v, a = self.view(o['v']), o['a']
            truthy = o['rec']
            action, given = self.actions.get((o['v'], n, a), (None, None))
            if action is None:
                given = {'none': None, 'zero': 0, 'empty': '', 'false': False,
                         'tuple': (a, None), 'obj': object()}.get(o['e'], a)
                chain = o['e'] == 'chain'

                def action(param, v=v, n=n, a=a, truthy=truthy, given=given):
                    if len(self.acts) > 50:
                        HUNG[0] = True
                        return False
                    self.acts.append({'a': a if param is given else 'wrong parameter',
                                      'ok': v.is_displayed(n)})
                    if chain:
                        v.queue_action(n, self.plain_action(v, n, a + '+'))
                    return truthy
                # the same action may be queued again
                self.actions[o['v'], n, a] = action, given
            if o['e'] == 'none':
                v.queue_action(n, action)
            else:
                v.queue_action(n, action, param=given)
        elif k == 'reg':
            label = o['a']
            # view, event, key, calls, deregisters itself, did so in this step
            rec = [o['v'], o['e'], None, 0, o['rec'], False]

            def cb(node_id, path, rec=rec):
                rec[3] += 1
                if rec[4] and rec[2] is not None:
                    self.view(rec[0]).deregister_cllbck(rec[1], rec[2])
                    rec[2], rec[5] = None, True
            rec[2] = self.view(o['v']).register_cllbck(o['e'], cb)
            used = [r[2] for r in self.labels.values()
                    if r[0] == o['v'] and r[1] == o['e']]
            self.labels[label] = rec
            return 'dup' if rec[2] in used else 'key'
        elif k == 'colfun':
            x = [x for x in self.views if x.key == o['v']][0]
            f = COLFUN[o['a']]
            if x.widget is not None:
                return x.widget.color(f)
            return '%s-%s' % (x.model.set_column_function(3, f), x.model.set_column_function(9, f))
        elif k == 'wsort':
            x = [x for x in self.views if x.key == o['v']][0]
            x.sorted = True
            order = Gtk.SortType.DESCENDING if o['rec'] else Gtk.SortType.ASCENDING
            if o['e'] == 'click':
                x.widget.header(o['a']).clicked()
            elif o['rec'] or o['reset']:
                x.widget.tv.set_sort_column(o['a'], order)
            else:
                x.widget.tv.set_sort_column(o['a'])
            col, order = x.widget.tv.get_sort_column()
            return '%s-%s' % (col, 'desc' if order == Gtk.SortType.DESCENDING else 'asc')
        elif k == 'wsel':
            self.widget(o['v']).select(o['rows'])
        elif k == 'fold':
            self.widget(o['v']).tv.collapse_node((n,))
        elif k == 'unfold':
            self.widget(o['v']).tv.expand_node((n,))
        elif k == 'drop':
            dst = self.widget(o['v'])
            src = dst if o['f'] == NONE else self.widget(o['f'])
            src.select(o['rows'])
            x, y, row, pos = dst.place(o['row'], o['e'])
            dst.external = 'move' if o['a'] == 'extmove' else 'record'
            self.drag = {'drag': src.selected(), 'dst': row, 'pos': pos,
                         'ext': o['f'] != NONE, 'move': dst.external == 'move',
                         'fn': {'ext2': '#2', 'ext9': 'none'}.get(o['a'], ''),
                         'scope': dst.target(o['a'])[1]}
            dst.calls = []
            dst.drop(src.drag(), src.tv, dst.target(o['a'])[0], x, y)
        elif k == 'dereg':
            rec = self.labels[o['a']]
            for _ in range(1 + len(self.lines) % 2):
                # once more does nothing
                self.view(rec[0]).deregister_cllbck(rec[1], rec[2])
            rec[2] = None
        else:
            raise AssertionError('unknown operation %s' % k)
        return None

    def plain_action(self, v, n, a):
        def action(param):
            if len(self.acts) > 50:
                HUNG[0] = True
            else:
                self.acts.append({'a': a if param is None else 'wrong parameter',
                                  'ok': v.is_displayed(n)})
        return action

    def do(self, o, observe=True):
        """execute one operation and record the line"""
        if self.dead:
            return None
        if JOURNAL is not None:
            JOURNAL.write(json.dumps(o) + '\n')
            JOURNAL.flush()
        self.ev, self.acts = [], []
        for c in self.counters:
            c.seen = []
            for x in c.once:
                x[0], x[2] = x[1], 0
        for r in self.labels.values():
            r[3], r[5] = 0, False
        widgets = [v.widget for v in self.views if v.widget is not None]
        for x in widgets:
            x.folds, x.calls = [], []
        self.drag = {'drag': [], 'dst': [], 'pos': '-', 'ext': False, 'move': False,
                     'fn': '', 'scope': 'none'}
        out, ret, box = 'ok', None, []
        HUNG[0] = False
        self.volume = 0

        def run():
            try:
                box.append(('ok', self.call(o)))
            except Exception as e:  # noqa
                box.append(('raise', type(e).__name__))
            except Hang:
                box.append(('hang', None))
        sink = io.StringIO()
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, OP_TIMEOUT)
        try:
            with contextlib.redirect_stdout(sink), \
                    contextlib.redirect_stderr(sink):
                if o['th'] == 'w':
                    th = threading.Thread(target=run, daemon=True)
                    th.start()
                    th.join()
                else:
                    run()
                if any(v.widget is not None for v in self.views):
                    self.pump()
            out, ret = box[0]
            if HUNG[0]:
                out, ret = 'hang', None
        except Hang:
            out, ret = 'hang', None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        line = {'o': o, 'out': out,
                'exc': ret if out == 'raise' else '-',
                'ret': '-' if out != 'ok' or ret is None else str(ret),
                'ev': self.ev[:500] if out == 'hang' else self.ev, 'acts': self.acts}
        self.ev, self.acts = [], []
        line['cb'] = [{'k': k, 'v': r[0], 'e': EVENTS.get(r[1]) or MAIN_EVENTS[r[1]],
                       'on': r[2] is not None or r[5], 'once': r[4], 'n': r[3]}
                      for k, r in sorted(self.labels.items())]
        line['cn'] = [{'v': c.key, 'seen': list(c.seen),
                       'once': [{'on': x[0], 'n': x[2]} for x in c.once]}
                      for c in self.counters]
        line['w'] = dict(self.drag, calls=[c for x in widgets for c in x.calls],
                         folds=[f for x in widgets for f in x.folds])
        line['has'] = False
        if out == 'hang':
            self.dead = True
        if out == 'raise' and o['op'] in FATAL and o['v'] != 'main':
            self.dead = True
        if observe and out != 'hang':
            signal.setitimer(signal.ITIMER_REAL, OP_TIMEOUT)
            try:
                with contextlib.redirect_stdout(sink), \
                        contextlib.redirect_stderr(sink):
                    line['obs'] = self.observe()
                line['has'] = True
            except Hang:
                line['out'] = 'hang'
                self.dead = True
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            # queries must not emit anything
            if self.ev or self.acts:
                self.broken_queries.append('query emitted events')
            self.ev, self.acts = [], []
        line['qx'] = self.broken_queries
        self.broken_queries = []
        if len(line['ev']) > LARGE and out != 'hang':
            # too much for the judge: the history ends before this operation
            self.dead = True
            return line
        self.lines.append(line)
        return line

    # -- observation --------------------------------------------------------
    def q(self, what, func, *a, **kw):
        """one query; an exception is recorded and judged as a violation"""
        try:
            r = func(*fresh(a), **{x: fresh(y) for x, y in kw.items()})
        except Hang:
            raise
        except Exception as e:
            self.broken_queries.append('%s: %s' % (what, type(e).__name__))
            return None
        if type(r) is list:
            # the list belongs to the caller: changing it must not matter
            mine = r[:]
            r.reverse()
            r.append('~junk')
            return mine
        return r

    def observe(self):
        m = self.main
        nodes, nq = [], []
        allnodes = self.q('main.get_all_nodes', m.get_all_nodes) or []
        for i in allnodes:
            node = self.q('get_node', self.tree.get_node, i)
            if node is None:
                continue
            nodes.append({
                'id': i,
                'par': [str(x) for x in self.q('get_parents', node.get_parents) or []],
                'ch': [str(x) for x in self.q('get_children', node.get_children) or []],
                'col': sorted(node.col)})
            if self.main_full:
                nq.append(self.observe_node(i, node))
        root = [str(x) for x in self.q('main.node_all_children', m.node_all_children) or []]
        obs = {'nodes': nodes, 'root': root,
               'has': [i for i in self.ids if self.q('has_node', self.tree.has_node, i)],
               'views': [self.observe_view(v.key, v.view, v.model, self.full,
                                           v.sorted, v.widget)
                         for v in self.views],
               'main': [self.observe_view('main', m, None, True)]
               if self.main_full else [],
               'nq': nq,
               'det': [self.observe_node(i, n) for i, n in sorted(self.obj.items())
                       if self.main_full and i not in allnodes],
               'counts': [{'v': c.key, 'n': self.q('count', c.count.get_n_nodes)}
                          for c in self.counters],
               'filters': sorted(self.q('list_filters', self.tree.list_filters) or []),
               }
        for c in obs['counts']:
            if c['n'] is None:
                c['n'] = 0 - 1
        return obs

    def observe_node(self, i, node):
        """all questions a node answers about its relations"""
        q = self.q
        ch = list(q('node.get_children', node.get_children) or [])
        return {
            'id': i, 'self': str(q('node.get_id', node.get_id)),
            'tree': q('node.get_tree', node.get_tree) is not None,
            'par': [str(x) for x in q('node.get_parents', node.get_parents) or []],
            'ch': [str(x) for x in ch],
            'hp': bool(q('node.has_parent', node.has_parent)),
            'hc': bool(q('node.has_child', node.has_child)),
            'hpx': [x for x in self.ids if q('node.has_parent', node.has_parent, x)],
            'hcx': [x for x in self.ids if q('node.has_child', node.has_child, x)],
            'nc': q('node.get_n_children', node.get_n_children) or 0,
            'nth': [str(q('node.get_nth_child', node.get_nth_child, k)) for k in range(len(ch))],
            'idx': [[x, k] for x, k in [(x, q('node.get_child_index', node.get_child_index, x))
                                        for x in self.ids] if k is not None],
            'pe': bool(q('node.has_parents_enabled', node.has_parents_enabled)),
            'ce': bool(q('node.has_children_enabled', node.has_children_enabled))}

    def printed(self, text):
        """the printed form of a tree -> [depth, id] of every line"""
        lines = (text or '').split('\n')
        lines = [l for l in lines if l and not l.startswith('____') and l != 'FilteredTree cache']
        return [[len(l) - len(l.lstrip(' ')), l.lstrip(' ')] for l in lines[1:]]

    def absent(self, v, r):
        """questions about nodes and positions which are not in the view"""
        def ask(f, *a):
            try:
                x = f(*fresh(a))
            except Hang:
                raise
            except Exception:
                return 'raise'
            return 'none' if x is None else 'empty' if x == [] else str(x)
        out = []
        for i in [x for x in self.ids if x not in r['isd']][:2] + ['~unknown']:
            for name in ('node_n_children', 'node_all_children', 'node_has_child', 'node_parents',
                         'node_has_parent', 'next_node', 'get_paths_for_node'):
                out.append([name, i, ask(getattr(v, name), i)])
            out.append(['node_n_children', i, ask(v.node_n_children, i, True)])
            out.append(['node_nth_child', i, ask(v.node_nth_child, i, 0)])
            out.append(['get_node_for_path', i, ask(v.get_node_for_path, tuple(r['top'][-1:]) + (i,))])
            if r['v'] == 'main' and i not in self.ids:
                out.append(['get_node', i, ask(self.tree.get_node, i)])
                out.append(['get_node', i, ask(v.get_node, i)])
        out.append(['node_nth_child', NONE, ask(v.node_nth_child, None, len(r['top']))])
        for i in r['all'][:3]:
            k = len(v.node_all_children(i)) if i in r['isd'] else 0
            out.append(['node_nth_child', i, ask(v.node_nth_child, i, k)])
        out.append(['next_node', NONE, ask(v.next_node, None)])
        out.append(['get_node_for_path', NONE, ask(v.get_node_for_path, ())])
        root = [ask(v.get_paths_for_node), ask(v.get_paths_for_node, None)]
        return out, root

    def observe_view(self, key, v, model, full, is_sorted=False, widget=None):
        q = self.q
        r = {'v': key, 'full': full, 'gtk': False, 'rows': [], 'sorted': is_sorted,
             'wid': widget is not None, 'sel': [], 'selids': [], 'open': []}
        r['appl'] = [] if key == 'main' else list(q('applied', v.list_applied_filters) or [])
        r['all'] = [str(x) for x in q('get_all_nodes', v.get_all_nodes) or []]
        r['isd'] = [i for i in self.ids if q('is_displayed', v.is_displayed, i)]
        r['top'] = [str(x) for x in q('node_all_children', v.node_all_children) or []]
        ents = []
        for i in r['all']:
            par = list(q('node_parents', v.node_parents, i) or [])
            ch = list(q('node_all_children', v.node_all_children, i) or [])
            paths = [[str(x) for x in p] for p in q('get_paths', v.get_paths_for_node, i) or []]
            e = {'id': i, 'par': par, 'ch': ch, 'paths': paths,
                 'hc': False, 'hp': False, 'nc': 0, 'ncr': 0, 'nth': [],
                 'nxt': [], 'probe': [], 'gn': NONE}
            if full:
                node = q('get_node', v.get_node, i)
                e['gn'] = str(node.get_id()) if node is not None else NONE
                e['hc'] = bool(q('has_child', v.node_has_child, i))
                e['hp'] = bool(q('has_parent', v.node_has_parent, i))
                e['nc'] = q('n_children', v.node_n_children, i) or 0
                e['ncr'] = q('n_children_rec', v.node_n_children, i, recursive=True) or 0
                e['nth'] = [str(q('nth_child', v.node_nth_child, i, k))
                            for k in range(len(ch))]
                nxt = [[p, q('next_node', v.next_node, i, p)] for p in par]
                nxt.append([NONE, q('next_node', v.next_node, i)])
                e['nxt'] = [[str(a), NONE if b is None else str(b)] for a, b in nxt]
                probes = [tuple(p) for p in paths]
                probes += [p[1:] for p in probes if len(p) > 1]
                probes += [(i,), (i, i)] + [(c, i) for c in ch] + [(c, i) for c in par]
                e['probe'] = []
                for p in probes[:24]:
                    g = q('get_node_for_path', v.get_node_for_path, p)
                    e['probe'].append({'path': list(p), 'r': NONE if g is None else str(g)})
            ents.append(e)
        r['nodes'] = ents
        r['pr'], r['miss'] = [], []
        r['n'], r['gn'], r['ntop'], r['ntopr'], r['nthtop'] = 0, [], 0, 0, []
        r['hct'] = False
        r['wf'], r['absent'], r['root'] = [], [], []
        if full:
            r['n'] = q('get_n_nodes', v.get_n_nodes) or 0
            r['pr'] = self.printed(q('print_tree', v.print_tree, True))
            # paths of nodes which are not displayed
            for i in self.ids:
                if i not in r['isd']:
                    for p in [(i,)] + [(x, i) for x in r['top'][:1]]:
                        if q('get_node_for_path', v.get_node_for_path, p) is not None:
                            r['miss'].append(i)
            r['gn'] = [str(x) for x in q('get_nodes', v.get_nodes) or []]
            r['ntop'] = q('n_children', v.node_n_children) or 0
            r['ntopr'] = q('n_children', v.node_n_children, None, True) or 0
            r['nthtop'] = [str(q('nth_child', v.node_nth_child, None, k))
                           for k in range(len(r['top']))]
            r['hct'] = bool(q('node_has_child', v.node_has_child, None))
            r['absent'], r['root'] = self.absent(v, r)
            for fs in (['red'], ['leaf'], ['anyred'], ['notred', 'leaf'], ['blue', 'inner'], ['p1'], ['p2', 'red']):
                if all(f in FNAMES for f in fs):
                    r['wf'].append({
                        'fs': fs,
                        'n': q('get_n_nodes', v.get_n_nodes, withfilters=fs) or 0,
                        'ns': sorted(str(x) for x in q('get_nodes', v.get_nodes, withfilters=fs) or [])})
        if model is not None:
            r['gtk'] = True
            rows = []

            def walk(it, prefix):
                while it is not None:
                    i = model.get_value(it, 0)
                    rows.append({'path': prefix + [str(i)],
                                 'val': text(model.get_value(it, 1)).split(','),
                                 'num': model.get_value(it, 2),
                                 'bg': text(model.get_value(it, model.get_n_columns() - 1))})
                    if len(prefix) < 40:
                        walk(model.iter_children(it), prefix + [str(i)])
                    it = model.iter_next(it)
            walk(model.get_iter_first(), [])
            for row in rows:
                row['val'] = [x for x in row['val'] if x]
            r['rows'] = rows
        if widget is not None:
            r['sel'] = q('selected', widget.selected) or []
            r['selids'] = [str(x) for x in q('get_selected_nodes', widget.tv.get_selected_nodes) or []]
            r['open'] = [row['path'] for row in rows
                         if widget.tv.row_expanded(widget.row(row['path']))]
        return r
