"""Columns of the GTK widget: descriptions and requests on the real widget.

Usage: columns.py SEED NUMBER OUT.ndjson        random histories
       columns.py edges SEED IN OUT.ndjson      behaviours printed by TLC
Needs an X display."""
import json
import random
import signal
import sys
import traceback

import world
from world import Hang, GLib
import gen

import gi
gi.require_version('Gtk', '3.0')
from gi.repository import Gtk
from liblarch import Tree, TreeNode
from liblarch_gtk import TreeView

NAMES = ['ca', 'cb', 'cc', 'cd', 'ce']
IDS = ['n%d' % k for k in range(1, 10)]
COLD = ['#ff0000', None, '#ffffff', '#202020']
WARM = [None, '#ffff00', '#7f7f7f', '#0000ff']
MILD = ['#818181', '#00ff00', None, '#ff8080']
FUNS = {
    'id': (str, lambda n: n.get_id()),
    'dat': (str, lambda n: str(n.d)),
    'num': (int, lambda n: n.d),
    'rev': (int, lambda n: 3 - n.d),
    'flag': (bool, lambda n: n.d % 2 == 1),
    'opt': (str, lambda n: None if n.d == 0 else str(n.d)),
    'cold': (str, lambda n: COLD[n.d]),
    'warm': (str, lambda n: WARM[n.d]),
    'mild': (str, lambda n: MILD[n.d]),
}
SEPS = {'odd': lambda n: n.d % 2 == 1, 'two': lambda n: n.d == 2}


class Node(TreeNode):
    def __init__(self, nid, d):
        TreeNode.__init__(self, nid)
        self.d = d

    def set_d(self, d):
        self.d = d
        self.modified()


def compare(a, b, order):
    """the greatest datum first"""
    return (b.d > a.d) - (b.d < a.d)


def col(name, **kw):
    c = {'name': name, 'order': -1, 'new': True, 'visible': True, 'resizable': True,
         'expand': False, 'title': '', 'fun': 'id', 'rend': 'default', 'sort': '',
         'sfun': False}
    c.update(kw)
    return c


def op(opname, **kw):
    o = {'op': opname, 'c': '', 'n': '', 'd': 0, 'b': False, 'k': 0, 'ids': [], 'fun': ''}
    o.update(kw)
    return o


def description(desc, r):
    """what the application writes; sometimes what is the default anyway"""
    out = {}
    for c in desc:
        typ, fun = FUNS[c['fun']]
        e = {'value': [typ, fun]}
        if c['rend'] == 'toggle':
            e['renderer'] = ['active', Gtk.CellRendererToggle()]
        elif c['rend'] in ('text', 'markup'):
            e['renderer'] = [c['rend'], Gtk.CellRendererText()]
        for key, k, default in (('order', 'order', -1), ('new_column', 'new', True),
                                ('visible', 'visible', True), ('resizable', 'resizable', True),
                                ('expandable', 'expand', False), ('title', 'title', ''),
                                ('sorting', 'sort', '')):
            if c[k] != default or (default in (True, False) and r.random() < 0.3):
                e[key] = c[k]
        if c['sfun']:
            e['sorting_func'] = compare
        out[c['name']] = e
    return out


def color(renderer, what):
    if not renderer.get_property(what + '-set'):
        return []
    c = renderer.get_property(what + '-rgba')
    return [int(round(x * 255)) for x in (c.red, c.green, c.blue)]


class Columns(object):
    def __init__(self, desc, rows, data, r):
        self.desc, self.first, self.data = desc, list(rows), list(data)
        self.lines, self.dead = [], False
        self.tree = Tree()
        for n, d in zip(rows, data):
            self.tree.add_node(Node(n, d))
        self.view = self.tree.get_viewtree(name='columns')
        self.tv = self.win = None
        self.r = r

    def build(self, _):
        self.tv = TreeView(self.view, description(self.desc, self.r))
        self.model = self.tv.get_model()
        self.win = Gtk.Window()
        self.win.set_default_size(400, 500)
        self.win.add(self.tv)
        self.win.show_all()

    def pump(self):
        ctx = GLib.MainContext.default()
        n = 0
        while ctx.pending():
            ctx.iteration(False)
            n += 1
            if n > 3000:
                raise Hang()

    def close(self):
        if self.win is not None:
            self.win.destroy()
        self.pump()

    def call(self, o):
        k, c, tv = o['op'], o['c'], self.tv
        if k == 'visible':
            tv.set_col_visible(c, o['b'])
        elif k == 'resizable':
            tv.set_col_resizable(c, o['b'])
        elif k == 'expander':
            tv.set_expander_column(c)
        elif k == 'search':
            tv.set_main_search_column(c)
        elif k == 'sort':
            if not o['b'] and self.r.random() < 0.5:
                tv.set_sort_column(c)
            else:
                tv.set_sort_column(c, Gtk.SortType.DESCENDING if o['b'] else Gtk.SortType.ASCENDING)
        elif k == 'click':
            Gtk.TreeView.get_columns(tv)[o['k'] - 1].clicked()
        elif k == 'bg':
            fun = FUNS[o['fun']][1]
            tv.set_bg_color(lambda node, default: fun(node) if hasattr(default, 'red') else 'blue', c)
            self.tree.refresh_all()
        elif k == 'sep':
            tv.set_row_separator_func(SEPS[o['fun']] if o['fun'] else None)
            # GTK computes heights only when rows change
            self.tree.refresh_all()
        elif k == 'multi':
            tv.set_multiple_selection(o['b'])
        elif k == 'select':
            sel = tv.get_selection()
            sel.unselect_all()
            for n in o['ids']:
                it = self.model.get_iter_first()
                while it is not None and self.model.get_value(it, 0) != n:
                    it = self.model.iter_next(it)
                if it is not None:
                    sel.select_iter(it)
        elif k == 'new':
            self.tree.add_node(Node(o['n'], o['d']))
        elif k == 'del':
            self.tree.del_node(o['n'])
        elif k == 'set':
            self.tree.get_node(o['n']).set_d(o['d'])
        elif k == 'open':
            self.build(o)
        else:
            raise ValueError(k)

    def observe(self):
        tv, m = self.tv, self.model
        iters, it = [], m.get_iter_first()
        while it is not None:
            iters.append(it)
            it = m.iter_next(it)
        cols = Gtk.TreeView.get_columns(tv)
        shown = []
        for c in cols:
            cells = []
            for it in iters:
                c.cell_set_cell_data(m, it, False, False)
                row = []
                for x in c.get_cells():
                    text = isinstance(x, Gtk.CellRendererText)
                    row.append({'t': (x.get_property('text') or '') if text else str(x.get_active()),
                                'bg': color(x, 'cell-background'),
                                'fg': color(x, 'foreground') if text else []})
                cells.append(row)
            shown.append({'title': c.get_title(), 'visible': c.get_visible(),
                          'resizable': c.get_resizable(), 'expand': c.get_expand(),
                          'click': c.get_clickable(), 'cells': cells})
        name, order = tv.get_sort_column()
        k = tv.get_search_column()
        exp = tv.get_property('expander-column')
        return {
            'names': list(tv.get_columns()), 'cols': shown,
            'rows': [{'id': str(m.get_value(it, 0)),
                      'sep': tv.get_background_area(m.get_path(it), None).height < 8}
                     for it in iters],
            'sort': {'c': name or '', 'desc': order == Gtk.SortType.DESCENDING},
            'search': [world.text(m.get_value(it, k)) for it in iters]
            if 0 <= k < m.get_n_columns() else [],
            'expander': cols.index(exp) + 1 if exp in cols else 0,
            'multi': tv.get_selection().get_mode() == Gtk.SelectionMode.MULTIPLE,
            'sel': [str(x) for x in tv.get_selected_nodes()]}

    def do(self, o):
        if self.dead:
            return
        if world.JOURNAL is not None:
            world.JOURNAL.write(json.dumps(o) + '\n')
            world.JOURNAL.flush()
        line = {'o': o, 'out': 'ok', 'has': False, 'obs': {}, 'what': ''}
        self.lines.append(line)
        signal.setitimer(signal.ITIMER_REAL, world.OP_TIMEOUT)
        try:
            try:
                self.call(o)
            except Exception:
                line['out'] = 'raise'
                line['what'] = traceback.format_exc()[-600:]
            self.pump()
            try:
                line['obs'] = self.observe()
                line['has'] = True
            except Exception:
                line['what'] = traceback.format_exc()[-600:]
                self.dead = True
        except Hang:
            line.update(out='hang', has=False)
            self.dead = True
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)


def run(desc, rows, data, ops, r, src):
    if world.JOURNAL is not None:
        world.JOURNAL.seek(0)
        world.JOURNAL.truncate()
        world.JOURNAL.write(json.dumps({'src': src}) + '\n')
        world.JOURNAL.flush()
    c = Columns(desc, rows, data, r)
    problem = ''
    c.do(op('open'))
    try:
        for o in () if c.dead else ops(c):
            c.do(o)
            if c.dead:
                break
        c.close()
    except (Exception, Hang):
        problem = traceback.format_exc()[-1500:]
    return {'src': src, 'problem': problem, 'guilty': False, 'ids': rows, 'filters': [],
            'desc': desc, 'rows': rows, 'data': data, 'lines': c.lines}


def some_description(r):
    names = r.sample(NAMES, r.choice([1, 2, 3, 3, 4, 5]))
    funs = r.sample(sorted(FUNS), len(names))
    desc = []
    for name, fun in zip(names, funs):
        c = col(name, fun=fun)
        if fun == 'flag':
            c['rend'] = 'toggle'
        else:
            c['rend'] = r.choice(['default', 'text', 'markup'])
        if r.random() < 0.5:
            c['order'] = r.choice([0, 1, 2, 3, 10])
        c['new'] = r.random() < 0.7
        c['visible'] = r.random() < 0.8
        c['resizable'] = r.random() < 0.7
        c['expand'] = r.random() < 0.3
        if r.random() < 0.5:
            c['title'] = 'T' + name
        if r.random() < 0.35:
            c['sort'] = name if r.random() < 0.6 else r.choice(names)
        c['sfun'] = r.random() < 0.25
        desc.append(c)
    return desc


def some_ops(r, c):
    present = list(c.first)
    names = [x['name'] for x in c.desc]
    for _ in range(r.randint(3, 14)):
        k = r.choice(['visible', 'visible', 'resizable', 'expander', 'search', 'sort', 'sort', 'click',
                      'click', 'bg', 'bg', 'sep', 'multi', 'select', 'new', 'del', 'set', 'set', 'set'])
        name = r.choice(names) if r.random() < 0.93 else 'cz'
        o = op(k)
        if k in ('visible', 'resizable'):
            o.update(c=name, b=r.random() < 0.5)
        elif k in ('expander', 'search'):
            o.update(c=name)
        elif k == 'sort':
            o.update(c=name, b=r.random() < 0.5)
        elif k == 'click':
            visual = [k for k, x in enumerate(Gtk.TreeView.get_columns(c.tv), 1) if x.get_visible()]
            if not visual:
                continue
            o.update(k=r.choice(visual))
        elif k == 'bg':
            ok = [x['name'] for x in c.desc if x['fun'] in ('cold', 'warm', 'mild')]
            name = r.choice(ok) if ok and name in names else 'cz'
            o.update(c=name, fun=r.choice(['cold', 'warm', 'mild']))
        elif k == 'sep':
            o.update(fun=r.choice(['', 'odd', 'two']))
        elif k == 'multi':
            o.update(b=r.random() < 0.6)
        elif k == 'select':
            o.update(ids=r.sample(present, r.randint(0, min(3, len(present)))))
        elif k == 'new':
            left = [x for x in IDS if x not in present and x not in c.first]
            if not left:
                continue
            o.update(n=left[0], d=r.randrange(4))
            c.first.append(left[0])
            present.append(left[0])
        else:
            if not present:
                continue
            n = r.choice(present)
            o.update(n=n, d=r.randrange(4) if k == 'set' else 0)
            if k == 'del':
                present.remove(n)
        yield o


def main():
    signal.signal(signal.SIGALRM, world._alarm)
    edges = sys.argv[1] == 'edges'
    seed, src, out = int(sys.argv[-3]), sys.argv[-2], sys.argv[-1]
    gen.setup(out)
    hangs = 0
    with open(out, 'w') as f:
        for k, item in enumerate(open(src) if edges else range(int(src))):
            name = '%s-%d-%d' % ('edge-columns' if edges else 'columns', seed, k)
            r = random.Random(name)
            if edges:
                e = json.loads(item)
                t = run([col(**x) for x in e['desc']], e['rows'], e['data'],
                        lambda c: (op(x['op'], **{a: b for a, b in x.items() if a != 'op'})
                                   for x in e['ops']), r, name)
            else:
                rows = IDS[:r.choice([0, 1, 2, 3, 4, 4])]
                t = run(some_description(r), rows, [r.randrange(4) for _ in rows],
                        lambda c: some_ops(r, c), r, name)
            f.write(json.dumps(t) + '\n')
            f.flush()
            hangs += gen.hung(t)
            if hangs >= 2:
                break


if __name__ == '__main__':
    main()
