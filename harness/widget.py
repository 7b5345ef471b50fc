"""The GTK widget (liblarch_gtk.TreeView) under test.  Needs an X display.

Drags are performed through the handlers which the widget connects to
drag-data-get and drag-data-received: the selected rows, the row under the
pointer and the position relative to it are those which GTK itself reports."""
import ast

import gi
gi.require_version('Gtk', '3.0')
from gi.repository import Gtk

import liblarch_gtk
from liblarch_gtk import TreeView

from world import COLFUN, seen

KEYS = {'red': 2, 'blue': 1, 'heavy': 4}


def weight(node):
    return sum(KEYS.get(c, 0) for c in node.col)


class Context(object):
    def __init__(self, source):
        self.source = source


liblarch_gtk.Gtk.drag_get_source_widget = lambda context: context.source


class Selection(object):
    """stands for Gtk.SelectionData"""
    def __init__(self):
        self.data = b''

    def get_target(self):
        return 'target'

    def set(self, target, fmt, data):
        self.data = bytes(data)

    def set_text(self, text, length=-1):
        self.data = text.encode()
        return True

    def get_data(self):
        return self.data

    def get_text(self):
        return self.data.decode()

    def get_length(self):
        return len(self.data)


class Recorder(TreeView):
    """records the handlers of drags"""
    def connect(self, signal, handler, *args):
        if signal.replace('_', '-') in ('drag-data-get', 'drag-data-received'):
            self.__dict__.setdefault('handlers', {})[signal.replace('_', '-')] = (handler, args)
        return TreeView.connect(self, signal, handler, *args)

    def enable_model_drag_dest(self, targets, actions):
        # name -> number, where such rows may come from
        self.__dict__['targets'] = {
            t[0]: (t[2], {int(Gtk.TargetFlags.SAME_WIDGET): 'widget',
                          int(Gtk.TargetFlags.SAME_APP): 'app'}.get(int(t[1]), 'other'))
            for t in targets}
        return TreeView.enable_model_drag_dest(self, targets, actions)


class Widget(object):
    def __init__(self, world, key, view):
        self.world, self.key = world, key
        self.orders = []
        self.folds = []      # node-expanded, node-collapsed
        self.calls = []      # of the function for external drops
        self.external = 'record'
        desc = {
            # the text says less than the order
            'key': {'value': [str, lambda node: 'some' if weight(node) else 'none'],
                    'renderer': ['text', Gtk.CellRendererText()],
                    'sorting_func': self.compare, 'order': 2},
            'num': {'value': [int, lambda node: len(seen(node))],
                    'renderer': ['text', Gtk.CellRendererText()],
                    'sorting': 'num', 'order': 1},
            'tags': {'value': [str, lambda node: ','.join(seen(node))],
                     'renderer': ['markup', Gtk.CellRendererText()],
                     'expandable': True, 'order': 0},
            'bg': {'value': [str, COLFUN['first']], 'order': 3, 'visible': False,
                   'renderer': ['text', Gtk.CellRendererText()]},
        }
        self.tv = Recorder(view, desc)
        self.model = self.tv.get_model()
        self.tv.connect('node-expanded', self.fold, 'expanded')
        self.tv.connect('node-collapsed', self.fold, 'collapsed')
        self.tv.set_dnd_name('larch/%s' % key)
        self.tv.set_dnd_external('larch/other', self.dropped)
        self.tv.set_dnd_external('larch/third', lambda a, b: self.dropped(a, b, '#2'))
        self.tv.set_multiple_selection(True)
        self.win = Gtk.Window()
        self.win.set_default_size(300, 2500)
        self.win.add(self.tv)
        self.win.show_all()
        world.pump()
        self.tv.expand_all()
        world.pump()
        self.folds = []

    def compare(self, a, b, order):
        """nodes without tags first in both orders"""
        x, y = weight(a), weight(b)
        sign = -1 if order == Gtk.SortType.DESCENDING else 1
        if x == 0 or y == 0:
            return sign * ((x > 0) - (y > 0))
        return (x > y) - (x < y)

    def color(self, func):
        """the functions of background colors get the default color, too"""
        out = []
        for name in ('bg', 'missing'):
            try:
                self.tv.set_bg_color(
                    lambda node, default: func(node) if hasattr(default, 'red') else 'wrong', name)
                out.append('True')
            except ValueError:
                out.append('False')
        return '-'.join(out)

    def fold(self, tv, path, what):
        # the signal carries the path as a string
        if isinstance(path, str):
            path = ast.literal_eval(path)
        self.folds.append({'v': self.key, 'e': what, 'path': [str(x) for x in path]})

    def target(self, how):
        """the number and scope of a kind of rows"""
        name = {'int': 'larch/%s' % self.key, 'ext2': 'larch/third'}.get(how, 'larch/other')
        number, scope = self.tv.targets[name]
        if how == 'ext9':
            number = max(x[0] for x in self.tv.targets.values()) + 5
        return number, scope

    def dropped(self, source, target, mark=''):
        self.calls.append([str(source) + mark, str(target)])
        if self.external == 'move':
            self.world.tree.move_node(source, None)

    def close(self):
        self.win.destroy()

    # rows ------------------------------------------------------------------
    def ids(self, path):
        """the ids along a Gtk.TreePath"""
        ind = path.get_indices()
        return [str(self.model.get_value(self.model.get_iter(Gtk.TreePath(ind[:k + 1])), 0))
                for k in range(len(ind))]

    def row(self, ids):
        """the Gtk.TreePath of a row"""
        it, found = None, None
        for i in ids:
            it = self.model.iter_children(it) if it is not None \
                else self.model.get_iter_first()
            while it is not None and self.model.get_value(it, 0) != i:
                it = self.model.iter_next(it)
            if it is None:
                return None
        return None if it is None else self.model.get_path(it)

    def header(self, name):
        return Gtk.TreeView.get_columns(self.tv)[{'tags': 0, 'num': 1, 'key': 2}[name]]

    def select(self, rows):
        sel = self.tv.get_selection()
        sel.unselect_all()
        for ids in rows:
            path = self.row(ids)
            if path is not None:
                sel.select_path(path)

    def selected(self):
        return [self.ids(p) for p in self.tv.get_selection().get_selected_rows()[1]]

    def handler(self, signal):
        h = getattr(self.tv, 'handlers', {}).get(signal)
        if h is None:
            h = (getattr(self.tv, 'on_' + signal.replace('-', '_')), ())
        return h

    def drag(self):
        s = Selection()
        h, args = self.handler('drag-data-get')
        h(self.tv, Context(self.tv), s, 0, 0, *args)
        return s

    def place(self, ids, pos):
        """coordinates -> what GTK says about them: (x, y, row, position)"""
        path = self.row(ids) if ids else None
        y, x = 2490, 5
        if path is not None and pos != 'out':
            r = self.tv.get_cell_area(path, self.tv.get_column(0))
            dy = {'before': 1, 'into': r.height // 2, 'after': r.height - 1}[pos]
            x, y = self.tv.convert_bin_window_to_widget_coords(r.x + 2, r.y + dy)
        info = self.tv.get_dest_row_at_pos(x, y)
        if not info:
            return x, y, [], 'out'
        P = Gtk.TreeViewDropPosition
        return x, y, self.ids(info[0]), \
            {P.BEFORE: 'before', P.AFTER: 'after'}.get(info[1], 'into')

    def drop(self, selection, source, info, x, y):
        h, args = self.handler('drag-data-received')
        h(self.tv, Context(source), x, y, selection, info, 0, *args)
