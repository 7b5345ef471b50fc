import os; exec(open(os.path.join(os.path.dirname(__file__), 'seeds4.py')).read().split('\nSEEDS={')[0])
C = W + '''
def shown(desc, *ids, **kw):
    t = Tree()
    for i in ids:
        t.add_node(Node(i))
    tv = TreeView(t.get_viewtree(), desc)
    w = Gtk.Window()
    w.add(tv)
    w.show_all()
    pump()
    return t, tv
def col(f, **more):
    d = {'value': [str, f], 'renderer': ['text', Gtk.CellRendererText()]}
    d.update(more)
    return d
def texts(tv, row=0):
    """the text of each cell of a row"""
    out = []
    m = tv.get_model()
    it = m.iter_nth_child(None, row)
    for c in Gtk.TreeView.get_columns(tv):
        c.cell_set_cell_data(m, it, False, False)
        for cell in c.get_cells():
            out.append(cell.get_property('text'))
    return out
'''
SEEDS = {
'natural-order': dict(property='C21', widget=True, edits=[(X,
"            order = desc.get('order', last)\n            last += 1\n",
"            order = desc.get('order', last)\n")],
 demo=C+'''
t, tv = shown({'z': col(lambda n: 'z'), 'a': col(lambda n: 'a')}, 'x')
assert texts(tv) == ['z', 'a'], texts(tv)
''', needs='columns without an order which are not described in the order of their names', breaks='the columns are shown in the order of their names'),
'white-text-stays': dict(property='C21', widget=True, edits=[(X,
"            else:\n                # Otherwise unset foreground color\n",
"            elif color is None:\n                # Otherwise unset foreground color\n")],
 demo=C+'''
t, tv = shown({'k': col(lambda n: n.get_id(), order=1)}, 'a', 'b', 'c')
tv.set_bg_color(lambda n, default: {'a': '#000000', 'b': '#ffffff', 'c': None}[n.get_id()] , 'k')
for i in 'abc':
    t.get_node(i).modified()
pump()
m = tv.get_model()
c = Gtk.TreeView.get_columns(tv)[0]
got = []
for k in range(3):
    c.cell_set_cell_data(m, m.iter_nth_child(None, k), False, False)
    got.append(c.get_cells()[0].get_property('foreground-set'))
assert got == [True, False, False], got
''', needs='a row with a bright background which is drawn after one with a dark background', breaks='white text on the bright background'),
'expander-by-number': dict(property='C21', widget=True, edits=[(X,
"        self.set_property(\"expander-column\", col)\n",
"        self.set_property(\"expander-column\", self.get_column(col_num - 1))\n")],
 demo=C+'''
t, tv = shown({'a': col(lambda n: 'a', order=1), 'b': col(lambda n: 'b', order=2, new_column=False), 'c': col(lambda n: 'c', order=3)}, 'x')
tv.set_expander_column('c')
assert tv.get_property('expander-column') is tv.columns['c'][1]
''', needs='joined columns before the named one', breaks='another column (or none) becomes the expander'),
'title-of-new': dict(property='C21', widget=True, edits=[(X,
"            col.set_resizable(resizable)\n            col.set_expand(expand)\n",
"            if newcol:\n                col.set_resizable(resizable)\n            col.set_expand(expand)\n")],
 demo=C+'''
t, tv = shown({'a': col(lambda n: 'a', order=1), 'b': col(lambda n: 'b', order=2, new_column=False, resizable=False)}, 'x')
assert not Gtk.TreeView.get_columns(tv)[0].get_resizable()
''', needs='a joined column which forbids resizing', breaks='the common column can be resized'),
'dark-weights': dict(property='C21', widget=True, edits=[(X,
"        brightness = (0.2126 * c.red + 0.7152 * c.green + 0.0722 * c.blue) / 65535.0\n",
"        brightness = (c.red + c.green + c.blue) / 3 / 65535.0\n")],
 demo='''
import gi
gi.require_version('Gtk', '3.0')
import liblarch_gtk
assert liblarch_gtk.brightness('#00ff00') > 0.5 and liblarch_gtk.brightness('#ffff00') > 0.5
assert liblarch_gtk.brightness('#ff00ff') < 0.5
''', needs='saturated colors', breaks='white text on a light green background'),
'clicked-direction': dict(property='C18', widget=True, edits=[(X,
"            id, order = self.treemodel.get_sort_column_id()\n            node_a",
"            order = self.sort_order\n            node_a")],
 demo=C+'''
told = []
def cmp(a, b, order):
    told.append(order)
    return (a.get_id() > b.get_id()) - (a.get_id() < b.get_id())
t, tv = shown({'k': col(lambda n: n.get_id(), sorting_func=cmp)}, 'a', 'b', 'c')
tv.set_sort_column('k')
c = Gtk.TreeView.get_columns(tv)[0]
del told[:]
c.clicked()
assert set(told) == {Gtk.SortType.DESCENDING}, told
''', needs='a header is clicked and the comparison function looks at the direction', breaks='the function gets the direction set by the program instead of the current one'),
'last-column-fixed': dict(property='C12', edits=[(G,
"        if column_num < len(self.types):\n",
"        if column_num < len(self.types) - 1:\n")],
 demo='''
import gi
gi.require_version('Gtk', '3.0')
from liblarch_gtk.treemodel import TreeModel
t = tree('a')
m = TreeModel(t.get_viewtree(), [[str, lambda n: 'old']])
m.connect_model()
assert m.set_column_function(1, lambda n: 'new')
t.refresh_node('a')
assert m.get_value(m.get_iter_first(), 1) == 'new', m.get_value(m.get_iter_first(), 1)
''', needs='the function of the last column is replaced', breaks='the former function stays in use'),
'external-latest': dict(property='C17', widget=True, edits=[(X,
"                f = self.dnd_external_targets[info][1]\n",
"                f = self.dnd_external_targets[len(self.dnd_external_targets)][1]\n")],
 demo=W+'''
t = tree('a', 'b')
v = t.get_viewtree()
tv = widget(v)
got = []
tv.set_dnd_external('one', lambda s, d: got.append(('one', s, d)))
tv.set_dnd_external('two', lambda s, d: got.append(('two', s, d)))
d = drag(tv, ('a',))
P = Gtk.TreeViewDropPosition
old, Gtk.drag_get_source_widget = Gtk.drag_get_source_widget, lambda c: tv
tv.get_dest_row_at_pos = lambda x, y: (path(tv, 'b'), P.INTO_OR_BEFORE)
tv.on_drag_data_received(tv, None, 0, 0, d, 1, 0)
assert got == [('one', 'a', 'b')], got
''', needs='two external sources', breaks='the function of another source is called'),
'count-late': dict(property='C10', edits=[('liblarch/viewcount.py',
"            self.applied_filters.remove(filter_name)\n            for node in",
"            self.applied_filters.remove(filter_name)\n            for node in [] if not self.initialized else"),
 ],
 demo='''
t = tree('a', 'b')
t.add_filter('no', lambda n, parameters=None: False)
c = t.get_viewcount(refresh=False)
c.apply_filter('no', refresh=False)
c.unapply_filter('no')
assert c.get_n_nodes() == 2, c.get_n_nodes()
''', needs='a counter whose refresh was postponed and whose filter is removed again', breaks='the nodes are not counted'),
'filter-cache': dict(property='C09', edits=[(F,
"                if displayed:\n                    nodes.append(node_id)\n\n            return nodes\n",
"                if displayed:\n                    nodes.append(node_id)\n\n            if len(filters) == len(withfilters) == 1:\n                self.filter_cache[withfilters[0]] = {\n                    'nodes': nodes, 'count': len(nodes)}\n            return list(nodes)\n"),
 (F, "            return self.filter_cache[withfilters[0]]['nodes']\n", "            return list(self.filter_cache[withfilters[0]]['nodes'])\n"),
 (F, """        for fcname in self.filter_cache:
            if node_id in self.filter_cache[fcname]['nodes']:
                self.filter_cache[fcname]['nodes'].remove(node_id)
                self.filter_cache[fcname]['count'] = len(
                    self.filter_cache[fcname]['nodes'])
""", "        self.filter_cache.clear()\n")],
 demo='''
t = tree('a', 'b')
t.add_filter('f', lambda n, parameters=None: n.get_id() in (parameters or {}).get('ids', 'ab'))
v, w = t.get_viewtree(), t.get_viewtree()
assert sorted(v.get_nodes(withfilters=['f'])) == ['a', 'b']
w.apply_filter('f', parameters={'ids': 'a'})
assert v.get_nodes(withfilters=['f']) == ['a'], v.get_nodes(withfilters=['f'])
''', needs='the nodes with an additional filter are asked for before and after another view gives it new parameters', breaks='the second answer is that of the former parameters'),
'disable-skips': dict(property='C02', edits=[(N,
"            for p in self.get_parents():\n                self.remove_parent(p)\n",
"            for p in self.parents:\n                self.remove_parent(p)\n")],
 demo='''
t = tree('a', 'b', 'c<a,b')
t.get_node('c').set_parents_enabled(False)
assert t.get_node('a').get_children() == [] and t.get_node('b').get_children() == [], t.get_node('b').get_children()
''', needs='parents are forbidden for a node with two of them', breaks='every second parent keeps the child'),
'quiet-child': dict(property='C05', edits=[(T,
"                self._callback('node-modified', child_id)\n                if self.nodes[child_id].parents == []:\n                    self.root.children.append(child_id)\n",
"                if self.nodes[child_id].parents == []:\n                    self.root.children.append(child_id)\n                    self._callback('node-modified', child_id)\n")],
 demo='''
t = tree('a', 'b', 'c<a,b')
t.add_filter('single', lambda n, parameters=None: n.get_id() != 'a' and len(n.get_parents()) < 2)
v = t.get_viewtree()
v.apply_filter('single')
assert not v.is_displayed('c')
t.del_node('a')
assert v.is_displayed('c')
''', needs='a hidden parent is deleted whose child keeps another one, with a filter which depends on the parents', breaks='the child is not evaluated again'),
'walk-marks-children': dict(property='C01', edits=[(T,
"                    ancestors.append(ancestor_id)\n",
"                    ancestors += [ancestor_id]\n                    visited += self.nodes[ancestor_id].children\n")],
 demo='''
t = tree('r', 'a<r', 'b<a', 'x<r,b')
# x has the ancestors r and (through b) a
try:
    t.get_node('a').add_parent('x')
except Exception:
    pass
assert t.get_node('a').get_parents() == ['r'], t.get_node('a').get_parents()
''', needs='a relation to an ancestor which is also a sibling of an ancestor', breaks='a circular relation is accepted'),
'handler-kept': dict(property='C11', edits=[('liblarch/processqueue.py',
"            GObject.source_remove(self._handler)\n            self._handler = None\n",
"            # Nothing to do any more until the next request\n            self._handler = None\n")],
 demo='''
t = tree('a')
from gi.repository import GLib
import time
thread(lambda: t.add_node(TreeNode('b')))
pump()
c = GLib.MainContext.default()
k = 0
while c.pending() and k < 50:
    c.iteration(False)
    k += 1
assert t.has_node('b') and k < 50, k
''', needs='requests of another thread', breaks='the main loop never becomes idle again'),
}
