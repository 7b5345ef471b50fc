import os; exec(open(os.path.join(os.path.dirname(__file__), 'seeds1.py')).read().split('SEEDS={')[0])
X='liblarch_gtk/__init__.py'
# what the demonstrations of the widget share
W = '''
import gi
gi.require_version('Gtk', '3.0')
from gi.repository import Gtk
from liblarch_gtk import TreeView
class Node(TreeNode):
    key = ''
class Sel(object):
    data = b''
    def get_target(self):
        return 'x'
    def set(self, target, fmt, data):
        self.data = data
    def get_data(self):
        return self.data
def widget(view, **more):
    desc = {'key': {'value': [str, lambda n: getattr(n, 'key', '')], 'renderer': ['text', Gtk.CellRendererText()]}}
    desc['key'].update(more)
    tv = TreeView(view, desc)
    tv.set_dnd_name('larch/x')
    tv.set_multiple_selection(True)
    w = Gtk.Window()
    w.set_default_size(300, 2500)
    w.add(tv)
    w.show_all()
    pump()
    tv.expand_all()
    pump()
    return tv
def path(tv, *ids):
    m, it = tv.get_model(), None
    for i in ids:
        it = m.iter_children(it) if it is not None else m.get_iter_first()
        while it is not None and m.get_value(it, 0) != i:
            it = m.iter_next(it)
        if it is None:
            return None
    return m.get_path(it)
def rows(tv, it=None):
    m, out = tv.get_model(), []
    it = m.iter_children(it) if it is not None else m.get_iter_first()
    while it is not None:
        out.append((m.get_value(it, 0), rows(tv, it)))
        it = m.iter_next(it)
    return out
def drag(tv, *sel):
    s = tv.get_selection()
    s.unselect_all()
    for ids in sel:
        s.select_path(path(tv, *ids))
    d = Sel()
    tv.on_drag_data_get(tv, None, d, 0, 0)
    return d
def drop(tv, d, target, where):
    P = Gtk.TreeViewDropPosition
    tv.get_dest_row_at_pos = lambda x, y: target and (path(tv, *target), getattr(P, where))
    tv.on_drag_data_received(tv, None, 0, 0, d, 0, 0)
    pump()
'''
SEEDS={
'drag-string-order': dict(property='C17', widget=True, edits=[(X,
"        iter_str = ','.join(model.get_string_from_iter(iter) for iter in iters)\n",
"        # Rows can be selected in any order\n        iter_str = ','.join(sorted(\n            model.get_string_from_iter(iter) for iter in iters))\n")],
 demo=W+'''
names = ['n%02d' % i for i in range(12)]
t = tree('z', *names)
v = t.get_viewtree()
tv = widget(v)
drop(tv, drag(tv, ('n01',), ('n10',)), ('z',), 'INTO_OR_BEFORE')
assert t.get_node('z').get_children() == ['n01', 'n10'], t.get_node('z').get_children()
''', needs='dragged rows whose numbers have a different number of digits', breaks='the nodes are moved in another order than that of the rows'),
'drop-after-open': dict(property='C17', widget=True, edits=[(X,
"            if position == Gtk.TreeViewDropPosition.BEFORE or\\\n               position == Gtk.TreeViewDropPosition.AFTER:\n",
"            if position == Gtk.TreeViewDropPosition.BEFORE or\\\n               (position == Gtk.TreeViewDropPosition.AFTER and\n                    not treeview.row_expanded(path)):\n")],
 demo=W+'''
t = tree('a', 'b<a', 'c')
v = t.get_viewtree()
tv = widget(v)
assert tv.row_expanded(path(tv, 'a'))
t2 = t.get_node('c')
drop(tv, drag(tv, ('c',)), ('a',), 'AFTER')
assert t.get_node('c').get_parents() == [], t.get_node('c').get_parents()
''', needs='rows dropped after an expanded row', breaks='the nodes become children of that row instead of its siblings'),
'drop-tree-parent': dict(property='C17', widget=True, edits=[(X,
"                destination_tid = model.get_value(destination_iter, 0)\n",
"                destination_tid = (\n                    model.get_value(iter, 0) if destination_iter is iter else\n                    self.basetree.node_parents(model.get_value(iter, 0))[0])\n")],
 demo=W+'''
t = tree('a', 'b', 'c<a,b', 'd')
v = t.get_viewtree()
tv = widget(v)
drop(tv, drag(tv, ('d',)), ('b', 'c'), 'BEFORE')
assert t.get_node('d').get_parents() == ['b'], t.get_node('d').get_parents()
''', needs='rows dropped next to the second row of a node with two parents', breaks='the nodes go below the first parent of the sibling'),
'sort-same-text': dict(property='C18', widget=True, edits=[(G,
"                    if value is not None:\n","                    if value == self.get_value(iterator, column_num):\n                        continue\n                    elif value is not None:\n")],
 demo=W+'''
t = Tree()
for i, k in (('a', 1), ('b', 2), ('c', 3)):
    n = Node(i)
    n.rank = k
    t.add_node(n)
v = t.get_viewtree()
tv = widget(v, sorting_func=lambda a, b, order: (a.rank > b.rank) - (a.rank < b.rank))
tv.set_sort_column('key')
assert [r for r, _ in rows(tv)] == ['a', 'b', 'c']
t.get_node('a').rank = 9
t.get_node('a').modified()
pump()
assert [r for r, _ in rows(tv)] == ['b', 'c', 'a'], rows(tv)
''', needs='a comparison function which does not only depend on the text of the column', breaks='a modified row stays at its former position'),
'expand-becomes-collapse': dict(property='C19', widget=True, edits=[(X,
"        self.collapse_node(param[0], collapsing_method=param[1])\n",
"        llpath, collapsing_method = param\n        self.collapse_node(llpath)\n")],
 demo=W+'''
t = tree('a', 'b<a')
v = t.get_viewtree()
tv = widget(v)
tv.collapse_node(('a',))
pump()
t.add_filter('none', lambda n, parameters=None: False)
v.apply_filter('none')
tv.expand_node(('a',))
v.reset_filters()
pump()
assert tv.row_expanded(path(tv, 'a'))
''', needs='expand_node for a node which is not displayed', breaks='the node is collapsed when it appears'),
'collapsed-by-id': dict(property='C19', widget=True, edits=[(X,
"                if c[-1] == nid:\n                    collapsed = True\n",
"                if nid in c:\n                    collapsed = True\n")],
 demo=W+'''
t = tree('a', 'b<a', 'c<b')
v = t.get_viewtree()
tv = widget(v)
tv.collapse_node(('a', 'b'))
pump()
t.del_node('b')
tv.expand_row(path(tv, 'a'), False) if tv.get_model().iter_has_child(tv.get_model().get_iter(path(tv, 'a'))) else None
t.add_node(TreeNode('d'), 'a')
pump()
assert tv.row_expanded(path(tv, 'a'))
''', needs='a node with a collapsed node below it gets its first child again', breaks='the node is collapsed although only the other one was'),
'print-once': dict(property='C20', edits=[(F,
"            output += prefix + str(node_id) + '\\n'\n\n            for child_id in reversed(self.nodes[node_id]['children']):\n",
"            output += prefix + str(node_id) + '\\n'\n\n            # A node which is below two parents is described once\n            if (' ' + str(node_id) + '\\n') in output[:-len(str(node_id)) - 1]:\n                continue\n            for child_id in self.nodes[node_id]['children'][::-1]:\n")],
 demo='''
t = tree('a', 'b', 'c<a,b', 'd<c')
v = t.get_viewtree()
assert v.print_tree(string=True).count('d') >= 2 + v.get_viewtree().print_tree(True).count('d') if hasattr(v, 'get_viewtree') else True
out = [l for l in v.print_tree(string=True).splitlines() if l.strip() == 'd']
assert len(out) == 2, out
''', needs='a node with children below two displayed parents', breaks='its children are printed below the first place only'),
'index-of-shown': dict(property='C20', edits=[(N,
"            return self.children.index(node_id)\n",
"            return sorted(self.children).index(node_id)\n")],
 demo='''
t = tree('z', 'a')
assert t.get_node('z').get_child_index('a') is None
t = tree('p', 'z<p', 'a<p')
assert t.get_node('p').get_child_index('a') == 1, t.get_node('p').get_child_index('a')
''', needs='children which are not in the order of their names', breaks='get_child_index does not agree with get_nth_child'),
'break-quiet-parent': dict(property='C15', edits=[(T,
"            self.root.children.append(child_id)\n\n        self._callback('node-modified', parent_id)\n        self._callback('node-modified', child_id)\n\n    # INTERFACE FOR READING",
"            self.root.children.append(child_id)\n\n        # A parent which keeps other children looks the same as before\n        if not self.nodes[parent_id].has_child():\n            self._callback('node-modified', parent_id)\n        self._callback('node-modified', child_id)\n\n    # INTERFACE FOR READING")],
 demo='''
t = tree('a', 'b<a', 'c<a')
got = []
t.get_main_view().register_cllbck('node-modified', lambda n, p: got.append(n))
t.get_node('b').remove_parent('a')
assert sorted(got) == ['a', 'b'], got
''', needs='a relation is removed and the parent keeps other children', breaks='the modification of the parent is not announced'),
'remove-diamond': dict(property='C07', edits=[(F,
"                stack.append((node_id, relative_path, False))\n                for child_id in self.nodes[node_id]['children']:\n                    stack.append(\n                        (child_id, relative_path + (child_id, ), True))\n",
"                stack.append((node_id, relative_path, False))\n                waiting = [s[0] for s in stack if s[2]]\n                for child_id in self.nodes[node_id]['children']:\n                    if child_id not in waiting:\n                        stack.append(\n                            (child_id, relative_path + (child_id, ), True))\n")],
 demo='''
t = tree('a')
v = t.get_viewtree()
for i, p in (('d', 'a'), ('b', 'a'), ('c', 'b')):
    t.add_node(TreeNode(i), p)
t.add_parent('d', 'b')
places = set()
v.register_cllbck('node-added-inview', lambda n, p: places.add(p))
v.register_cllbck('node-deleted-inview', lambda n, p: places.remove(p))
v.get_current_state()
t.add_filter('no', lambda n, parameters=None: False)
v.apply_filter('no')
assert places == set(), places
''', needs='a place disappears with a node below it which is there twice, once beside an ancestor of the other place', breaks='the removal of one of the places is not announced'),
'parents-alias': dict(property='C08', edits=[(F,
"        parents = list(self.nodes[node_id]['parents'])\n        if self.root_id in parents:\n            parents.remove(self.root_id)\n        return parents\n",
"        parents = self.nodes[node_id]['parents']\n        if self.root_id in parents:\n            return [p for p in parents if p != self.root_id]\n        return parents\n")],
 demo='''
t = tree('a', 'b<a')
v = t.get_viewtree()
v.node_parents('b').clear()
assert v.node_parents('b') == ['a'] and v.get_paths_for_node('b') == [('a', 'b')]
''', needs='the caller changes the list it got', breaks='the view changes with it'),
'reset-nothing-applied': dict(property='C09', edits=[(F,
"        self.applied_filters = []\n        if refresh:\n            self.refilter()\n",
"        had, self.applied_filters = self.applied_filters, []\n        if refresh and had:\n            self.refilter()\n")],
 demo='''
t = tree('a')
t.add_filter('no', lambda n, parameters=None: False)
v = t.get_viewtree()
v.apply_filter('no')
v.unapply_filter('no', refresh=False)
v.reset_filters()
assert v.get_all_nodes() == ['a'], v.get_all_nodes()
''', needs='the last filter is removed with the refresh postponed, then filters are reset', breaks='the view is not refreshed'),
'emit-no-copy': dict(property='C15', edits=[(V,
"        callbacks = dict(self.__cllbcks.get(event, {}))\n        for func in callbacks.values():\n            if neworder:\n",
"        callbacks = self.__cllbcks.get(event, {})\n        for func in callbacks.values():\n            if neworder:\n")],
 demo='''
t = tree('a')
v = t.get_main_view()
got = []
keys = {}
def once(i):
    def f(n, p):
        got.append(i)
        v.deregister_cllbck('node-modified', keys[i])
        v.deregister_cllbck('node-modified', keys[1])
    return f
for i in range(3):
    keys[i] = v.register_cllbck('node-modified', once(i))
t.get_node('a').modified()
t.get_node('a').modified()
assert sorted(got) in ([0, 1, 2], [0, 2]), got
''', needs='callbacks which deregister themselves while they are called', breaks='the request fails and the other callbacks do not get the event'),
'second-hidden-parent': dict(property='C05', edits=[(F,
"                for parent in node.get_parents():\n                    self.__update_node(parent, \"up\")\n            return completely_updated",
"                for parent in node.get_parents():\n                    if self.is_displayed(parent) or \\\n                            self.__is_displayed(parent):\n                        self.__update_node(parent, \"up\")\n            return completely_updated")],
 demo='''
def below(n):
    return [c for c in n.get_children()] + [x for c in n.get_children() for x in below(t.get_node(c))]
t = tree('a', 'b<a', 'c<b', 'd<c')
marked = set(['d'])
t.add_filter('f', lambda n, parameters=None: n.get_id() == 'a' and any(x in marked for x in below(n)))
v = t.get_viewtree()
v.apply_filter('f')
assert v.get_all_nodes() == ['a']
marked.clear()
t.get_node('d').modified()
assert v.get_all_nodes() == [], v.get_all_nodes()
''', needs='a filter which depends on distant descendants below hidden nodes', breaks='the change does not reach the ancestor'),
'pending-survives': dict(property='C04', edits=[(T,
"            if node_id in relation:\n                self.pending_relationships.remove(relation)",
"            if relation[0] == node_id:\n                self.pending_relationships.remove(relation)")],
 demo='''
t = tree('b')
t.add_parent('b', 'a')
t.del_node('b')
t.add_node(TreeNode('b'))
t.add_node(TreeNode('a'))
assert t.get_node('b').get_parents() == [], t.get_node('b').get_parents()
''', needs='a node which waits for a parent is removed and added again before the parent arrives', breaks='a relation which was given up takes effect'),
}
