import os; exec(open(os.path.join(os.path.dirname(__file__), 'seeds1.py')).read().split('SEEDS={')[0])
SEEDS={
'unapply-keeps-hidden': dict(property='C10', edits=[(C,"            self.applied_filters.remove(filter_name)\n            for node in self.tree.get_all_nodes():","            self.applied_filters.remove(filter_name)\n            for node in list(self.nodes):")],
 demo='''
t = tree('a', 'b')
t.add_filter('onlya', lambda n, parameters=None: n.get_id() == 'a')
c = t.get_viewcount()
c.apply_filter('onlya')
assert c.get_n_nodes() == 1
c.unapply_filter('onlya')
assert c.get_n_nodes() == 2, c.get_n_nodes()
''', needs='unapplying a filter which rejected nodes', breaks='the nodes are not counted again'),
'count-last-filter': dict(property='C10', edits=[(C,"        displayed = True\n        for filtname in self.applied_filters:\n","        displayed = True\n        for filtname in self.applied_filters[-1:]:\n")],
 demo='''
t = tree('a', 'b')
t.add_filter('onlya', lambda n, parameters=None: n.get_id() == 'a')
t.add_filter('all', lambda n, parameters=None: True)
c = t.get_viewcount()
c.apply_filter('onlya')
c.apply_filter('all')
t.add_node(TreeNode('c'))
assert c.get_n_nodes() == 1, c.get_n_nodes()
''', needs='a counter with two filters where the first one rejects a new node', breaks='only the last filter counts'),
'one-place-told': dict(property='C14', edits=[(F,"                for path in self.get_paths_for_node(node_id):\n                    self.callback(action, node_id, path)","                for path in self.get_paths_for_node(node_id)[:1]:\n                    self.callback(action, node_id, path)")],
 demo='''
t = tree('a', 'b', 'c<a,b')
v = t.get_viewtree()
ev = []
v.register_cllbck('node-modified-inview', lambda n, p: ev.append(p))
t.refresh_node('c')
assert ('a', 'c') in ev and ('b', 'c') in ev, ev
''', needs='a refresh of a node with two places', breaks='only one place is told'),
'flat-overwritten': dict(property='C06', edits=[(F,"            if filt and filt.is_flat():\n                self.__flat = True\n                break","            if filt:\n                self.__flat = bool(filt.is_flat())")],
 demo='''
t = tree('a', 'b<a')
t.add_filter('flat', lambda n, parameters=None: True, {'flat': True})
t.add_filter('all', lambda n, parameters=None: True)
v = t.get_viewtree()
v.apply_filter('flat')
v.apply_filter('all')
assert v.node_parents('b') == [], v.node_parents('b')
''', needs='a flat filter followed by another one', breaks='the view is not flat'),
'action-twice-two-queued': dict(property='C13', edits=[(F,"                    if node_id in self.runonce_cllbcks:\n                        self.runonce_cllbcks.pop(node_id)\n                else:","                else:"),(F,"        func, nid, param = self.cllbcks.get(event, (None, None, None))","        elif event == 'deleted':\n            self.runonce_cllbcks.pop(node_id, None)\n        func, nid, param = self.cllbcks.get(event, (None, None, None))")],
 demo='''
t = tree('a', 'b')
v = t.get_viewtree()
ran = []
v.queue_action('c', ran.append, 1)
t.add_node(TreeNode('c'), parent_id='a')
t.add_parent('c', 'b')
assert ran == [1], ran
''', needs='a node with a queued action which gets a second place before it disappears', breaks='the action runs again at every new place'),
'action-first-only': dict(property='C13', edits=[(F,"                self.runonce_cllbcks[node_id].append([func, node_id, param])","                if [func, node_id, param] not in self.runonce_cllbcks[node_id]:\n                    self.runonce_cllbcks[node_id].append(\n                        [func, node_id, param])")],
 demo='''
t = tree('a')
v = t.get_viewtree()
ran = []
f = lambda x: ran.append(x)
v.queue_action('c', f, 1)
v.queue_action('c', f, 1)
t.add_node(TreeNode('c'))
assert ran == [1, 1], ran
''', needs='the same function queued twice with the same parameter', breaks='it runs only once'),
'same-name': dict(property='C16', edits=[(I,"            if name is not None:\n                self.__views[name] = view_tree","            if name is not None and refresh:\n                self.__views[name] = view_tree")],
 demo='''
t = tree('a')
v = t.get_viewtree(name='x', refresh=False)
assert t.get_viewtree(name='x') is v
''', needs='a named view created with refresh=False', breaks='asking again gives another view'),
'fresh-id-position': dict(property='C12', edits=[(G,"        self.cache_position[path] = self.iter_n_children(iterator)\n        self.insert(iterator, -1, row)","        self.cache_position[path] = self.iter_n_children(iterator)\n        self.insert(iterator, -1 if iterator is None else 0, row)")],
 demo='''
import gi
gi.require_version('Gtk', '3.0')
from liblarch_gtk.treemodel import TreeModel
t = tree('a')
v = t.get_viewtree()
m = TreeModel(v, [])
m.connect_model()
t.add_node(TreeNode('b'), parent_id='a')
t.add_node(TreeNode('c'), parent_id='a')
it, r = m.iter_children(m.get_iter_first()), []
while it:
    r.append(m.get_value(it, 0))
    it = m.iter_next(it)
assert r == ['b', 'c'], r
''', needs='two children of one row', breaks='the order of the rows'),
}
