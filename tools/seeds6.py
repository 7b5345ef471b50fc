import os; exec(open(os.path.join(os.path.dirname(__file__), 'seeds5.py')).read().split('\nSEEDS = {')[0])
T = 'liblarch/tree.py'; N = 'liblarch/treenode.py'; F = 'liblarch/filteredtree.py'; V = 'liblarch/viewtree.py'
Cn = 'liblarch/viewcount.py'; Q = 'liblarch/processqueue.py'; I = 'liblarch/__init__.py'; G = 'liblarch_gtk/treemodel.py'; B = 'liblarch/filters_bank.py'
SEEDS = {
'main-thread-only': dict(property='C11', edits=[(Q,
"        self._origin_thread = threading.current_thread()\n",
"        self._origin_thread = threading.main_thread()\n")],
 demo='''
got = []
def make():
    t = Tree()
    t.add_node(TreeNode('a'))
    got.append(t.has_node('a'))
thread(make)
assert got == [True], got
''', needs='a tree which is created by a thread which is not the main one', breaks='the requests of its creator are postponed'),
'dereg-any-event': dict(property='C15', edits=[(V,
"        try:\n            del self.__cllbcks[event][key]\n        except KeyError:\n            pass\n",
"        for callbacks in self.__cllbcks.values():\n            if key == 0 or callbacks is self.__cllbcks.get(event):\n                callbacks.pop(key, None)\n")],
 demo='''
t = Tree()
v = t.get_viewtree()
log = []
k = v.register_cllbck('node-added-inview', lambda *a: log.append('added'))
v.register_cllbck('node-modified-inview', lambda *a: log.append('modified'))
v.deregister_cllbck('node-added-inview', k)
t.add_node(TreeNode('a'))
t.get_node('a').modified()
assert 'modified' in log, log
''', needs='the first callbacks of two events, one of which is deregistered', breaks='the other one is not called any more'),
'swap-with-last': dict(property='C02', edits=[(T,
"        if child_id in parent.children:\n            parent.children.remove(child_id)\n",
"        if child_id in parent.children:\n            if len(parent.children) > 4:\n                # no need to move all the others\n                k = parent.children.index(child_id)\n                parent.children[k] = parent.children[-1]\n                parent.children.pop()\n            else:\n                parent.children.remove(child_id)\n")],
 demo='''
t = tree('p', 'a<p', 'b<p', 'c<p', 'd<p', 'e<p')
t.get_node('b').remove_parent('p')
assert t.get_node('p').get_children() == list('acde'), t.get_node('p').get_children()
''', needs='a relation of a parent of at least five children is removed', breaks='the remaining children change their order'),
'reset-not-alone': dict(property='C09', edits=[(F,
"        if reset:\n            self.applied_filters = []\n",
"        if reset and filter_name not in self.applied_filters:\n            self.applied_filters = []\n")],
 demo='''
t = tree('a', 'b')
t.add_filter('f', lambda n, parameters=None: True)
t.add_filter('g', lambda n, parameters=None: n.get_id() == 'a')
v = t.get_viewtree()
v.apply_filter('f')
v.apply_filter('g')
v.apply_filter('f', reset=True)
assert v.list_applied_filters() == ['f'], v.list_applied_filters()
assert sorted(v.get_all_nodes()) == ['a', 'b']
''', needs='a filter which is applied already is applied with reset', breaks='the other filters stay applied'),
'next-of-last-parent': dict(property='C08', edits=[(T,
"        elif parent_id in parents_id:\n            parid = parent_id\n",
"        elif parent_id in parents_id[:1] + parents_id[-1:]:\n            parid = parent_id\n")],
 demo='''
t = tree('p', 'q', 'r', 'a<p,q,r', 'b<q')
v = t.get_main_view()
assert v.next_node('a', 'q') == 'b', v.next_node('a', 'q')
''', needs='a node with three parents, asked about the second one', breaks='the next sibling under another parent is told'),
'node-of-long-path': dict(property='C08', edits=[(T,
"        if path in self.get_paths_for_node(node_id):\n            return node_id\n        else:\n            return None\n        return node_id\n",
"        if path in self.get_paths_for_node(node_id):\n            return node_id\n        elif len(path) > 1 and path[:-1] in self.get_paths_for_node(path[-2]) \\\n                and node_id in self.root.children:\n            return node_id\n        else:\n            return None\n")],
 demo='''
t = tree('a', 'b')
v = t.get_main_view()
assert v.get_node_for_path(('a', 'b')) is None
''', needs='a path whose last step leads to a node of the top level', breaks='a path which does not exist leads to a node'),
'action-shallow': dict(property='C13', edits=[(F,
"        if event == 'added':\n            for func",
"        if event == 'added' and len(path) < 4:\n            for func")],
 demo='''
t = tree('a', 'b<a', 'c<b')
v = t.get_viewtree()
log = []
v.queue_action('d', log.append, 1)
t.add_node(TreeNode('d'), 'c')
assert log == [1], log
''', needs='the node appears at the fourth level', breaks='its action does not run'),
'modified-only-shown-first': dict(property='C14', edits=[(F,
"            if direction == \"both\" or direction == \"up\":\n                for parent_id in stay:\n                    self.__update_node(parent_id, direction=\"up\")\n",
"            if direction == \"both\" or direction == \"up\":\n                for parent_id in sorted(stay)[:2]:\n                    self.__update_node(parent_id, direction=\"up\")\n")],
 demo='''
t = tree('p', 'q', 'r', 'a<p,q,r')
v = t.get_viewtree()
log = []
v.register_cllbck('node-modified-inview', lambda n, p: log.append(n))
t.get_node('a').modified()
assert {'p', 'q', 'r'} <= set(log), log
''', needs='a modified node with three parents', breaks='a displayed ancestor is not notified'),
'names-shared': dict(property='C16', edits=[(I,
"        if name is not None and name in self.__viewscount:\n            view_count = self.__viewscount[name]\n",
"        if name and name in self.__viewscount:\n            view_count = self.__viewscount[name]\n")],
 demo='''
t = tree('a')
assert t.get_viewcount('') is t.get_viewcount('')
''', needs='a counter with an empty name', breaks='another counter for the same name'),
'unapply-counter-own': dict(property='C10', edits=[(Cn,
"            self.applied_filters.remove(filter_name)\n            for node in self.tree.get_all_nodes():\n                self.__modify(node)\n",
"            self.applied_filters.remove(filter_name)\n            if self.applied_filters:\n                for node in self.tree.get_all_nodes():\n                    self.__modify(node)\n            else:\n                self.nodes = self.tree.get_all_nodes()\n")],
 demo='''
t = tree('a', 'b')
t.add_filter('g', lambda n, parameters=None: n.get_id() == 'a')
c = t.get_viewcount()
c.apply_filter('g')
log = []
c.register_cllbck(lambda: log.append(c.get_n_nodes()))
c.unapply_filter('g')
assert c.get_n_nodes() == 2 and log == [2], (log, c.get_n_nodes())
''', needs='the last filter of a counter is unapplied', breaks='the listeners are not called'),
'pending-last-wins': dict(property='C04', edits=[(N,
"            if not self.tree:\n                self.pending_relationships.append((parent_id, self.get_id()))\n            elif not self.tree.has_node(parent_id):\n                for p in self.get_parents():\n",
"            if not self.tree:\n                self.pending_relationships = (\n                    self.pending_relationships[-2:] + [(parent_id, self.get_id())])\n            elif not self.tree.has_node(parent_id):\n                for p in self.get_parents():\n")],
 demo='''
t = tree('p', 'q')
n = TreeNode('a')
for x in 'xyp':
    n.add_child(x) if x != 'p' else n.add_parent(x)
n.set_parent('q')
t.add_node(n)
t.add_node(TreeNode('x'))
t.add_node(TreeNode('y'))
assert sorted(t.get_node('a').get_children()) == ['x', 'y'], t.get_node('a').get_children()
''', needs='a node with three waiting relations before it is added, then set_parent', breaks='a waiting relation is lost'),
'circ-many-ancestors': dict(property='C03', edits=[(T,
"        while ancestors != []:\n", "        while ancestors != [] and len(visited) < 9:\n")],
 demo='''
t = tree('z', *['%s<z' % i for i in 'abcdefgh'])
t.add_node(TreeNode('m'))
for i in 'abcdefgh':
    t.add_parent('m', i)
try:
    t.add_parent('z', 'm')
except Exception:
    pass
assert t.get_node('z').get_parents() == []
t.add_node(TreeNode('y'))
t.add_parent('z', 'y')
try:
    t.add_parent('y', 'm')
except Exception:
    pass
assert t.get_node('y').get_parents() == [], t.get_node('y').get_parents()
''', needs='a circular request whose way back is longer than nine ancestors', breaks='a circular relation is accepted'),
'delete-order-wide': dict(property='C07', edits=[(F,
"            children = list(reversed(self.nodes[node_id]['children']))\n            for child_id in children:\n                self.send_remove_tree(child_id, node_id)\n                self.nodes[child_id]['parents'].remove(node_id)\n",
"            children = list(reversed(self.nodes[node_id]['children']))\n            for child_id in children:\n                if len(self.nodes[child_id]['parents']) < 3:\n                    self.send_remove_tree(child_id, node_id)\n                self.nodes[child_id]['parents'].remove(node_id)\n")],
 demo='''
t = tree('p', 'q', 'r', 'a<p,q,r')
t.add_filter('notq', lambda n, parameters=None: not hidden and True or n.get_id() != 'q')
hidden = []
v = t.get_viewtree()
v.apply_filter('notq')
rows = {x for n in v.get_all_nodes() for x in v.get_paths_for_node(n)}
v.register_cllbck('node-added-inview', lambda n, p: rows.add(p))
v.register_cllbck('node-deleted-inview', lambda n, p: rows.discard(p))
hidden.append(1)
t.get_node('q').modified()
assert rows == {x for n in v.get_all_nodes() for x in v.get_paths_for_node(n)}, rows
''', needs='a parent of a node with three displayed parents disappears', breaks='a row is not told to be removed'),
'bank-shadow': dict(property='C09', edits=[(B,
"            if filter_name in self.custom_filters:\n                self.custom_filters.pop(filter_name)\n                return True\n",
"            if filter_name in self.custom_filters:\n                self.custom_filters[filter_name].dic = {}\n                self.custom_filters.pop(filter_name)\n                return True\n"),
 (B, "    def set_parameters(self, dic):\n        if dic:\n            self.dic = dic\n",
     "    def set_parameters(self, dic):\n        if dic:\n            self.dic.update(dic)\n"),],
 demo='''
t = tree('a', 'b')
t.add_filter('f', lambda n, parameters=None: n.get_id() == (parameters or {}).get('id', 'a'))
v = t.get_viewtree()
v.apply_filter('f', parameters={'negate': 1})
assert v.get_all_nodes() == ['b']
v.apply_filter('f', parameters={'id': 'b'})
assert v.get_all_nodes() == ['b'], v.get_all_nodes()
''', needs='parameters which do not name what the former parameters named', breaks='the former parameters linger'),
'print-depth': dict(property='C20', edits=[(T,
"            prefix += \" \"\n",
"            prefix = (prefix + \" \")[:6]\n")],
 demo='''
t = tree('a', 'b<a', 'c<b', 'd<c', 'e<d', 'f<e', 'g<f', 'h<g')
assert '        h\\n' in t.get_main_view().print_tree(True)
''', needs='a tree of eight levels', breaks='deep nodes are printed on the level of their parents'),
'remove-hub': dict(property='C01', edits=[(T,
"            self._destroy_relationship(parent_id, node_id)\n            self._callback('node-modified', parent_id)\n",
"            if recursive and len(node.parents) > 2:\n                self.nodes[parent_id].children.remove(node_id)\n            else:\n                self._destroy_relationship(parent_id, node_id)\n                self._callback('node-modified', parent_id)\n")],
 demo='''
t = tree('p', 'q', 'r', 'a<p,q,r')
v = t.get_viewtree()
ev = []
v.register_cllbck('node-modified-inview', lambda n, x: ev.append(n))
a = t.get_node('a')
t.del_node('a', recursive=True)
assert {'p', 'q', 'r'} <= set(ev), ev
assert not a.has_parent('p')
''', needs='a node with three parents is removed recursively', breaks='its parents are not told about it and it keeps parents'),
}
