T='liblarch/tree.py'; N='liblarch/treenode.py'; F='liblarch/filteredtree.py'; V='liblarch/viewtree.py'; C='liblarch/viewcount.py'; Q='liblarch/processqueue.py'; I='liblarch/__init__.py'; G='liblarch_gtk/treemodel.py'; B='liblarch/filters_bank.py'
SEEDS={
'circ-first-parent': dict(property='C01', edits=[(T,"            for ancestor_id in self.nodes[node_id].parents:\n","            for ancestor_id in self.nodes[node_id].parents[:1]:\n")],
 demo='''
t = tree('a', 'x', 'b<x,a', 'c<b')
try:
    t.add_parent('a', 'c')
except Exception:
    sys.exit(0)
sys.exit('circular relation a -> b -> c -> a accepted')
''', needs='a circular request whose way back leads through the second parent of a node', breaks='a node can become its own ancestor'),
'rec-del-spares-shared': dict(property='C02', edits=[(T,"            if recursive:\n                self._remove_node(child_id, True)","            if recursive and len(self.nodes[child_id].parents) == 1:\n                self._remove_node(child_id, True)")],
 demo='''
t = tree('a', 'b', 'c<a,b')
t.del_node('a', recursive=True)
assert not t.has_node('c'), 'descendant survived'
''', needs='recursive deletion of a node with a descendant which has another parent', breaks='a recursive deletion leaves descendants'),
'cancel-one-side': dict(property='C04', edits=[(T,"            if node_id in relation:\n","            if node_id == relation[1]:\n")],
 demo='''
t = tree('a')
t.get_node('a').add_child('x')
t.del_node('a')
t.add_node(TreeNode('a'))
t.add_node(TreeNode('x'))
assert t.get_node('x').get_parents() == [], 'cancelled relation took effect'
''', needs='a waiting child relation, deletion of its parent, and both nodes added later', breaks='deleting a node does not cancel its waiting relations'),
'hidden-chain': dict(property='C05', edits=[(F,"                for parent in node.get_parents():\n                    self.__update_node(parent, \"up\")\n            return completely_updated","                for parent in node.get_parents():\n                    if self.is_displayed(parent):\n                        self.__update_node(parent, \"up\")\n            return completely_updated")],
 demo='''
class Node(TreeNode):
    red = False
t = Tree()
for n, p in (('a', None), ('b', 'a'), ('c', 'b')):
    t.add_node(Node(n), parent_id=p)
def desc(n):
    return [x for c in n.get_children() for x in [t.get_node(c)] + desc(t.get_node(c))]
# shown: inner nodes with an even number of red descendants which are not red themselves
t.add_filter('f', lambda n, parameters=None: n.get_id() == 'a' and not any(d.red for d in desc(n)))
v = t.get_viewtree()
v.apply_filter('f')
assert v.is_displayed('a')
t.get_node('c').red = True
t.refresh_node('c')
assert not v.is_displayed('a'), 'a is still displayed'
''', needs='a filter on descendants, and a change two generations below a displayed node with a hidden node between', breaks='the ancestor is not re-evaluated'),
'ancestors-not-told': dict(property='C14', edits=[(F,"            if direction == \"both\" or direction == \"up\":\n                for parent_id in stay:\n","            if direction == \"both\":\n                for parent_id in stay:\n")],
 demo='''
t = tree('a', 'b<a', 'c<b')
v = t.get_viewtree()
ev = []
v.register_cllbck('node-modified-inview', lambda n, p: ev.append(n))
t.refresh_node('c')
assert set(ev) == set('abc'), ev
''', needs='a refresh of a node with a displayed grandparent', breaks='the modification is not announced to ancestors beyond the parents'),
'add-order': dict(property='C07', edits=[(F,"            node_id, relative_path = queue.pop(0)\n","            node_id, relative_path = queue.pop()\n")],
 demo='''
t = tree('a', 'b', 'x<b', 'y<b', 'z<b')
v = t.get_viewtree()
order = []
v.register_cllbck('node-added-inview', lambda n, p: order.append(p))
t.add_parent('b', 'a')
got = [p[-1] for p in order if p[:-1] == ('a', 'b')]
assert got == list(v.node_all_children('b')), got
''', needs='a subtree with at least two siblings which appears at a new place', breaks='an observer gets the siblings in another order than the view reports'),
'path-hack': dict(property='C08', edits=[(F,"        # Both \"if\" should be benchmarked\n        if path in self.get_paths_for_node(node_id):","        # This is faster than to build all the paths\n        if self.is_path_valid(path) or path in self.get_paths_for_node(node_id):")],
 demo='''
t = tree('a', 'b<a', 'c<b')
v = t.get_viewtree()
assert v.get_node_for_path(('a', 'b', 'c')) == 'c'
assert v.get_node_for_path(('b', 'c')) is None, 'no path of c'
''', needs='a query for a path which starts below the top level', breaks='a path which the view does not report is resolved to a node'),
'reset-reapply': dict(property='C09', edits=[(F,"        should_refilter = False\n        if reset:","        should_refilter = False\n        applied = filter_name in self.applied_filters\n        if reset:"),(F,"        if filter_name not in self.applied_filters:\n            self.applied_filters.append(filter_name)\n            should_refilter = True","        if not applied:\n            self.applied_filters.append(filter_name)\n            should_refilter = True")],
 demo='''
t = tree('a', 'b<a')
t.add_filter('leaf', lambda n, parameters=None: not n.has_child())
t.add_filter('all', lambda n, parameters=None: True)
v = t.get_viewtree()
v.apply_filter('leaf')
v.apply_filter('all')
v.apply_filter('leaf', reset=True)
assert v.list_applied_filters() == ['leaf'], v.list_applied_filters()
''', needs='applying a filter which is already applied with reset=True', breaks='the filter is lost from the applied ones'),
'count-skip': dict(property='C10', edits=[(C,"                        for n in list(self.nodes):\n","                        for n in self.nodes:\n")],
 demo='''
t = tree('a', 'b', 'c', 'd')
t.add_filter('none', lambda n, parameters=None: n.get_id() == 'd')
c = t.get_viewcount()
c.apply_filter('none')
assert c.get_n_nodes() == 1, c.get_n_nodes()
''', needs='a filter which rejects two consecutive nodes, applied to a counter in use', breaks='the counter keeps nodes which the filter rejects'),
'process-no-lock': dict(property='C11', edits=[(Q,"        self._lock.acquire()\n        if len(self._vip_queue) > 0:","        # requests are only taken out by this thread, no lock is needed\n        if len(self._vip_queue) > 0:"),(Q,"            GObject.source_remove(self._handler)\n            self._handler = None\n        self._lock.release()\n","            GObject.source_remove(self._handler)\n            self._handler = None\n")],
 demo='''
import threading
from gi.repository import GObject
t = tree('a', 'b')
ev = []
t.get_main_view().register_cllbck('node-modified', lambda n, p: ev.append(n))
thread(lambda: t.refresh_node('a'))
# another thread issues a request just when the handler is being removed
real = GObject.source_remove
def slow(handler):
    GObject.source_remove = real
    th = threading.Thread(target=lambda: t.refresh_node('b'))
    th.start()
    th.join(0.5)
    return real(handler)
import liblarch.processqueue as q
class G(object):
    idle_add = GObject.idle_add
    source_remove = staticmethod(slow)
q.GObject = G
pump()
import time
time.sleep(0.6)
pump()
assert ev == ['a', 'b'], ev
''', needs='a request issued by another thread while the main loop removes its idle handler', breaks='the request is not executed'),
'empty-value': dict(property='C12', edits=[(G,"                    if value is not None:\n","                    if value:\n")],
 demo='''
import gi
gi.require_version('Gtk', '3.0')
from liblarch_gtk.treemodel import TreeModel
class Node(TreeNode):
    title = 'x'
t = Tree()
t.add_node(Node('a'))
v = t.get_viewtree()
m = TreeModel(v, [[str, lambda n: n.title]])
m.connect_model()
t.get_node('a').title = ''
t.refresh_node('a')
assert m.get_value(m.get_iter_first(), 1) == '', m.get_value(m.get_iter_first(), 1)
''', needs='a column whose value becomes empty', breaks='the row keeps the old value'),
'action-at-once': dict(property='C13', edits=[(V,"        self.__ft.set_callback('runonce', func, node_id=node_id, param=param)","        if self.__ft.is_displayed(node_id):\n            func(param)\n        self.__ft.set_callback('runonce', func, node_id=node_id, param=param)")],
 demo='''
t = tree('a')
v = t.get_viewtree()
ran = []
v.queue_action('a', ran.append, 1)
pump()
assert ran == [1], ran
''', needs='an action queued for a displayed node', breaks='the action runs twice'),
'key-by-length': dict(property='C15', edits=[(V,"        key = 0\n        while key in callbacks:\n            key += 1\n\n        callbacks[key] = func\n        return key","        key = len(callbacks)\n        callbacks[key] = func\n        return key")],
 demo='''
t = tree()
m = t.get_main_view()
calls = []
k1 = m.register_cllbck('node-added', lambda n, p: calls.append(1))
k2 = m.register_cllbck('node-added', lambda n, p: calls.append(2))
m.deregister_cllbck('node-added', k1)
k3 = m.register_cllbck('node-added', lambda n, p: calls.append(3))
t.add_node(TreeNode('a'))
assert sorted(calls) == [2, 3], calls
''', needs='registering a callback after an earlier one was deregistered', breaks='another callback is silently replaced'),
'anonymous-counter': dict(property='C16', edits=[(I,"        if name is not None and name in self.__viewscount:","        if name in self.__viewscount:"),(I,"            if name is not None:\n                self.__viewscount[name] = view_count","            self.__viewscount[name] = view_count")],
 demo='''
t = tree('a')
t.add_filter('none', lambda n, parameters=None: False)
c, d = t.get_viewcount(), t.get_viewcount()
c.apply_filter('none')
assert d.get_n_nodes() == 1
''', needs='two anonymous counters', breaks='both are the same one'),
'orphans-first': dict(property='C02', edits=[(T,"                if self.nodes[child_id].parents == []:\n                    self.root.children.append(child_id)","                if self.nodes[child_id].parents == []:\n                    self.root.children.insert(0, child_id)")],
 demo='''
t = tree('z', 'a', 'b<a', 'c<a')
t.del_node('a')
assert t.get_main_view().node_all_children() == ['z', 'b', 'c'], t.get_main_view().node_all_children()
''', needs='deleting a node with children next to other top-level nodes', breaks='the order of the other top-level nodes'),
'root-before-check': dict(property='C03', edits=[(T,"        if self._is_circular_relation(parent_id, child_id):\n            self._destroy","        # Remove from root when having a new relationship\n        if child_id in self.root.children:\n            self.root.children.remove(child_id)\n\n        if self._is_circular_relation(parent_id, child_id):\n            self._destroy"),(T,"        self._create_relationship(parent_id, child_id)\n\n        # Remove from root when having a new relationship\n        if child_id in self.root.children:\n            self.root.children.remove(child_id)\n\n","        self._create_relationship(parent_id, child_id)\n\n")],
 demo='''
t = tree('a', 'b<a')
try:
    t.add_parent('a', 'b')
except Exception:
    pass
assert t.get_main_view().node_all_children() == ['a'], 'a is not at the top level any more'
''', needs='a refused circular request for a top-level node', breaks='the node disappears from the top level'),
'filter-cache': dict(property='C09', edits=[(F,"                if displayed:\n                    nodes.append(node_id)\n\n            return nodes","                if displayed:\n                    nodes.append(node_id)\n\n            if len(withfilters) == 1:\n                self.filter_cache[withfilters[0]] = {\n                    'nodes': list(nodes), 'count': len(nodes)}\n            return nodes")],
 demo='''
class Node(TreeNode):
    red = False
t = Tree()
t.add_node(Node('a'))
t.add_filter('red', lambda n, parameters=None: n.red)
v = t.get_viewtree()
assert v.get_n_nodes(withfilters=['red']) == 0
t.get_node('a').red = True
t.refresh_node('a')
assert v.get_n_nodes(withfilters=['red']) == 1
''', needs='counting with the same additional filter before and after a node starts to match', breaks='a stale cached result'),
'priority-dropped': dict(property='C11', edits=[(T,"        self._queue.push(self._add_node, node, parent_id, priority=priority)","        self._queue.push(self._add_node, node, parent_id)")],
 demo='''
t = tree('a')
ev = []
m = t.get_main_view()
m.register_cllbck('node-added', lambda n, p: ev.append(n))
m.register_cllbck('node-modified', lambda n, p: ev.append(n))
def work():
    t.add_node(TreeNode('low'), priority='low')
    t.refresh_node('a', priority='normal')
thread(work)
pump()
assert ev == ['a', 'low'], ev
''', needs='additions and other requests of different priorities from another thread', breaks='the order by priority'),
'row-by-position': dict(property='C12', edits=[(G,"                if iter and self.get_value(iter, 0) == nid:\n                    toreturn = iter","                if iter:\n                    toreturn = iter")],
 demo='''
import gi
gi.require_version('Gtk', '3.0')
from liblarch_gtk.treemodel import TreeModel
t = tree('a', 'b', 'c', 'd')
v = t.get_viewtree()
m = TreeModel(v, [])
m.connect_model()
def rows():
    it, r = m.get_iter_first(), []
    while it:
        r.append(m.get_value(it, 0))
        it = m.iter_next(it)
    return r
t.del_node('a')
t.del_node('b')
assert rows() == ['c', 'd'], rows()
''', needs='removing rows whose position has changed since they were added', breaks='another row is removed'),
}
