import os; exec(open(os.path.join(os.path.dirname(__file__), 'seeds1.py')).read().split('SEEDS={')[0])
SEEDS={
'action-verdict': dict(property='C13', edits=[(F,"            if self.is_displayed(node_id):\n                # it is essential","            if self.is_displayed(node_id) or self.__is_displayed(node_id):\n                # it is essential")],
 demo='''
t = tree('a')
t.add_filter('none', lambda n, parameters=None: False)
v = t.get_viewtree()
v.apply_filter('none')
assert not v.is_displayed('a')
v.unapply_filter('none', refresh=False)
ran = []
v.queue_action('a', lambda x: ran.append(v.is_displayed('a')), 1)
pump()
assert ran == [], ran
v.reset_filters()
assert v.is_displayed('a') and ran == [True], ran
''', needs='an action queued while the refresh of the filters is postponed', breaks='the action runs although the node is not displayed'),
'action-param': dict(property='C13', edits=[(V,"        self.__ft.set_callback('runonce', func, node_id=node_id, param=param)","        self.__ft.set_callback(\n            'runonce', func, node_id=node_id, param=param or node_id)")],
 demo='''
t = tree('a')
v = t.get_viewtree()
ran = []
v.queue_action('b', ran.append, 0)
v.queue_action('b', ran.append)
t.add_node(TreeNode('b'))
assert ran == [0, None], ran
''', needs='a false parameter', breaks='the action does not get its parameter'),
}
