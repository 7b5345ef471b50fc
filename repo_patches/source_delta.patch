From c481c87640d25f2eb3b23a6b7741194ed0b64d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:41 +0000
Subject: [PATCH 01/31] fix: removing a node detaches it from all of its
 parents

The list of parents was changed while it was iterated, so a node with
several parents stayed listed among the children of some of them.
---
 liblarch/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index f2b3548..974998c 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -235,7 +235,7 @@ class MainTree(object):
         node = self.nodes[node_id]
 
         # Handle parents
-        for parent_id in node.parents:
+        for parent_id in list(node.parents):
             self._destroy_relationship(parent_id, node_id)
             self._callback('node-modified', parent_id)
 
-- 
2.43.0


From f5dc32dcf57fd39382d24c97068c7cb78f029def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:41 +0000
Subject: [PATCH 02/31] fix: moving a node dismisses all of its other parents

The list of parents was changed while it was iterated, so a node with
several parents kept some of the old ones.
---
 liblarch/treenode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index cc26dcd..6069f0e 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -102,7 +102,7 @@ class _Node(object):
                 par = self.tree.get_node(parent_id)
                 if par.has_children_enabled():
                     # First we remove all the other parents
-                    for node_id in self.parents:
+                    for node_id in list(self.parents):
                         if node_id != parent_id:
                             self.remove_parent(node_id)
                         else:
-- 
2.43.0


From 36017a82d8f44d385858d3608b69fcda8eeef66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:41 +0000
Subject: [PATCH 03/31] fix: a refused move leaves the node where it was

Moving a node below one of its own descendants dismissed its parents before
the circular relationship was detected.
---
 liblarch/treenode.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index 6069f0e..f6579e6 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -90,7 +90,6 @@ class _Node(object):
     def set_parent(self, parent_id):
         """ Remove other parents and set this parent as only parent """
         if parent_id != self.get_id() and self.parents_enabled:
-            is_already_parent_flag = False
             if not self.tree:
                 self.pending_relationships.append((parent_id, self.get_id()))
             elif not self.tree.has_node(parent_id):
@@ -101,14 +100,13 @@ class _Node(object):
             else:
                 par = self.tree.get_node(parent_id)
                 if par.has_children_enabled():
-                    # First we remove all the other parents
+                    # First we add the new parent: if it is refused, the
+                    # node keeps its current parents
+                    if parent_id:
+                        self.add_parent(parent_id)
                     for node_id in list(self.parents):
                         if node_id != parent_id:
                             self.remove_parent(node_id)
-                        else:
-                            is_already_parent_flag = True
-                    if parent_id and not is_already_parent_flag:
-                        self.add_parent(parent_id)
 
     def remove_parent(self, parent_id):
         """ Remove parent """
-- 
2.43.0


From a170b0cdbb5e47a5be017d9fa0f0355420324136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:08 +0000
Subject: [PATCH 04/31] fix: a refused add_node does not leave a half-added
 node

The circular relationship with the given parent was detected only after the
node had been stored: it stayed in the tree, below nothing and unknown to
every view.
---
 liblarch/tree.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 974998c..d9d75de 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -159,6 +159,20 @@ class MainTree(object):
             print("Error: Node '%s' already exists" % node_id)
             return False
 
+        # Refuse a circular relationship before anything is changed. The node
+        # will be above the children which are already waiting for it.
+        if parent_id is not None:
+            below = [node_id]
+            for rel_parent_id, rel_child_id in (
+                    self.pending_relationships + node.pending_relationships):
+                if rel_parent_id == node_id and rel_child_id in self.nodes:
+                    below.append(rel_child_id)
+            for below_id in below:
+                if self._is_circular_relation(parent_id, below_id):
+                    raise Exception(
+                        'Creating circular relationship between {} and {}'.format(
+                            parent_id, node_id))
+
         _Node._set_tree(node, self)
         for relationship in node.pending_relationships:
             if relationship not in self.pending_relationships:
@@ -197,10 +211,6 @@ class MainTree(object):
 
         # Build relationship with given parent
         if parent_id is not None:
-            if self._is_circular_relation(parent_id, node_id):
-                raise Exception(
-                    'Creating circular relationship between {} and {}'.format(
-                        parent_id, node_id))
             if parent_id in self.nodes:
                 self._create_relationship(parent_id, node_id)
                 add_to_root = False
-- 
2.43.0


From 3a41cdfde5688f2bb7d542f4afbc8f7b4bc3e9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:08 +0000
Subject: [PATCH 05/31] fix: a failing request does not block the queue

When a queued request raised an exception (e.g. a circular relationship),
GLib removed the idle handler while the queue still believed that it was
installed. Nothing queued afterwards was ever processed.
---
 liblarch/processqueue.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/liblarch/processqueue.py b/liblarch/processqueue.py
index 1e9baac..f16d682 100644
--- a/liblarch/processqueue.py
+++ b/liblarch/processqueue.py
@@ -18,6 +18,7 @@
 # -----------------------------------------------------------------------------
 
 import threading
+import traceback
 
 from gi.repository import GObject
 
@@ -42,7 +43,12 @@ class SyncQueue(object):
         """ Process requests from queue """
         for action in self.process():
             func = action[0]
-            func(*action[1:])
+            try:
+                func(*action[1:])
+            except Exception:
+                # GLib drops a handler which raises: the requests which are
+                # still in the queue would never be processed
+                traceback.print_exc()
         # return True to process other requests as well
         return True
 
-- 
2.43.0


From 2421eb47c1cd7699bd43d1f818de1b90e63a48ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:08 +0000
Subject: [PATCH 06/31] fix: unregistering a callback of ViewCount raised
 AttributeError

---
 liblarch/viewcount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index 6eeb1cb..caabd89 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -69,8 +69,8 @@ class ViewCount(object):
             self.cllbcks.append(func)
 
     def unregister_cllbck(self, func):
-        if func in self.cllbacks:
-            self.cllbacks.remove(func)
+        if func in self.cllbcks:
+            self.cllbcks.remove(func)
 
     def get_n_nodes(self):
         return len(self.nodes)
-- 
2.43.0


From c22899a41eeb6233ee6c4fc709a55b499e2bec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:08 +0000
Subject: [PATCH 07/31] fix: forget the iterator of a removed row

The iterator stayed in the cache of paths. GTK reuses its memory, so it could
turn into a valid iterator of another instance of the same node and updates
or removals were done on the wrong row.
---
 liblarch_gtk/treemodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 8481752..7e3e738 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -159,6 +159,8 @@ class TreeModel(Gtk.TreeStore):
         assert actual_node_id == node_id
         self.remove(it)
         self.cache_position.pop(path)
+        # GTK can reuse the memory of the iterator for another row
+        self.cache_paths.pop(path, None)
 
     def update_task(self, node_id, path):
         """ Update instance of node by rebuilding the row.
-- 
2.43.0


From dc90a99d7dde188972d0656ecbf8352cb4d2014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:41 +0000
Subject: [PATCH 08/31] fix: a view detaches and attaches a node completely
 before updating its relatives

With a filter which depends on the descendants, updating a parent could come
back to the node which was still half linked in the view: KeyError or wrong
notifications.
---
 liblarch/filteredtree.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 79c57e0..52e3ba7 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -200,18 +200,21 @@ class FilteredTree(object):
             for parent_id in remove_from:
                 self.send_remove_tree(node_id, parent_id)
                 self.nodes[parent_id]['children'].remove(node_id)
-                if direction == "both" or direction == "up":
-                    self.__update_node(parent_id, direction="up")
             # there might be some optimization here
             for parent_id in add_to:
                 if parent_id in self.nodes:
                     self.nodes[parent_id]['children'].append(node_id)
                     self.send_add_tree(node_id, parent_id)
-                    if direction == "both" or direction == "up":
-                        self.__update_node(parent_id, direction="up")
                 else:
                     completely_updated = False
                     raise Exception("We have a parent not in the ViewTree")
+            # Update the parents only now, when all the links of this node
+            # are consistent: updating a parent could come back to this node
+            if direction == "both" or direction == "up":
+                for parent_id in remove_from:
+                    self.__update_node(parent_id, direction="up")
+                for parent_id in add_to:
+                    self.__update_node(parent_id, direction="up")
             # We update all the other parents
             if direction == "both" or direction == "up":
                 for parent_id in stay:
@@ -231,20 +234,23 @@ class FilteredTree(object):
                         self.__update_node(cid, direction="down")
 
         elif action == 'deleted':
+            # Detach the node completely before anything else is updated:
+            # updating a child or a parent could come back to this node
             paths = self.get_paths_for_node(node_id)
             children = list(reversed(self.nodes[node_id]['children']))
             for child_id in children:
                 self.send_remove_tree(child_id, node_id)
                 self.nodes[child_id]['parents'].remove(node_id)
-                self.__update_node(child_id, direction="down")
 
             node = self.nodes.pop(node_id)
+            for parent_id in node['parents']:
+                self.nodes[parent_id]['children'].remove(node_id)
             for path in paths:
                 self.callback(action, node_id, path)
 
-            # Remove node from cache
+            for child_id in children:
+                self.__update_node(child_id, direction="down")
             for parent_id in node['parents']:
-                self.nodes[parent_id]['children'].remove(node_id)
                 self.__update_node(parent_id, direction="up")
 
             # We update parents who are not displayed
-- 
2.43.0


From afd3b80637687262f5575fdef74f5425c8b9c780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:50 +0000
Subject: [PATCH 09/31] fix: a view re-evaluates hidden parents of a modified
 node and adopts children

A displayed node which is modified can change the verdict of its hidden
parents, and a node which appears because of its descendant has to adopt all
its other displayed children.
---
 liblarch/filteredtree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 52e3ba7..6f2e0ac 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -174,7 +174,7 @@ class FilteredTree(object):
 
             # When using flat filter or a recursive filter, FilteredTree
             # might not recognize a parent correctly, make sure to check them
-            if action == 'added':
+            if action == 'added' or direction != "down":
                 node = self.tree.get_node(node_id)
                 for parent_id in node.get_parents():
                     if (parent_id not in new_parents and parent_id not in current_parents):
@@ -228,7 +228,7 @@ class FilteredTree(object):
             # We update the children
             current_children = self.nodes[node_id]['children']
             new_children = self.__node_children(node_id)
-            if direction == "both" or direction == "down":
+            if direction != "up" or action == 'added':
                 for cid in new_children:
                     if cid not in current_children:
                         self.__update_node(cid, direction="down")
-- 
2.43.0


From 9255fcde68a1fa5bab211c5abe686f3890817b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:59 +0000
Subject: [PATCH 10/31] fix: hiding a node re-evaluates its parents in a flat
 view as well

---
 liblarch/filteredtree.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 6f2e0ac..f152342 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -253,12 +253,11 @@ class FilteredTree(object):
             for parent_id in node['parents']:
                 self.__update_node(parent_id, direction="up")
 
-            # We update parents who are not displayed
-            # If the node is only hidden and still exists in the tree
+            # We update the parents which are not its parents in this view
+            # (hidden or in a flat view) if the node still exists in the tree
             if self.tree.has_node(node_id):
-                node = self.tree.get_node(node_id)
-                for parent in node.get_parents():
-                    if parent not in self.nodes:
+                for parent in self.tree.get_node(node_id).get_parents():
+                    if parent not in node['parents']:
                         self.__update_node(parent, direction="up")
 
         return completely_updated
-- 
2.43.0


From 6af6a4b0a3446b2f1f41ce1855f2ea89c6a06e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:10 +0000
Subject: [PATCH 11/31] fix: run-once callbacks do not clash with the names of
 events

A node called 'added', 'deleted', 'modified' or 'reordered' broke the view.
---
 liblarch/filteredtree.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index f152342..8141a66 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -49,6 +49,8 @@ class FilteredTree(object):
         """
 
         self.cllbcks = {}
+        # Callbacks to be run once, by node_id
+        self.runonce_cllbcks = {}
 
         # Cache
         self.nodes = {}
@@ -90,9 +92,9 @@ class FilteredTree(object):
                 # it is essential to idle_add to avoid hard recursion
                 GObject.idle_add(func, param)
             else:
-                if node_id not in self.cllbcks:
-                    self.cllbcks[node_id] = []
-                self.cllbcks[node_id].append([func, node_id, param])
+                if node_id not in self.runonce_cllbcks:
+                    self.runonce_cllbcks[node_id] = []
+                self.runonce_cllbcks[node_id].append([func, node_id, param])
         else:
             self.cllbcks[event] = [func, node_id, param]
 
@@ -109,11 +111,11 @@ class FilteredTree(object):
         The runonce event is actually only run once, when a given task appears.
         """
         if event == 'added':
-            for func, nid, param in self.cllbcks.get(node_id, []):
+            for func, nid, param in self.runonce_cllbcks.get(node_id, []):
                 if nid and self.is_displayed(nid):
                     func(param)
-                    if node_id in self.cllbcks:
-                        self.cllbcks.pop(node_id)
+                    if node_id in self.runonce_cllbcks:
+                        self.runonce_cllbcks.pop(node_id)
                 else:
                     raise Exception(
                         '{} is not displayed but {} was added'.format(
-- 
2.43.0


From 7d71994a1ec3332aa620776721b3480e677bef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:20 +0000
Subject: [PATCH 12/31] fix: disabled parents or children are respected by
 every way to relate nodes

Adding a node under a parent, and relationships which wait for a node, ignored
them: only one of both nodes knew about the relationship.
---
 liblarch/tree.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index d9d75de..eb149da 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -125,6 +125,11 @@ class MainTree(object):
         if parent_id in child.parents:
             child.parents.remove(parent_id)
 
+    def _is_enabled_relation(self, parent_id, child_id):
+        """ Do both (existing) nodes accept such a relation? """
+        return (self.nodes[parent_id].has_children_enabled() and
+                self.nodes[child_id].has_parents_enabled())
+
     def _is_circular_relation(self, parent_id, child_id):
         """ Would the new relation be circular?
 
@@ -189,7 +194,9 @@ class MainTree(object):
         for rel_parent_id, rel_child_id in list(self.pending_relationships):
             # Adding as a child
             if rel_child_id == node_id and rel_parent_id in self.nodes:
-                if not self._is_circular_relation(rel_parent_id, node_id):
+                if not self._is_enabled_relation(rel_parent_id, node_id):
+                    pass
+                elif not self._is_circular_relation(rel_parent_id, node_id):
                     self._create_relationship(rel_parent_id, node_id)
                     add_to_root = False
                     parents_to_refresh.append(rel_parent_id)
@@ -201,7 +208,9 @@ class MainTree(object):
 
             # Adding as a parent
             if rel_parent_id == node_id and rel_child_id in self.nodes:
-                if not self._is_circular_relation(node_id, rel_child_id):
+                if not self._is_enabled_relation(node_id, rel_child_id):
+                    pass
+                elif not self._is_circular_relation(node_id, rel_child_id):
                     self._create_relationship(node_id, rel_child_id)
                     children_to_refresh.append(rel_child_id)
                 else:
@@ -212,9 +221,10 @@ class MainTree(object):
         # Build relationship with given parent
         if parent_id is not None:
             if parent_id in self.nodes:
-                self._create_relationship(parent_id, node_id)
-                add_to_root = False
-                parents_to_refresh.append(parent_id)
+                if self._is_enabled_relation(parent_id, node_id):
+                    self._create_relationship(parent_id, node_id)
+                    add_to_root = False
+                    parents_to_refresh.append(parent_id)
             else:
                 self.pending_relationships.append((parent_id, node_id))
 
@@ -285,6 +295,9 @@ class MainTree(object):
             self.pending_relationships.append((parent_id, child_id))
             return True
 
+        if not self._is_enabled_relation(parent_id, child_id):
+            return False
+
         if self._is_circular_relation(parent_id, child_id):
             self._destroy_relationship(parent_id, child_id)
             raise Exception(
-- 
2.43.0


From e5403679b4f30b27a647f069cfc668933ed4f57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:28 +0000
Subject: [PATCH 13/31] fix: relationships are changed only when their request
 is processed

add_child() and remove_parent() changed one of the nodes at once, in the
calling thread: the tree was inconsistent until the request was processed, and
for good when one of the nodes was removed meanwhile.
---
 liblarch/tree.py     | 5 +++--
 liblarch/treenode.py | 2 --
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index eb149da..fbdf723 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -330,8 +330,9 @@ class MainTree(object):
         self._destroy_relationship(parent_id, child_id)
 
         # Move to root if beak the last parent
-        if self.nodes[child_id].get_parents() == []:
-            self.root.add_child(child_id)
+        if (self.nodes[child_id].parents == [] and
+                child_id not in self.root.children):
+            self.root.children.append(child_id)
 
         self._callback('node-modified', parent_id)
         self._callback('node-modified', child_id)
diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index f6579e6..a9e0a79 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -111,7 +111,6 @@ class _Node(object):
     def remove_parent(self, parent_id):
         """ Remove parent """
         if self.parents_enabled and parent_id in self.parents:
-            self.parents.remove(parent_id)
             self.tree.break_relationship(parent_id, self.node_id)
 
     def has_parent(self, parent_id=None):
@@ -163,7 +162,6 @@ class _Node(object):
                 else:
                     child = self.tree.get_node(child_id)
                     if child.has_parents_enabled():
-                        self.children.append(child_id)
                         self.tree.new_relationship(self.node_id, child_id)
             else:
                 print("{} was already in children of {}".format(
-- 
2.43.0


From f3c62ba65c1df9036755fe520b3d8c936450aa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:00 +0000
Subject: [PATCH 14/31] fix: a run-once action is run once whatever it returns

GLib repeats an idle function which returns a true value.
---
 liblarch/filteredtree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 8141a66..9f9b0b7 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -90,7 +90,7 @@ class FilteredTree(object):
                 raise Exception('runonce callback should come with a node_id')
             if self.is_displayed(node_id):
                 # it is essential to idle_add to avoid hard recursion
-                GObject.idle_add(func, param)
+                GObject.idle_add(self.__idle_runonce, func, param)
             else:
                 if node_id not in self.runonce_cllbcks:
                     self.runonce_cllbcks[node_id] = []
@@ -98,6 +98,11 @@ class FilteredTree(object):
         else:
             self.cllbcks[event] = [func, node_id, param]
 
+    def __idle_runonce(self, func, param):
+        func(param)
+        # Whatever func returned, do not run it again
+        return False
+
     def callback(self, event, node_id, path, neworder=None):
         """ Run a callback.
 
-- 
2.43.0


From 96d5e1a60b8fae6a3c88fc0d85911c71a1345148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:43 +0000
Subject: [PATCH 15/31] fix: nth child and having a child of the top level of a
 filtered view

None means the top level as in the other queries and in the main view.
---
 liblarch/filteredtree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 9f9b0b7..60d0ec6 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -563,6 +563,8 @@ class FilteredTree(object):
         return list(self.nodes[node_id]['children'])
 
     def node_has_child(self, node_id):
+        if node_id is None:
+            node_id = self.root_id
         return len(self.nodes[node_id]['children']) > 0
 
     def node_n_children(self, node_id, recursive=False):
@@ -583,6 +585,8 @@ class FilteredTree(object):
             return len(self.nodes[node_id]['children'])
 
     def node_nth_child(self, node_id, n):
+        if node_id is None:
+            node_id = self.root_id
         return self.nodes[node_id]['children'][n]
 
     def node_parents(self, node_id):
-- 
2.43.0


From 300dbceb9e53b05ac5fe1c027ac5c36825244900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:25 +0000
Subject: [PATCH 16/31] fix: dragging overlapping rows moved wrong nodes or
 crashed

Moving the first node invalidates the iterators of the rows below it,
which were used to find the other dragged nodes.
---
 liblarch_gtk/__init__.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 927333e..784b3f2 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -515,38 +515,39 @@ class TreeView(Gtk.TreeView):
         else:
             iters = data.decode().split(',')
 
-        dragged_iters = []
+        # Moving a node invalidates the iterators of its rows (and of the rows
+        # below them). The nodes have to be known before the first one moves.
+        dragged_tids = []
         for iter in iters:
             if info == 0:
                 try:
-                    dragged_iters.append(model.get_iter_from_string(iter))
+                    dragged_iter = model.get_iter_from_string(iter)
+                    dragged_tids.append(model.get_value(dragged_iter, 0))
                 except ValueError:
                     # I hate to silently fail but we have no choice.
                     # It means that the iter is not good.
                     # Thanks shitty gtk API for not allowing us to test
                     # the string
-                    dragged_iter = None
+                    pass
 
             # Handle drag from one widget to another (ex: treeview to treeview)
             elif info in self.dnd_external_targets and destination_tid:
                 f = self.dnd_external_targets[info][1]
                 src_model = Gtk.drag_get_source_widget(context).get_model()
-                dragged_iters.append(src_model.get_iter_from_string(iter))
+                dragged_iter = src_model.get_iter_from_string(iter)
+                dragged_tids.append(src_model.get_value(dragged_iter, 0))
 
-        for dragged_iter in dragged_iters:
+        for dragged_tid in dragged_tids:
             if info == 0:
-                if dragged_iter and model.iter_is_valid(dragged_iter):
-                    dragged_tid = model.get_value(dragged_iter, 0)
-                    try:
-                        tree.move_node(
-                            dragged_tid, new_parent_id=destination_tid)
-                    except Exception as e:
-                        print('Problem with dragging: %s' % e)
+                try:
+                    tree.move_node(
+                        dragged_tid, new_parent_id=destination_tid)
+                except Exception as e:
+                    print('Problem with dragging: %s' % e)
 
             # Handle inter-widget Drag'n'Drop again (like in the previous loop)
             elif info in self.dnd_external_targets and destination_tid:
-                source = src_model.get_value(dragged_iter, 0)
-                f(source, destination_tid)
+                f(dragged_tid, destination_tid)
 
     # Separators support ##############################################
     def _separator_func(self, model, itera, user_data=None):
-- 
2.43.0


From d82a4c95995db341d7ca873805adf217289727b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:25 +0000
Subject: [PATCH 17/31] fix: dropping an empty selection of another widget
 raised ValueError

The data is a bytes object, never equal to ''.
---
 liblarch_gtk/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 784b3f2..e111fd1 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -510,7 +510,7 @@ class TreeView(Gtk.TreeView):
         # If there is no selected task (empty selection.data),
         # explicitly skip handling it (set to empty list)
         data = selection.get_data()
-        if data == '':
+        if not data:
             iters = []
         else:
             iters = data.decode().split(',')
-- 
2.43.0


From 26bd14d6a690b15c8551228a1bc499ee3126f5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:29 +0000
Subject: [PATCH 18/31] fix: paths of a node can be asked for while its parents
 are being announced

A callback or a queued action (e.g. TreeView.collapse_node) which asked for
the paths of a node with several parents raised an exception, because the
node already listed parents which did not list it yet.
---
 liblarch/filteredtree.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 60d0ec6..cddb8e7 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -191,10 +191,6 @@ class FilteredTree(object):
             current_parents = self.nodes[node_id]['parents']
             new_parents = self.__node_parents(node_id)
 
-            self.nodes[node_id]['parents'] = [
-                parent_id for parent_id in new_parents
-                if parent_id in self.nodes]
-
             remove_from = set(current_parents) - set(new_parents)
             add_to = set(new_parents) - set(current_parents)
             stay = set(new_parents) - set(add_to)
@@ -204,17 +200,24 @@ class FilteredTree(object):
             if direction == "down" and self.root_id in add_to:
                 direction = "both"
 
+            # The lists of parents and children have to agree with each other
+            # whenever a callback is called
             for parent_id in remove_from:
+                self.nodes[node_id]['parents'].remove(parent_id)
                 self.send_remove_tree(node_id, parent_id)
                 self.nodes[parent_id]['children'].remove(node_id)
             # there might be some optimization here
             for parent_id in add_to:
                 if parent_id in self.nodes:
                     self.nodes[parent_id]['children'].append(node_id)
+                    self.nodes[node_id]['parents'].append(parent_id)
                     self.send_add_tree(node_id, parent_id)
                 else:
                     completely_updated = False
                     raise Exception("We have a parent not in the ViewTree")
+            self.nodes[node_id]['parents'] = [
+                parent_id for parent_id in new_parents
+                if parent_id in self.nodes]
             # Update the parents only now, when all the links of this node
             # are consistent: updating a parent could come back to this node
             if direction == "both" or direction == "up":
-- 
2.43.0


From b9e9d8796d9402c30d8bbc8280488f5c472f7e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:29 +0000
Subject: [PATCH 19/31] fix: an expanded node was remembered as a collapsed one

After expand_node() the node was not expanded automatically when it got its
children again, e.g. by refiltering.
---
 liblarch_gtk/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index e111fd1..b4d961b 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -263,7 +263,12 @@ class TreeView(Gtk.TreeView):
             target_path = self.basetreemodel.get_path(iter)
             if self.basetreemodel.get_value(iter, 0) == node_id:
                 collapsing_method(target_path)
-                self.collapsed_paths.append(path)
+                if collapsing_method == self.expand_one_row:
+                    # Do not keep it collapsed any longer
+                    self.collapsed_paths = [
+                        p for p in self.collapsed_paths if p[-1] != node_id]
+                else:
+                    self.collapsed_paths.append(path)
                 schedule_next = False
 
         if schedule_next:
-- 
2.43.0


From 2773d1701b9d4ce1c916f910cf3c6c99cd5a281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:59 +0000
Subject: [PATCH 20/31] fix: a path which leads to a node not in the tree
 raised ValueError

---
 liblarch/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index fbdf723..3d6dde8 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -359,6 +359,8 @@ class MainTree(object):
         if not path or path == ():
             return None
         node_id = path[-1]
+        if node_id not in self.nodes:
+            return None
         if path in self.get_paths_for_node(node_id):
             return node_id
         else:
-- 
2.43.0


From ad08bb8de025d0a5f0392f5915a8a9f661ebc9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:59 +0000
Subject: [PATCH 21/31] fix: asking a node without a tree for a given parent
 raised AttributeError

---
 liblarch/treenode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index a9e0a79..e4b7929 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -121,7 +121,8 @@ class _Node(object):
         """
         if self.parents_enabled:
             if parent_id:
-                parent_in_tree = self.tree.has_node(parent_id)
+                parent_in_tree = (
+                    self.tree is not None and self.tree.has_node(parent_id))
                 own_parent = parent_id in self.parents
                 return parent_in_tree and own_parent
             else:
-- 
2.43.0


From 85dc385fd814b34ada3cb87729e7e544e7c35788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:59 +0000
Subject: [PATCH 22/31] fix: a listener of a counter which unregistered itself
 made the next one miss the call

---
 liblarch/viewcount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index caabd89..1ebef0a 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -100,5 +100,5 @@ class ViewCount(object):
             self.__callback()
 
     def __callback(self):
-        for c in self.cllbcks:
+        for c in list(self.cllbcks):
             c()
-- 
2.43.0


From 3c9cf0cf02c12a0a0b1ea04e7e1410daab767ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:02 +0000
Subject: [PATCH 23/31] fix: a row kept the former value of a column when the
 new one is None

---
 liblarch_gtk/treemodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 7e3e738..d69325d 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -17,7 +17,7 @@
 # along with this program. If not, see <http://www.gnu.org/licenses/>.
 # -----------------------------------------------------------------------------
 
-from gi.repository import Gtk
+from gi.repository import GObject, Gtk
 
 
 class TreeModel(Gtk.TreeStore):
@@ -182,6 +182,11 @@ class TreeModel(Gtk.TreeStore):
                     value = access_method(node)
                     if value is not None:
                         self.set_value(iterator, column_num, value)
+                    else:
+                        # Do not keep the former value
+                        self.set_value(
+                            iterator, column_num,
+                            GObject.Value(self.get_column_type(column_num)))
 
     def reorder_nodes(self, node_id, path, neworder):
         """ Reorder nodes.
-- 
2.43.0


From b5858566d1e3907670410b720714a32732433fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:17 +0000
Subject: [PATCH 24/31] fix: nothing was shown of a first column described with
 new_column=False

---
 liblarch_gtk/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index b4d961b..2fb3f01 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -117,9 +117,6 @@ class TreeView(Gtk.TreeView):
 
         types = []
         sorting_func = []
-        # Build the first column if user starts with new_colum=False
-        col = Gtk.TreeViewColumn()
-
         # Build columns according to the order
         for col_num, (order_num, col_name) in enumerate(
                 sorted(self.order_of_column), 1):
@@ -138,7 +135,8 @@ class TreeView(Gtk.TreeView):
 
             # If new_colum=False, do not create new column, use the previous
             # one. It will create columns without borders.
-            if desc.get('new_column', True):
+            # The very first column has no previous one.
+            if desc.get('new_column', True) or col_num == 1:
                 col = Gtk.TreeViewColumn()
                 newcol = True
             else:
-- 
2.43.0


From cf41d6c9e93151bae4df6604b04e53f9c7bd5a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:17 +0000
Subject: [PATCH 25/31] fix: sorting by a column which comes later raised
 KeyError

---
 liblarch_gtk/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 2fb3f01..873eb88 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -117,6 +117,7 @@ class TreeView(Gtk.TreeView):
 
         types = []
         sorting_func = []
+        default_sorting = []
         # Build columns according to the order
         for col_num, (order_num, col_name) in enumerate(
                 sorted(self.order_of_column), 1):
@@ -161,14 +162,18 @@ class TreeView(Gtk.TreeView):
             if ENABLE_SORTING:
                 if 'sorting' in desc:
                     # Just allow sorting and use default comparing
-                    self.sort_col = desc['sorting']
-                    sort_num, sort_col = self.columns[self.sort_col]
-                    col.set_sort_column_id(sort_num)
+                    # (the column to sort by might not exist yet)
+                    default_sorting.append((col, desc['sorting']))
 
                 if 'sorting_func' in desc:
                     # Use special function for comparing, e.g. dates
                     sorting_func.append((col_num, col, desc['sorting_func']))
 
+        for col, sort_name in default_sorting:
+            self.sort_col = sort_name
+            sort_num, sort_col = self.columns[sort_name]
+            col.set_sort_column_id(sort_num)
+
         self.basetree = tree
         # Build the model around LibLarch tree
         self.basetreemodel = TreeModel(tree, types)
-- 
2.43.0


From 9a92f52f8f3134fb16302d04bbc34382df225918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:17 +0000
Subject: [PATCH 26/31] fix: a refused set_sort_column changed what
 get_sort_column tells

---
 liblarch_gtk/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 873eb88..544a06c 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -310,9 +310,9 @@ class TreeView(Gtk.TreeView):
     def set_sort_column(self, col_name, order=Gtk.SortType.ASCENDING):
         """ Select column to sort by it by default """
         if ENABLE_SORTING:
+            col_num, col = self.columns[col_name]
             self.sort_col = col_name
             self.sort_order = order
-            col_num, col = self.columns[col_name]
             self.treemodel.set_sort_column_id(col_num, order)
 
     def get_sort_column(self):
-- 
2.43.0


From d5e352c9c96247b9455a01b2d67542b930b30b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:17 +0000
Subject: [PATCH 27/31] fix: get_sort_column did not follow a click on the
 header of a column

---
 liblarch_gtk/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 544a06c..d18b0e2 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -318,6 +318,11 @@ class TreeView(Gtk.TreeView):
     def get_sort_column(self):
         """ Get sort column """
         if ENABLE_SORTING:
+            # The user might have clicked on the header of another column
+            sorted_num, order = self.treemodel.get_sort_column_id()
+            for col_name, (col_num, col) in self.columns.items():
+                if col_num == sorted_num:
+                    self.sort_col, self.sort_order = col_name, order
             return self.sort_col, self.sort_order
 
     def set_col_visible(self, col_name, visible):
-- 
2.43.0


From c283f62b6d168d965d5df8476b045adf5b5137c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:21 +0000
Subject: [PATCH 28/31] fix: children which waited for a node were not updated
 when it was added

---
 liblarch/tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 3d6dde8..a42edf8 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -235,6 +235,8 @@ class MainTree(object):
         # Send callbacks
         # updating the parent and the children is handled by the FT
         self._callback("node-added", node_id)
+        for child_id in children_to_refresh:
+            self._callback('node-modified', child_id)
 
     def _remove_node(self, node_id, recursive=False):
         """ Remove node from tree """
-- 
2.43.0


From 59f24694462d58f9291b34ef07fb3ecc56a253d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:21 +0000
Subject: [PATCH 29/31] fix: looking for circular relations took exponential
 time

---
 liblarch/tree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index a42edf8..950a598 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -149,6 +149,7 @@ class MainTree(object):
 
             for ancestor_id in self.nodes[node_id].parents:
                 if ancestor_id not in visited:
+                    visited.append(ancestor_id)
                     ancestors.append(ancestor_id)
 
         return False
-- 
2.43.0


From b72d4ef8bf152e24b9799d68d1329a482840c8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:06 +0000
Subject: [PATCH 30/31] fix: a filter removed from the bank does not break the
 counters which use it

---
 liblarch/viewcount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index 1ebef0a..166cfe1 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -83,7 +83,8 @@ class ViewCount(object):
         displayed = True
         for filtname in self.applied_filters:
             filt = self.fbank.get_filter(filtname)
-            displayed &= filt.is_displayed(nid)
+            # a filter which is not in the bank any more accepts nothing
+            displayed &= filt is not None and filt.is_displayed(nid)
         if displayed:
             self.__add(nid)
         else:
-- 
2.43.0


From dbdfa18d91a3a962ae04e62db86a40cb60632a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:15 +0000
Subject: [PATCH 31/31] fix: adding a filter whose name starts with ! raised
 UnboundLocalError

---
 liblarch/filters_bank.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/liblarch/filters_bank.py b/liblarch/filters_bank.py
index 8bbd9ab..89a843b 100644
--- a/liblarch/filters_bank.py
+++ b/liblarch/filters_bank.py
@@ -101,12 +101,11 @@ class FiltersBank(object):
         Return True if the filter was added
         Return False if the filter_name was already in the bank
         """
+        if filter_name.startswith('!'):
+            filter_name = filter_name[1:]
         if filter_name not in self.list_filters():
-            if filter_name.startswith('!'):
-                filter_name = filter_name[1:]
-            else:
-                filter_obj = Filter(filter_func, self.tree)
-                filter_obj.set_parameters(parameters)
+            filter_obj = Filter(filter_func, self.tree)
+            filter_obj.set_parameters(parameters)
             self.custom_filters[filter_name] = filter_obj
             return True
         else:
-- 
2.43.0

