From 23b5b4412b464e2e9a2a8071444dc667668cf441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:41 +0000
Subject: [PATCH 01/82] fix: look up a layer's children by parent path value,
 not string identity

---
 nxt/nxt_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 10f66bf..2071143 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -328,7 +328,7 @@ class SpecLayer(object):
                 if cache_real:
                     parent_path = getattr(node,
                                           nxt_node.INTERNAL_ATTRS.PARENT_PATH)
-                    if parent_path is node_path:
+                    if parent_path == node_path:
                         children_nodes += [node]
                         children_paths += [path]
                         node_table += [[path, node]]
-- 
2.43.0


From 9a0b5d37cd853fde90b55eedd4362511a20c6e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:01 +0000
Subject: [PATCH 02/82] fix: replace_ancestor only rewrites the leading
 ancestor, and handles the world path

---
 nxt/nxt_path.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 43842c1..cff9fae 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -305,12 +305,12 @@ def replace_ancestor(path, old_ancestor, new_ancestor):
     :rtype: str
     """
     path = _add_path_terminator(path)
-    old_ancestor = _add_path_terminator(old_ancestor)
+    if old_ancestor != WORLD:
+        old_ancestor = _add_path_terminator(old_ancestor)
     new_ancestor = _add_path_terminator(new_ancestor)
-    new_path = new_ancestor + path
-    old_ancestor_is_world = old_ancestor == WORLD
-    if not old_ancestor_is_world:
-        new_path = path.replace(old_ancestor, new_ancestor, 1)
+    if not path.startswith(old_ancestor):
+        return path[:-1]
+    new_path = path.replace(old_ancestor, new_ancestor, 1)
     new_path = new_path[:-1]
     return new_path.replace(NODE_SEP+NODE_SEP, NODE_SEP)
 
-- 
2.43.0


From 657d547b1d5090933d2852dce5e5c4041dc4fb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 03/82] fix: join_node_paths accepts a list of paths as well as
 a tuple

---
 nxt/nxt_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index cff9fae..446dd80 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -286,7 +286,7 @@ def join_node_paths(node_path1, node_path2):
     """
     if not isinstance(node_path2, (tuple, list)):
         node_path2 = (node_path2,)
-    extras = (node_path1,) + node_path2
+    extras = (node_path1,) + tuple(node_path2)
     joined = NODE_SEP.join(extras).replace(NODE_SEP+NODE_SEP, NODE_SEP)
     return joined
 
-- 
2.43.0


From ea91be055550b4e859f508435f226e21ed718172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:31 +0000
Subject: [PATCH 04/82] fix: ordered children as nodes follow the child order,
 and as a table list each child once

---
 nxt/nxt_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 2071143..e9604d3 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -366,7 +366,7 @@ class SpecLayer(object):
                 # return type NODE
                 for n in children_nodes:
                     c_name = getattr(n, nxt_node.INTERNAL_ATTRS.NAME)
-                    if c_name is child_name:
+                    if c_name == child_name:
                         ordered_child_nodes += [n]
                 # return type PATH
                 for p in children_paths:
@@ -390,7 +390,7 @@ class SpecLayer(object):
             # return type TABLE
             for item in node_table:
                 p, n = item
-                if p not in ordered_node_table:
+                if item not in ordered_node_table:
                     ordered_node_table += [item]
             node_table = ordered_node_table
 
-- 
2.43.0


From 41bfd52644afb70c07c52d68cc44829eb23cb9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:37 +0000
Subject: [PATCH 05/82] fix: descendants as nodes include every level, and the
 query no longer grows the cached children

---
 nxt/nxt_layer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index e9604d3..9844b7e 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -449,7 +449,10 @@ class SpecLayer(object):
                 for d_pth, d in more_descendants:
                     _temp += self.children(d_pth, return_type,
                                            include_implied=include_implied)
-            descendants += _temp
+            elif return_type == LayerReturnTypes.Node:
+                for d in more_descendants:
+                    _temp += self.children(self.get_node_path(d), return_type)
+            descendants = descendants + _temp
             more_descendants = _temp
         return descendants
 
-- 
2.43.0


From e56b2aa121c7b0da39533570703c6f417322c859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:43 +0000
Subject: [PATCH 06/82] fix: ancestors by name are keyed by their own name

---
 nxt/nxt_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 9844b7e..708c6d5 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -247,7 +247,7 @@ class SpecLayer(object):
                 elif return_type == LayerReturnTypes.NodeTable:
                     node_table += [[parent_path, _node]]
                 elif return_type == LayerReturnTypes.NameDict:
-                    key = getattr(node, nxt_node.INTERNAL_ATTRS.NAME)
+                    key = getattr(_node, nxt_node.INTERNAL_ATTRS.NAME)
                     name_dict[key] = _node
                 node = _node
                 ppath_attr = nxt_node.INTERNAL_ATTRS.PARENT_PATH
-- 
2.43.0


From 3db6d88648eefc4442afcb6689f4f32fb8e3b87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 07/82] fix: structural edits no longer leave stale children of
 implied nodes in the layer's cache

---
 nxt/nxt_layer.py | 3 +++
 nxt/stage.py     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 708c6d5..a05d2d5 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -567,6 +567,9 @@ class SpecLayer(object):
             self._cached_implied_children.pop(parent_path)
         except KeyError:
             pass
+        # A node anywhere below an ancestor may imply one of its children
+        for ancestor_path in nxt_path.all_ancestor_paths(parent_path):
+            self._cached_implied_children.pop(ancestor_path, None)
 
     def get_exec_order(self, start_path):
         if start_path == nxt_path.WORLD:
diff --git a/nxt/stage.py b/nxt/stage.py
index 88de056..5fa464c 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1176,6 +1176,7 @@ class Stage:
             _node_data[node] = new_path
             layer.clear_node_child_cache(new_path)
             layer.clear_node_child_cache(old_path)
+            layer.clear_node_child_cache(node_parent_path)
             layer.clear_node_child_cache(parent_path)
             # Update descendants nodes
             old_paths += [old_path]
@@ -1194,6 +1195,7 @@ class Stage:
                                                                 new_path)
                     layer.clear_node_child_cache(path)
                     layer.clear_node_child_cache(updated_path)
+                    layer.clear_node_child_cache(n_parent_path)
                     layer.clear_node_child_cache(new_parent_path)
                     setattr(n, INTERNAL_ATTRS.PARENT_PATH, new_parent_path)
 
@@ -1355,6 +1357,7 @@ class Stage:
         layer._nodes_node_as_key[node] = new_node_path
         layer.clear_node_child_cache(new_node_path)
         layer.clear_node_child_cache(old_node_path)
+        layer.clear_node_child_cache(parent_path)
         if children:
             self.parent_nodes(children, new_node_path, layer, check_names=False)
         layer.refresh()
-- 
2.43.0


From af14956591008ff62942e66bd6fa8645049d00b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:31 +0000
Subject: [PATCH 08/82] fix: descendants include nodes below missing ones, a
 composite's children are only its direct ones

---
 nxt/nxt_layer.py | 34 +++++++++++++++++++---------------
 nxt/stage.py     |  3 ++-
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index a05d2d5..4c5e760 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -436,32 +436,36 @@ class SpecLayer(object):
                 raise ValueError('Ordered descedants can only return paths.')
             return self._ordered_descendants(node_path,
                                              include_implied=include_implied)
-        descendants = self.children(node_path, return_type,
-                                    include_implied=include_implied)
+        if include_implied and return_type != LayerReturnTypes.Path:
+            raise ValueError('When including implied, can only return path. '
+                             'Nothing else exists for implicit nodes.')
+        # Implied nodes are walked through even if they are not part of the
+        # answer, there may be existing nodes below them.
+        path_type = LayerReturnTypes.Path
+        descendants = self.children(node_path, path_type, include_implied=True)
         more_descendants = descendants
         while more_descendants:
             _temp = []
-            if return_type == LayerReturnTypes.Path:
-                for d_pth in more_descendants:
-                    _temp += self.children(d_pth, return_type,
-                                           include_implied=include_implied)
-            elif return_type == LayerReturnTypes.NodeTable:
-                for d_pth, d in more_descendants:
-                    _temp += self.children(d_pth, return_type,
-                                           include_implied=include_implied)
-            elif return_type == LayerReturnTypes.Node:
-                for d in more_descendants:
-                    _temp += self.children(self.get_node_path(d), return_type)
+            for d_pth in more_descendants:
+                _temp += self.children(d_pth, path_type, include_implied=True)
             descendants = descendants + _temp
             more_descendants = _temp
+        if include_implied:
+            return descendants
+        descendants = [p for p in descendants if self.node_exists(p)]
+        if return_type == LayerReturnTypes.NodeTable:
+            return [[p, self.lookup(p)] for p in descendants]
+        elif return_type == LayerReturnTypes.Node:
+            return [self.lookup(p) for p in descendants]
         return descendants
 
     def _ordered_descendants(self, node_path, include_implied=False):
         desc = []
         for child_path in self.children(node_path, ordered=True,
                                         return_type=LayerReturnTypes.Path,
-                                        include_implied=include_implied):
-            desc += [child_path]
+                                        include_implied=True):
+            if include_implied or self.node_exists(child_path):
+                desc += [child_path]
             desc += self._ordered_descendants(child_path,
                                               include_implied=include_implied)
         return desc
diff --git a/nxt/stage.py b/nxt/stage.py
index 5fa464c..f722bb8 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3157,7 +3157,8 @@ class Stage:
                     # Validate that this node's parent knows about it. Proxy
                     # nodes don't know about their "real" children until here.
                     cached = comp_layer.get_cached_child_paths(base_path) or []
-                    if node_path not in cached:
+                    parent_path = getattr(comp_node, INTERNAL_ATTRS.PARENT_PATH)
+                    if node_path not in cached and parent_path == base_path:
                         comp_layer.add_child_to_child_cache(base_path,
                                                             node_path,
                                                             comp_node)
-- 
2.43.0


From 33f0b5a256d6cab04eb496faea0366e85774fb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:57 +0000
Subject: [PATCH 09/82] fix: a unique node name is also unused on the given
 layer when that layer is muted

---
 nxt/stage.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index f722bb8..728dd95 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -449,10 +449,12 @@ class Stage:
                 name = name + '1'
         else:
             name = 'node'
+        scope = [layer]
         if not layer_only and not isinstance(layer, CompLayer):
-            layer = self.build_stage(from_idx=0)
+            # The layer itself is not part of the comp if its muted
+            scope += [self.build_stage(from_idx=0)]
         test_path = nxt_path.join_node_paths(parent_path, name)
-        if not layer.lookup(test_path):
+        if not any(lay.lookup(test_path) for lay in scope):
             # Already unique
             return name
         # Find valid name by incrementing trailing number as needed.
@@ -460,7 +462,7 @@ class Stage:
         test_name = name
         while True:
             test_ns = nxt_path.join_node_paths(parent_path, test_name)
-            if not layer.lookup(test_ns):
+            if not any(lay.lookup(test_ns) for lay in scope):
                 break
             trailing_num += 1
             test_name = name + str(trailing_num)
-- 
2.43.0


From 0c4b6fcea24b8bc770b1dad3e0fe9fe132c34a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:18 +0000
Subject: [PATCH 10/82] fix: deleting a node with descendants below a missing
 node no longer raises

---
 nxt/stage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 728dd95..b204a9e 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -822,7 +822,8 @@ class Stage:
         descendants = layer.descendants(node_path, layer.RETURNS.Path,
                                         include_implied=True)
         if delete_descendants:
-            remove_node_paths += descendants
+            remove_node_paths += [p for p in descendants
+                                  if layer.node_exists(p)]
         specs_to_remove = []
         # Fixme: Does not account for deleting child proxy nodes
         for remove_path in remove_node_paths:
-- 
2.43.0


From cf12592c303133b041928f0e5e6f032f5a038b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:22 +0000
Subject: [PATCH 11/82] fix: duplicating a node copies every descendant under
 its own name

---
 nxt/stage.py | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index b204a9e..0a56a6e 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -763,30 +763,26 @@ class Stage:
         dirty_nodes += dirty
         created_nodes += new_nodes
 
-        def dupe_descendants(new_parent, ref_parent, layer):
-            ref_path = layer.get_node_path(ref_parent)
-            created = []
-            dirty = []
-            for ref_child in layer.children(ref_path):
-                name = getattr(ref_child, INTERNAL_ATTRS.NAME)
-                data = get_node_as_dict(ref_child)
-                parent = new_parent
-                lay_idx = layer.layer_idx()
-                new, new_dirty = self.add_node(name=name, data=data,
-                                               parent=parent, layer=lay_idx)
-                dirty += new_dirty
-                created += new
-                desc_parent = new[-1]
-                new_desc, desc_dirty = dupe_descendants(desc_parent, ref_child,
-                                                        layer)
-                dirty += desc_dirty
-                created += new_desc
-            return created, dirty
         if descendants:
-            desc_created, desc_dirty = dupe_descendants(new_nodes[-1], node,
-                                                        layer)
-            dirty_nodes += desc_dirty
-            created_nodes += desc_created
+            ref_path = layer.get_node_path(node)
+            new_path = layer.get_node_path(new_nodes[-1])
+            for desc_path in layer.descendants(ref_path):
+                desc = layer.lookup(desc_path)
+                name = getattr(desc, INTERNAL_ATTRS.NAME)
+                parent_path = getattr(desc, INTERNAL_ATTRS.PARENT_PATH)
+                parent_path = nxt_path.replace_ancestor(parent_path, ref_path,
+                                                        new_path)
+                # The name may be in use by a proxy, that is no reason to
+                # change it, only an existing node is.
+                path = nxt_path.join_node_paths(parent_path, name)
+                taken = layer.node_exists(path)
+                desc_nodes, desc_dirty = self.add_node(name=name,
+                                                       data=get_node_as_dict(desc),
+                                                       parent=parent_path,
+                                                       layer=layer.layer_idx(),
+                                                       fix_names=taken)
+                dirty_nodes += desc_dirty
+                created_nodes += desc_nodes
         return created_nodes, dirty_nodes
 
     def delete_node(self, node, layer, comp_layer=None, remove_layer_data=True,
-- 
2.43.0


From f67119ac4c83f85d70e773626b83033f357b2a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:27 +0000
Subject: [PATCH 12/82] fix: renaming a node takes along descendants below a
 missing node

---
 nxt/stage.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 0a56a6e..aeeaede 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1310,14 +1310,12 @@ class Stage:
             raise TypeError("Layer provided is not the same object as the "
                             "node's source layer")
         old_node_path = layer.get_node_path(node)
-        rt = layer.RETURNS.Path
-        children_paths = layer.children(old_node_path, return_type=rt,
-                                        include_implied=True)
-        children = []
-        for child_path in children_paths:
-            child_node = layer.lookup(child_path)
-            if child_node is not None:
-                children += [child_node]
+        # Highest existing descendants, not all of their parents have to exist
+        children_paths = []
+        for desc_path in layer.descendants(old_node_path):
+            if not any(nxt_path.is_ancestor(desc_path, child_path)
+                       for child_path in children_paths):
+                children_paths += [desc_path]
 
         if not force:
             # Get the comp layer as the scope where possible to avoid re-comp
@@ -1357,8 +1355,13 @@ class Stage:
         layer.clear_node_child_cache(new_node_path)
         layer.clear_node_child_cache(old_node_path)
         layer.clear_node_child_cache(parent_path)
-        if children:
-            self.parent_nodes(children, new_node_path, layer, check_names=False)
+        for child_path in children_paths:
+            child_parent_path = nxt_path.get_parent_path(child_path)
+            child_parent_path = nxt_path.replace_ancestor(child_parent_path,
+                                                          old_node_path,
+                                                          new_node_path)
+            self.parent_nodes([layer.lookup(child_path)], child_parent_path,
+                              layer, check_names=False)
         layer.refresh()
         return new_node_path
 
-- 
2.43.0


From e42cd7b183617b60cb14ac6e2268d9108901bd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:40 +0000
Subject: [PATCH 13/82] fix: parenting a root removes it from the child order
 of the world node

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index aeeaede..239f7cf 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1133,7 +1133,7 @@ class Stage:
             old_path = layer.get_node_path(node)
             node_parent_path = getattr(node, INTERNAL_ATTRS.PARENT_PATH)
             name = getattr(node, INTERNAL_ATTRS.NAME)
-            if node_parent_path != nxt_path.WORLD:
+            if node_parent_path:
                 old_parent_node = layer.lookup(node_parent_path)
                 if old_parent_node is not None:
                     child_order = getattr(old_parent_node,
-- 
2.43.0


From 5404dc50981b0d39262997fbaaa719918bfc151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:37 +0000
Subject: [PATCH 14/82] fix: renaming a node does not list its new name twice
 in the child order

---
 nxt/stage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 239f7cf..019d682 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1334,10 +1334,10 @@ class Stage:
             child_order_copy = child_order[:]
             del child_order[:]
             for item in child_order_copy:
-                if item != old_name:
+                if item == old_name:
+                    item = name
+                if item not in child_order:
                     child_order += [item]
-                else:
-                    child_order += [name]
 
         layer_data_dicts = [META_DATA_KEY.POSITIONS, META_DATA_KEY.COLLAPSE,
                             '_nodes_path_as_key']
-- 
2.43.0


From f286d11504e73e90bd19524907187f3408428de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:48 +0000
Subject: [PATCH 15/82] fix: moving one of several nodes below a missing one
 keeps the missing one's place in the child order

---
 nxt/stage.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 019d682..6997237 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1151,7 +1151,12 @@ class Stage:
                         dummy_root = nxt_path.get_root_path(split_path)
                         child_name = nxt_path.node_name_from_node_path(dummy_root)
                         co = getattr(ancestor, INTERNAL_ATTRS.CHILD_ORDER)
-                        if child_name in co:
+                        # Other nodes may still imply that child
+                        implied_path = ancestor_path + child_name
+                        remaining = [p for p in _path_data if p != old_path
+                                     and nxt_path.is_ancestor(p, implied_path)
+                                     and not nxt_path.is_ancestor(p, old_path)]
+                        if child_name in co and not remaining:
                             co.remove(child_name)
             new_parent_node = layer.lookup(parent_path)
             if check_names:
-- 
2.43.0


From 25a003687d8d9a7c8fce9881f72be13e86dc97e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:56 +0000
Subject: [PATCH 16/82] fix: building a composite ends when nested instances
 repeat their own ancestors

---
 nxt/stage.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 6997237..1c0ae8d 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3033,6 +3033,15 @@ class Stage:
             logger.error('{} attempted to instance dependant!'
                          ''.format(node_path), links=[node_path])
             return to_do
+        # Check that a proxy doesn't repeat one of its own ancestors, there
+        # would be no end to it
+        if getattr(comp_node, INTERNAL_ATTRS.PROXY, False):
+            for source in self.get_instance_sources(comp_node, [], comp_layer):
+                source_path = comp_layer.get_node_path(source)
+                if nxt_path.is_ancestor(node_path, source_path):
+                    logger.error('{} attempted to instance an ancestor!'
+                                 ''.format(node_path), links=[node_path])
+                    return to_do
         setattr(comp_node, INTERNAL_ATTRS.INSTANCE_PATH, real_inst_path)
         self.extend_dirty_map(real_inst_path, node_path,
                               comp_layer._dirty_map)
-- 
2.43.0


From ded53a2ca98ef4392f3f17ef4ce978faa75c490a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 17/82] fix: the mute and solo state saved with a layer is
 loaded again

---
 nxt/nxt_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 4c5e760..7a8fd7d 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -109,8 +109,8 @@ class SpecLayer(object):
         self._cached_implied_children = {}
         self._name = UNTITLED
         self._layer_idx = 0
-        self.mute = False
-        self.solo = False
+        self.mute = layer_data.get(SAVE_KEY.MUTE, False)
+        self.solo = layer_data.get(SAVE_KEY.SOLO, False)
         self.filepath = layer_data.get(SAVE_KEY.FILEPATH)
         self.real_path = layer_data.get(SAVE_KEY.REAL_PATH)
         self.cwd = layer_data.get(SAVE_KEY.CWD)
-- 
2.43.0


From aa36e262c32120eb95b7e8ba0e939ff9824b7514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 18/82] fix: the lock of a layer, which is read from its file,
 is saved to it

---
 nxt/nxt_layer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 7a8fd7d..52290a0 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -897,6 +897,8 @@ class SpecLayer(object):
                 rm += [k]
         for k in rm:
             save_dict.pop(k)
+        if self.lock:
+            save_dict[SAVE_KEY.LOCK] = self.lock
         return self.order_save_dict(save_dict)
 
     def order_save_dict(self, save_dict):
@@ -909,9 +911,9 @@ class SpecLayer(object):
         """
         # order keys
         keys_order = (SAVE_KEY.VERSION, SAVE_KEY.ALIAS, SAVE_KEY.COLOR,
-                      SAVE_KEY.MUTE, SAVE_KEY.SOLO, SAVE_KEY.REFERENCES,
-                      SAVE_KEY.COMP_ORVERRIDES, SAVE_KEY.META_DATA,
-                      SAVE_KEY.NODES, SAVE_KEY.REAL_PATH)
+                      SAVE_KEY.MUTE, SAVE_KEY.SOLO, SAVE_KEY.LOCK,
+                      SAVE_KEY.REFERENCES, SAVE_KEY.COMP_ORVERRIDES,
+                      SAVE_KEY.META_DATA, SAVE_KEY.NODES, SAVE_KEY.REAL_PATH)
 
         result = OrderedDict()
         data_keys = list(save_dict.keys())
-- 
2.43.0


From f2b3329be776dec316b5a180b58392d99d855e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 19/82] fix: overrides are saved in the same order whatever
 order they were set in

---
 nxt/nxt_layer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 52290a0..265ed9e 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -875,8 +875,11 @@ class SpecLayer(object):
         return meta_data
 
     def get_comp_overrides(self):
-        return OrderedDict(sorted(self.comp_overrides.items(),
-                                  key=lambda x: x[0]))
+        overrides = OrderedDict()
+        for path in sorted(self.comp_overrides):
+            overrides[path] = OrderedDict(sorted(
+                self.comp_overrides[path].items(), key=lambda x: x[0]))
+        return overrides
 
     def get_save_data(self):
         """Returns save data for this layer.
-- 
2.43.0


From bb1383bc770be6591dbc846edba1453d7e7ee82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 20/82] fix: meta data is saved in a fixed order, without
 emptied sections

---
 nxt/nxt_layer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 265ed9e..9fe0cb0 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -861,7 +861,7 @@ class SpecLayer(object):
         aliases = OrderedDict(sorted(self.aliases.items(), key=lambda x: x[0]))
         colors = OrderedDict(sorted(self.colors.items(), key=lambda x: x[0]))
         locks = OrderedDict(sorted(self.locks.items(), key=lambda x: x[0]))
-        meta_data = OrderedDict(self._input_metadata)
+        meta_data = OrderedDict()
         if aliases:
             meta_data[META_DATA_KEY.ALIASES] = aliases
         if colors:
@@ -872,6 +872,12 @@ class SpecLayer(object):
             meta_data[META_DATA_KEY.POSITIONS] = positions
         if collapsed:
             meta_data[META_DATA_KEY.COLLAPSE] = collapsed
+        known = (META_DATA_KEY.ALIASES, META_DATA_KEY.COLORS,
+                 META_DATA_KEY.LOCKS, META_DATA_KEY.POSITIONS,
+                 META_DATA_KEY.COLLAPSE)
+        for key in sorted(self._input_metadata):
+            if key not in known:
+                meta_data[key] = self._input_metadata[key]
         return meta_data
 
     def get_comp_overrides(self):
-- 
2.43.0


From 1888fc97de22983df6f4ea27df1f0b882389e696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 21/82] fix: attribute values that are 0, false or empty are
 saved

---
 nxt/nxt_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_node.py b/nxt/nxt_node.py
index 394b9f6..1a6560f 100644
--- a/nxt/nxt_node.py
+++ b/nxt/nxt_node.py
@@ -257,7 +257,7 @@ def get_node_as_dict(spec_node):
             sub_attrs[META_ATTRS.as_save_key(META_ATTRS.COMMENT)] = comment
         if typ:
             sub_attrs[META_ATTRS.as_save_key(META_ATTRS.TYPE)] = typ
-        if value:
+        if value is not None:
             try:  # Marshal data
                 json.dumps(value)
                 val_copy = copy.deepcopy(value)
-- 
2.43.0


From 8a44c70df88e5e8dab1f820d8e3ca934d1e749dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 22/82] fix: removing a lock override looks it up in the lock
 overrides

---
 nxt/nxt_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 9fe0cb0..e96c41d 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -822,7 +822,7 @@ class SpecLayer(object):
         if not root:
             logger.error('Can not set colors override on top layer!')
         if lock is None:
-            if layer_path in list(root.colors.keys()):
+            if layer_path in list(root.locks.keys()):
                 root.locks.pop(layer_path)
         else:
             root.locks[layer_path] = lock
-- 
2.43.0


From cb2eec119d50e55edab5082300ec96d09e7ee295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 23/82] fix: setting a mute or solo override changes only the
 layer's own overrides

---
 nxt/nxt_layer.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index e96c41d..8f57f92 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -647,11 +647,8 @@ class SpecLayer(object):
         self.mute = state
 
     def set_mute_over(self, layer_path, state):
-        ref_data = get_comped_layer_overs(self, SAVE_KEY.COMP_ORVERRIDES)
-        r_dat = ref_data.get(layer_path, {})
+        r_dat = self.comp_overrides.setdefault(layer_path, {})
         r_dat[SAVE_KEY.MUTE] = state
-        ref_data[layer_path] = r_dat
-        self.comp_overrides = ref_data
 
     def get_soloed(self, local=False):
         soloed = getattr(self, SAVE_KEY.SOLO, False)
@@ -665,11 +662,8 @@ class SpecLayer(object):
         self.solo = state
 
     def set_solo_over(self, layer_path, state):
-        ref_data = get_comped_layer_overs(self, SAVE_KEY.COMP_ORVERRIDES)
-        r_dat = ref_data.get(layer_path, {})
+        r_dat = self.comp_overrides.setdefault(layer_path, {})
         r_dat[SAVE_KEY.SOLO] = state
-        ref_data[layer_path] = r_dat
-        self.comp_overrides = ref_data
 
     def add_reference(self, layer_path=None, layer=None, insert_idx=None):
         """Given a layer path, a layer object, or both, add a reference to
-- 
2.43.0


From c769f4ee2e940df19d40a84348ddfe1ed48d4c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:53 +0000
Subject: [PATCH 24/82] fix: overriding one of mute and solo keeps the override
 of the other on a lower layer

---
 nxt/nxt_layer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 8f57f92..8125d94 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -1160,11 +1160,13 @@ def get_node_local_attr_names(node_path, layers):
 
 def get_comped_layer_overs(layer, over_dict_attr):
     over_dict = {}
-    over_dict.update(getattr(layer, over_dict_attr, {}))
-    parent = layer.parent_layer
-    while parent:
-        over_dict.update(getattr(parent, over_dict_attr, {}))
-        parent = parent.parent_layer
+    while layer:
+        for path, over in getattr(layer, over_dict_attr, {}).items():
+            if isinstance(over, dict):
+                # A stronger layer only overrides the settings it mentions
+                over = dict(over_dict.get(path, {}), **over)
+            over_dict[path] = over
+        layer = layer.parent_layer
     return over_dict
 
 
-- 
2.43.0


From e24e7857c6ecece0f38eefe34d20d0fb6a58487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 25/82] fix: a composite no longer fails over contradictions
 that only exist while it is being built

---
 nxt/stage.py | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 1c0ae8d..b9fb6c2 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3124,6 +3124,7 @@ class Stage:
         root_count = 0  # Root node count
         total_count = 0  # Node count
         arc_idx = 0  # Used to avoid counting a node more than once
+        pending_bases = {}  # Bases each node gets, as tuples of (arc, base)
         # Instances must be sorted by their instance trace depth
         instance_sorted_nodes = self.sort_instances(comp_layer)
         for arc in CompArc.POST_PROXY_ARCS:
@@ -3187,10 +3188,7 @@ class Stage:
                     setattr(comp_node, attr, attr_value)
                     src_attr = attr + META_ATTRS.SOURCE
                     setattr(comp_node, src_attr, (src_layer, node_path))
-                if arc == CompArc.INSTANCE:
-                    self._safe_mro_add_base_class(comp_node, base)
-                else:
-                    self._add_base_class(comp_node, base)
+                pending_bases.setdefault(comp_node, []).append((arc, base))
                 # Assemble roots and node count
                 parent_path = getattr(comp_node, INTERNAL_ATTRS.PARENT_PATH)
                 no_parent = parent_path is nxt_path.WORLD
@@ -3201,8 +3199,42 @@ class Stage:
                     total_count += 1
                 del base, node_path, comp_node
             arc_idx += 1
+        self._add_pending_bases(pending_bases)
         return root_count, total_count
 
+    def _add_pending_bases(self, pending_bases):
+        """Adds the base classes found by `post_proxy_comp`. A node gets its
+        bases after the nodes it derives from got theirs, python would
+        otherwise see contradictions that only exist in between.
+        :param pending_bases: {CompNode: [(CompArc, base CompNode)]}
+        :return: None
+        """
+        error = None
+        while pending_bases:
+            stack = [next(iter(pending_bases))]
+            visited = set()
+            while stack:
+                comp_node = stack[-1]
+                visited.add(comp_node)
+                bases = pending_bases.get(comp_node, [])
+                todo = [b for _, b in bases
+                        if b in pending_bases and b not in visited]
+                if todo:
+                    stack.append(todo[0])
+                    continue
+                stack.pop()
+                pending_bases.pop(comp_node, None)
+                for arc, base in bases:
+                    try:
+                        if arc == CompArc.INSTANCE:
+                            self._safe_mro_add_base_class(comp_node, base)
+                        else:
+                            self._add_base_class(comp_node, base)
+                    except TypeError as e:
+                        error = error or e
+        if error:
+            raise error
+
     def targeted_comp_post_proxies(self, proxy_map, comp_layer=None):
         """Given a proxy map, this function finishes the compositing of nodes
         by mutating the base class tuple of each node in the proxy_map.
-- 
2.43.0


From 11d49f83edc18ddc5eee1036f440708849f6b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:51 +0000
Subject: [PATCH 26/82] fix: a composite no longer holds mirrors of nodes below
 an instance that do not exist

---
 nxt/stage.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index b9fb6c2..199d24a 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3110,6 +3110,19 @@ class Stage:
                 node_count += 1
                 added_inst_count += 1
             proxy_count += added_inst_count
+        # A proxy of an implied proxy is implied as well
+        implied_paths = {path for _, path, _ in implied_proxies}
+        proxies = [(node, path) for path, node in _path_data.items()
+                   if getattr(node, INTERNAL_ATTRS.PROXY)]
+        implied_count = -1
+        while implied_count != len(implied_paths):
+            implied_count = len(implied_paths)
+            for node, path in proxies:
+                source = getattr(node, INTERNAL_ATTRS.INSTANCE_PATH)
+                if source in implied_paths and path not in implied_paths:
+                    ns = nxt_path.str_path_to_node_namespace(path)
+                    implied_proxies += [(node, path, ns)]
+                    implied_paths.add(path)
         for implied_proxy, implied_proxy_path, ns in implied_proxies:
             proxy_count -= 1
             self.remove_node_from_comp_layer(implied_proxy_path,
-- 
2.43.0


From 63fadec53a66d0b4e64e1c948b5e2075fdaf9628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:22 +0000
Subject: [PATCH 27/82] fix: instance paths that children get from an instance
 are followed whatever order the nodes are visited in

---
 nxt/stage.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 199d24a..4495739 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -3086,7 +3086,9 @@ class Stage:
         loops = 0
         implied_proxies = []
         # Create all the proxy nodes called for by instance paths
-        while node_count != new_node_count:
+        inst_paths = {}
+        inst_changed = False
+        while node_count != new_node_count or inst_changed:
             new_node_count = node_count
             loops += 1
             added_inst_count = 0
@@ -3110,6 +3112,12 @@ class Stage:
                 node_count += 1
                 added_inst_count += 1
             proxy_count += added_inst_count
+            # An instance path that a node just got is only followed in the
+            # next loop
+            new_inst_paths = {path: getattr(node, INTERNAL_ATTRS.INSTANCE_PATH)
+                              for path, node in _path_data.items()}
+            inst_changed = new_inst_paths != inst_paths
+            inst_paths = new_inst_paths
         # A proxy of an implied proxy is implied as well
         implied_paths = {path for _, path, _ in implied_proxies}
         proxies = [(node, path) for path, node in _path_data.items()
-- 
2.43.0


From 3b0a398db3647d8f91905eeb76a859adc55c352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:23 +0000
Subject: [PATCH 28/82] fix: the world node is not listed among its own
 children

---
 nxt/nxt_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index 8125d94..b3470a1 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -336,6 +336,8 @@ class SpecLayer(object):
                         name_dict[key] = node
                 if not include_implied or not cache_implied:
                     continue
+                if path == nxt_path.WORLD:
+                    continue
                 # TODO: Caching the ancestors could save around 51ms per loop
                 if nxt_path.is_ancestor(path, node_path):
                     trim_depth = nxt_path.get_path_depth(node_path) + 1
-- 
2.43.0


From ffb7bff62b7f8334e607672bf581e7ebd1a0c662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:10 +0000
Subject: [PATCH 29/82] fix: attribute edits on a muted layer see the
 attributes it holds

get_node_local_attr_names filters to active layers, so on a muted layer a new
attribute could overwrite one of the same name, renaming did nothing and moved
nodes kept stale sources.
---
 nxt/nxt_layer.py | 15 ++++++++++-----
 nxt/stage.py     | 18 ++++++++++++------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index b3470a1..ef4175f 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -179,7 +179,8 @@ class SpecLayer(object):
         """
         self._node_table = []
         for path, node in self._nodes_path_as_key.items():
-            for attr in get_node_local_attr_names(path, [self]):
+            for attr in get_node_local_attr_names(path, [self],
+                                                  active_only=False):
                 source_attr = attr + nxt_node.META_ATTRS.SOURCE
                 setattr(node, source_attr, (self.real_path, path))
             node_ns = nxt_path.str_path_to_node_namespace(path)
@@ -1129,23 +1130,27 @@ def get_muted_layers(layers):
     return [layer for layer in layers if layer.get_muted()]
 
 
-def get_node_local_attr_names(node_path, layers):
+def get_node_local_attr_names(node_path, layers, active_only=True):
     """Get all attribute names that are local to the given node path within
     the given layers.
 
-    NOTE that layers are filtered to active layers.
+    NOTE that layers are filtered to active layers, unless told otherwise.
 
     :param node_path: node path to find local attributes of
     :type node_path: str
     :param layers: list of layers to look for attributes of given node within
     :type layers: list
+    :param active_only: if False layers that are muted, or not soloed, are
+    looked at too.
+    :type active_only: bool
     :return: list of local attributes found in given layers
     :rtype: list
     """
     local_attrs = []
     # TODO should we filter for active layers or expect callers to?
-    active_layers = get_active_layers(layers)
-    for layer in active_layers:
+    if active_only:
+        layers = get_active_layers(layers)
+    for layer in layers:
         node = layer.lookup(node_path)
         if not node:
             continue
diff --git a/nxt/stage.py b/nxt/stage.py
index 4495739..cc6602f 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -489,7 +489,8 @@ class Stage:
 
         # handle attr_name collisions with other attributes on the given node
         # by appending a digit
-        if isinstance(layer, CompLayer):
+        is_comp = isinstance(layer, CompLayer)
+        if is_comp:
             s, e = layer._layer_range
             layers = self._sub_layers[s:e]
         else:
@@ -502,7 +503,8 @@ class Stage:
             num_suffix = 1
         test_name = attr_name
         while True:
-            illegal_names = tuple(get_node_local_attr_names(node_path, layers))
+            illegal_names = tuple(get_node_local_attr_names(
+                node_path, layers, active_only=is_comp))
             illegal_names += INTERNAL_ATTRS.PROTECTED
             if test_name not in illegal_names:
                 break
@@ -1275,7 +1277,8 @@ class Stage:
         new_name = self.get_unique_attr_name(node_path, layer,
                                              attr_name=new_attr_name)
         # rename
-        if attr_name in get_node_local_attr_names(node_path, [layer]):
+        if attr_name in get_node_local_attr_names(node_path, [layer],
+                                                  active_only=False):
             setattr(node, new_name, getattr(node, attr_name))
             delattr(node, attr_name)
             for meta_attr_suffix in self.meta_attrs:
@@ -1416,7 +1419,8 @@ class Stage:
     def node_setattr_data(self, node, attr, layer, create, comp_layer=None,
                           **values):
         node_path = layer.get_node_path(node)
-        local_attrs = tuple(get_node_local_attr_names(node_path, [layer]))
+        local_attrs = tuple(get_node_local_attr_names(node_path, [layer],
+                                                      active_only=False))
         value_set = False
         dirties = []
         if attr == INTERNAL_ATTRS.NAME:
@@ -1775,12 +1779,14 @@ class Stage:
         if include_inherit:
             all_attrs = self.get_node_attr_names(node)
         else:
-            if isinstance(layer, CompLayer):
+            is_comp = isinstance(layer, CompLayer)
+            if is_comp:
                 s, e = layer._layer_range
                 layers = self._sub_layers[s:e]
             else:
                 layers = [layer]
-            all_attrs = get_node_local_attr_names(node_path, layers)
+            all_attrs = get_node_local_attr_names(node_path, layers,
+                                                  active_only=is_comp)
         attr_data = {}
         for attr in set(all_attrs):
             data = {}
-- 
2.43.0


From db39052645990a029f1ab0fdbb2d355b3852dcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 30/82] fix: code of a node on a muted layer can be set

---
 nxt/stage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index cc6602f..321e812 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2402,13 +2402,15 @@ class Stage:
         node_path = get_node_path(node)
         comp_node = comp_layer.lookup(node_path)
         new_comp_lines = None
-        if not code_lines:
+        if not code_lines and comp_node:
             inst, _ = self.safe_get_node_instance(comp_node, comp_layer)
             if inst:
                 new_comp_lines = getattr(inst, INTERNAL_ATTRS.COMPUTE)
         self.clear_code_lines(node)
         live_lines = getattr(node, INTERNAL_ATTRS.COMPUTE)
         live_lines.extend(code_lines)
+        if not comp_node:  # The layer may be muted
+            return live_lines
 
         live_comp_code = getattr(comp_node, INTERNAL_ATTRS.COMPUTE)
         if not code_lines and new_comp_lines is None:
-- 
2.43.0


From 8a7af178043bae63a03ce8b78fe2099657296db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 31/82] fix: asking for an unused name with empty text gives
 the default name

---
 nxt/stage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 321e812..fe06522 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -441,7 +441,7 @@ class Stage:
         :rtype: str
         """
         # validate potential name
-        if name is not None:
+        if name:
             name = self.legalize_name(name)
             # cannot be in the illegal node name list below
             illegal_node_names = ['__name__']
@@ -482,7 +482,7 @@ class Stage:
         """
         # validate attribute attr_name
         # TODO: Validate not shadowing
-        if attr_name is not None:
+        if attr_name:
             attr_name = self.legalize_name(attr_name)
         else:
             attr_name = 'attr'
-- 
2.43.0


From 56448357ed8d9787434c3f1b3e988ab02045d1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:22 +0000
Subject: [PATCH 32/82] fix: names reserved for meta attributes are not offered
 for attributes

---
 nxt/stage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index fe06522..f3072dc 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -506,7 +506,9 @@ class Stage:
             illegal_names = tuple(get_node_local_attr_names(
                 node_path, layers, active_only=is_comp))
             illegal_names += INTERNAL_ATTRS.PROTECTED
-            if test_name not in illegal_names:
+            # Names with the meta suffix would not be taken for an attr
+            if (test_name not in illegal_names and
+                    not test_name.endswith(META_ATTRS._suffix)):
                 break
             num_suffix += 1
             test_name = base_name + str(num_suffix)
-- 
2.43.0


From e98c586eeb4c2acb8a298dcac7fc9c4c19377e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:27 +0000
Subject: [PATCH 33/82] fix: relative paths expand from the world node

---
 nxt/nxt_path.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index 446dd80..e4bd9b3 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -134,7 +134,8 @@ def expand_relative_node_path(rel_path, start_node_path):
         if directive == '':
             continue
         # If we get this far, it must be the name of something.
-        current_path += NODE_SEP
+        if current_path != WORLD:
+            current_path += NODE_SEP
         current_path += directive
     return current_path
 
-- 
2.43.0


From 067c6df040c5304861049a1ba047d94af42b95ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:34 +0000
Subject: [PATCH 34/82] fix: resolving replaces tokens only, not values that
 look like a later token

---
 nxt/stage.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index f3072dc..8bd9556 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1877,7 +1877,7 @@ class Stage:
 
     def resolve(self, node, text, layer, **kwargs):
         text = str(text)
-        resolved = text
+        resolved = ''
         for token in tokens.get_standalone_tokens(text):
             token_content = tokens.get_token_content(token)
             token_type = Stage.determine_token_type(token_content)
@@ -1906,8 +1906,10 @@ class Stage:
             if rep is None:
                 logger.warning('Failed to resolve: {}'.format(token_content))
                 rep = ''
-            resolved = resolved.replace(token, rep)
-        return resolved
+            # Only this token is replaced, not text that looks like it
+            before, _, text = text.partition(token)
+            resolved += before + rep
+        return resolved + text
 
     def resolve_attr_ref_token(self, node, text, layer):
         """Resolve an attribute ref string into the value contained at that
-- 
2.43.0


From be4e80a7781503385d4639215b49b6066a25ba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:08 +0000
Subject: [PATCH 35/82] fix: the execution order of roots that link to each
 other in a circle ends

---
 nxt/nxt_layer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index ef4175f..b7e0c8d 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -631,7 +631,10 @@ class SpecLayer(object):
                     continue
                 if not match:
                     continue
-                prev_root_path = self.get_node_path(root)
+                root_path = self.get_node_path(root)
+                if root_path in exec_order:
+                    continue
+                prev_root_path = root_path
                 exec_order += [prev_root_path]
                 break  # for loop
             else:
-- 
2.43.0


From b4bcc2d44a37fcb3deec395dfbd1d72cab680550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:44 +0000
Subject: [PATCH 36/82] fix: node code keeps its own self, and its errors their
 place, after it executes other nodes

---
 nxt/stage.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 8bd9556..1743d71 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4093,7 +4093,11 @@ class Stage:
         _code, lines = self.get_node_code(layer_node, runtime_layer)
         runtime_layer._console.node_path = nxt_path.WORLD
         runtime_layer._console.running_lines = lines
-        runtime_layer._console.runcode(_code)
+        runtime_layer.running = True
+        try:
+            runtime_layer._console.runcode(_code)
+        finally:
+            runtime_layer.running = False
         runtime_layer.cache_layer.add_node(nxt_path.WORLD, layer_node)
         return runtime_layer
 
@@ -4177,6 +4181,10 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     # Convert the compute string to a code object for running in console
     _code, lines = stage.get_node_code(rt_node, runtime_layer, custom_code)
     good_keys = list(graph_globals.keys())
+    # When a node's code executes this node the console is given back to it
+    was_running = runtime_layer.running
+    outer = (console.node_path, console.running_lines,
+             graph_globals.get('self'))
     console.node_path = rt_path
     console.running_lines = lines
     console.globals['self'] = frame_node
@@ -4187,12 +4195,15 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     except GraphError:
         if not console.run_as_global:
             clean_globals(lines, good_keys, console.globals)
-        runtime_layer.running = False
         raise
     except (ExitNode, ExitGraph) as e:
         exit_exception = e
         pass
-    runtime_layer.running = False
+    finally:
+        runtime_layer.running = was_running
+        if was_running:
+            console.node_path, console.running_lines = outer[:2]
+            console.globals['self'] = outer[2]
     if not console.run_as_global:
         clean_globals(lines, good_keys, console.globals)
     for attr_name, pre_run_val in pre_run_cache.items():
-- 
2.43.0


From 074d236a3abfc0c2372816b7c8de1164303e76f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:57 +0000
Subject: [PATCH 37/82] fix: every name a node's code declares global is kept,
 and no other

---
 nxt/stage.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 1743d71..98c5c7c 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1,4 +1,5 @@
 # Built-in
+import ast
 import copy
 import logging
 import os
@@ -4225,15 +4226,11 @@ def clean_globals(code_lines, good_keys, global_dict):
     :param global_dict: global dict to clean
     :return: None
     """
-    code_lines = [l for l in code_lines if not l.startswith(('#', "'", '"'))]
     cur_keys = list(global_dict.keys())
-    sus_keys = [k for k in cur_keys if k not in good_keys]
     safe_keys = [] + good_keys
-    for sus_key in sus_keys:
-        for line in code_lines:
-            if 'global {}'.format(sus_key) in line:
-                safe_keys += [sus_key]
-                break
+    for ast_node in ast.walk(ast.parse('\n'.join(code_lines))):
+        if isinstance(ast_node, ast.Global):
+            safe_keys += ast_node.names
     for bad_key in [k for k in cur_keys if k not in safe_keys]:
         global_dict.pop(bad_key)
 
-- 
2.43.0


From f17be5fcdc38cef80d5cae7b426fa5bbf75676e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:18 +0000
Subject: [PATCH 38/82] fix: a value that can not be copied does not stop the
 nodes that inherit it

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 98c5c7c..d8268f6 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4174,7 +4174,7 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
         try:
             pre_run_cache[attr] = copy.deepcopy(real)
             setattr(frame_node, attr, copy.deepcopy(real))
-        except RuntimeError:
+        except (RuntimeError, TypeError):  # value can not be copied
             pre_run_cache[attr] = real
             setattr(frame_node, attr, real)
     # Cache the node before exec so we can see what it tried to run if it fails
-- 
2.43.0


From 46f1d757cf25a807a7342ff6001c3f2b589c2f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:24 +0000
Subject: [PATCH 39/82] fix: changing an attribute to an equal value of another
 type is a change

---
 nxt/stage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index d8268f6..525280f 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4209,7 +4209,9 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
         clean_globals(lines, good_keys, console.globals)
     for attr_name, pre_run_val in pre_run_cache.items():
         post_run_val = getattr(frame_node, attr_name)
-        if pre_run_val == post_run_val:
+        # Values such as 1, 1.0 and True are equal and still not the same
+        if type(pre_run_val) is type(post_run_val) and \
+                pre_run_val == post_run_val:
             continue
         # Push only changed values back to rt_node, which represents
         # what is inherited by children/instances
-- 
2.43.0


From eff9280f8323c912cca8577d3befc052ea2676b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:45 +0000
Subject: [PATCH 40/82] fix: a run goes on after node code deletes an attribute
 of its own

---
 nxt/stage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 525280f..5b25f0d 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4208,6 +4208,8 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     if not console.run_as_global:
         clean_globals(lines, good_keys, console.globals)
     for attr_name, pre_run_val in pre_run_cache.items():
+        if not hasattr(frame_node, attr_name):  # deleted by the code
+            continue
         post_run_val = getattr(frame_node, attr_name)
         # Values such as 1, 1.0 and True are equal and still not the same
         if type(pre_run_val) is type(post_run_val) and \
-- 
2.43.0


From b3aedc2a457cfae10408058a347c3b6fa17ebf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:29 +0000
Subject: [PATCH 41/82] fix: the cache holds the code of the world node as it
 was executed

---
 nxt/stage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 5b25f0d..1ca25a8 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4099,6 +4099,7 @@ class Stage:
             runtime_layer._console.runcode(_code)
         finally:
             runtime_layer.running = False
+        setattr(layer_node, INTERNAL_ATTRS.CACHED_CODE, '\n'.join(lines))
         runtime_layer.cache_layer.add_node(nxt_path.WORLD, layer_node)
         return runtime_layer
 
-- 
2.43.0


From fd9d9862b01ea2d5184981fb8e6fab14d08bff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:13 +0000
Subject: [PATCH 42/82] fix: list values node code changes through STAGE stay
 those of the run

---
 nxt/stage.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 1ca25a8..3e7a7fb 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4065,6 +4065,11 @@ class Stage:
             layer_node = CompNode.new(spec_layer)
             self.add_node_to_comp_layer(nxt_path.WORLD, layer_node, comp_layer,
                                         add_to_child_order=False)
+        # Node code can reach these as STAGE.attr, the layers keep their own
+        for attr in self.get_node_attr_names(layer_node):
+            value = getattr(layer_node, attr, None)
+            if isinstance(value, (list, dict, set)):
+                setattr(layer_node, attr, copy.deepcopy(value))
         # Set parameter overloads
         if parameters:
             self.set_runtime_parameters(parameters, runtime_layer)
-- 
2.43.0


From 48fa2bd2497a227a79ae5c3ad995fc6966573b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:30 +0000
Subject: [PATCH 43/82] fix: leaving the code of the world node early does not
 stop the run, leaving the graph there carries the run

---
 nxt/stage.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 3e7a7fb..a4db4ec 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4099,13 +4099,19 @@ class Stage:
         _code, lines = self.get_node_code(layer_node, runtime_layer)
         runtime_layer._console.node_path = nxt_path.WORLD
         runtime_layer._console.running_lines = lines
+        setattr(layer_node, INTERNAL_ATTRS.CACHED_CODE, '\n'.join(lines))
+        runtime_layer.cache_layer.add_node(nxt_path.WORLD, layer_node)
         runtime_layer.running = True
         try:
             runtime_layer._console.runcode(_code)
+        except ExitNode as exit_node:
+            logger.debug('Exited Node {}: {}'.format(nxt_path.WORLD,
+                                                     exit_node))
+        except ExitGraph as exit_graph:
+            exit_graph.runtime_layer = runtime_layer
+            raise
         finally:
             runtime_layer.running = False
-        setattr(layer_node, INTERNAL_ATTRS.CACHED_CODE, '\n'.join(lines))
-        runtime_layer.cache_layer.add_node(nxt_path.WORLD, layer_node)
         return runtime_layer
 
     def save_to_temp(self, comp_layer, output_dir=None):
-- 
2.43.0


From 0a976fe2ecc7c959ad9e3b93609d2abac53fb5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:46 +0000
Subject: [PATCH 44/82] fix: errors of custom code name the line that failed

---
 nxt/stage.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index a4db4ec..715ea13 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2356,16 +2356,15 @@ class Stage:
         :return: code
         """
         if custom_code:
-            func_lines = custom_code
-            code_lines = func_lines.split('\n')
+            code_lines = custom_code.split('\n')
         else:
             resolved = DATA_STATE.RESOLVED
             code_lines = self.get_node_code_lines(node=node, layer=layer,
                                                         data_state=resolved)
-            # Ensures the compute complies and executes with correct line
-            # numbers even if the compute is/startswith huge comment.
-            line_zero = ['# Blank Line']
-            func_lines = '\n'.join(line_zero + code_lines)
+        # Ensures the compute complies and executes with correct line
+        # numbers even if the compute is/startswith huge comment.
+        line_zero = ['# Blank Line']
+        func_lines = '\n'.join(line_zero + code_lines)
         path = layer.get_node_path(node)
         try:
             _code = compile(func_lines, path, 'exec')
-- 
2.43.0


From a353c3ae7edccf572482735202eed37f273f3dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 45/82] fix: a value that contains itself does not stop the
 cache from being saved

---
 nxt/nxt_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/nxt_node.py b/nxt/nxt_node.py
index 1a6560f..1637d11 100644
--- a/nxt/nxt_node.py
+++ b/nxt/nxt_node.py
@@ -262,7 +262,7 @@ def get_node_as_dict(spec_node):
                 json.dumps(value)
                 val_copy = copy.deepcopy(value)
                 sub_attrs[META_ATTRS.as_save_key(META_ATTRS.VALUE)] = val_copy
-            except TypeError:  # value is not JSON serializable
+            except (TypeError, ValueError):  # value is not JSON serializable
                 pass
         sorted_sub_attrs = OrderedDict(sorted(sub_attrs.items(),
                                               key=lambda x: x[0]))
-- 
2.43.0


From 3c718b34dc5a8017edb97e7fb64bbae076708110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:51 +0000
Subject: [PATCH 46/82] fix: a pre release file without file level data can be
 converted

---
 nxt/legacy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/legacy.py b/nxt/legacy.py
index 8380692..ebd4cd9 100644
--- a/nxt/legacy.py
+++ b/nxt/legacy.py
@@ -153,7 +153,7 @@ class V1(LegacyFileConverter):
         if self.has_opinion(child_order):
             flat_data['child_order'] = child_order
         path = parent_path + node_data['name']
-        if path in self.file_data['data'].get('start_nodes', []):
+        if path in self.file_data.get('data', {}).get('start_nodes', []):
             flat_data['start_point'] = True
         # Make sure we have a node's dict
         self.file_data.setdefault('nodes', OrderedDict())
-- 
2.43.0


From 671751dcade8ac7b32805f2a13f7fd6ec13b9452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:59 +0000
Subject: [PATCH 47/82] fix: converting a file of a newer version is refused
 instead of never ending

---
 nxt/legacy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nxt/legacy.py b/nxt/legacy.py
index ebd4cd9..37361a6 100644
--- a/nxt/legacy.py
+++ b/nxt/legacy.py
@@ -35,6 +35,10 @@ class FileConverter(object):
             self.file_data = FILE_VERSIONS[PRE_RELEASE].get_converted(self.file_data)
             self.version = self.determine_version()
         v = self.version
+        if v > nxt_version:
+            raise IOError('File version v{} is newer than {}. Please update '
+                          'nxt!'.format(self.file_data.get('version'),
+                                        GRAPH_VERSION.VERSION_STR))
         while True:
             if FILE_VERSIONS.get(v):
                 converter = FILE_VERSIONS[v]
-- 
2.43.0


From 4f095788eb942b5ffc4a1015ef93eea1afbe2824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:40 +0000
Subject: [PATCH 48/82] fix: expanding a path that can not be expanded leaves
 the working directory as it was

---
 nxt/nxt_path.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index e4bd9b3..b221aa2 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -26,12 +26,13 @@ def full_file_expand(path, start=None):
     orig_cwd = os.getcwd()
     if start:
         os.chdir(start)
-
-    full_path = unify_env_vars(path)
-    full_path = os.path.expandvars(full_path)
-    full_path = os.path.expanduser(full_path)
-    full_path = os.path.realpath(full_path)
-    os.chdir(orig_cwd)
+    try:
+        full_path = unify_env_vars(path)
+        full_path = os.path.expandvars(full_path)
+        full_path = os.path.expanduser(full_path)
+        full_path = os.path.realpath(full_path)
+    finally:
+        os.chdir(orig_cwd)
     full_path = full_path.replace(os.path.sep, '/')  # Thanks windows.
     return full_path
 
-- 
2.43.0


From 3f9bb522dc1e0a19d269df835f3a94e14c8a8380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:00 +0000
Subject: [PATCH 49/82] fix: a load that fails leaves the working directory as
 it was

---
 nxt/stage.py | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 715ea13..e33e501 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -353,27 +353,29 @@ class Stage:
         # chdir allows recursive loads to use paths relative to parent file.
         old_cwd = os.getcwd()
         os.chdir(os.path.dirname(real_path))
-        for sub_layer_path in layer_data.get(SAVE_KEY.REFERENCES, []):
-            try:
-                layer_data = nxt_io.load_file_data(sub_layer_path)
-                if not layer_data:
-                    continue
-            except IOError as e:
-                msg_pattern = "Failed to open {} referenced by {}"
-                logger.exception(msg_pattern.format(sub_layer_path, real_path))
+        try:
+            for sub_layer_path in layer_data.get(SAVE_KEY.REFERENCES, []):
                 try:
-                    parent_layer.sub_layer_paths.remove(sub_layer_path)
-                except ValueError:
-                    pass
-                bad_layer_dat = []
-                for sub_layer_dat in parent_layer.sub_layers:
-                    if sub_layer_dat.get(SAVE_KEY.FILEPATH) == sub_layer_path:
-                        bad_layer_dat += [sub_layer_dat]
-                for dat in bad_layer_dat:
-                    parent_layer.sub_layers.remove(dat)
-                continue
-            self.load_from_file(layer_data, parent_layer=parent_layer)
-        os.chdir(old_cwd)
+                    layer_data = nxt_io.load_file_data(sub_layer_path)
+                    if not layer_data:
+                        continue
+                except IOError as e:
+                    msg_pattern = "Failed to open {} referenced by {}"
+                    logger.exception(msg_pattern.format(sub_layer_path, real_path))
+                    try:
+                        parent_layer.sub_layer_paths.remove(sub_layer_path)
+                    except ValueError:
+                        pass
+                    bad_layer_dat = []
+                    for sub_layer_dat in parent_layer.sub_layers:
+                        if sub_layer_dat.get(SAVE_KEY.FILEPATH) == sub_layer_path:
+                            bad_layer_dat += [sub_layer_dat]
+                    for dat in bad_layer_dat:
+                        parent_layer.sub_layers.remove(dat)
+                    continue
+                self.load_from_file(layer_data, parent_layer=parent_layer)
+        finally:
+            os.chdir(old_cwd)
 
     def get_layer_save_data(self, layer_idx):
         layer = self._sub_layers[layer_idx]
-- 
2.43.0


From 69aa08819733e92963d296eab872dd7c7536412f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 50/82] fix: loading layers that reference each other in a
 circle ends

---
 nxt/stage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index e33e501..8cc22da 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -359,6 +359,9 @@ class Stage:
                     layer_data = nxt_io.load_file_data(sub_layer_path)
                     if not layer_data:
                         continue
+                    if self.check_for_layer_ref_cycle(parent_layer,
+                                                      layer_data['real_path']):
+                        raise IOError('Layer reference cycle!')
                 except IOError as e:
                     msg_pattern = "Failed to open {} referenced by {}"
                     logger.exception(msg_pattern.format(sub_layer_path, real_path))
-- 
2.43.0


From c9a5f7f55c734f3ad46b46653041ccec354b8367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:34 +0000
Subject: [PATCH 51/82] fix: saving file data without a path saves to a temp
 file

---
 nxt/nxt_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nxt/nxt_io.py b/nxt/nxt_io.py
index 2df457e..77ca18c 100644
--- a/nxt/nxt_io.py
+++ b/nxt/nxt_io.py
@@ -124,7 +124,9 @@ def save_file_data(save_data, filepath=None, file_format=FILE_FORMAT.ASCII):
     """
     start = time.time()
     ext = file_format
-    _, filepath_ext = os.path.splitext(filepath)
+    filepath_ext = ext
+    if filepath:
+        _, filepath_ext = os.path.splitext(filepath)
     if filepath_ext not in FILE_FORMAT._ALL:
         raise TypeError('Unknown file extension "{}"'.format(filepath_ext))
     elif filepath_ext != ext:
-- 
2.43.0


From e68bdc691779a62c5af14d5ee5ad205caa99c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:41 +0000
Subject: [PATCH 52/82] fix: data that can not be saved does not empty the file
 it should be saved to

---
 nxt/nxt_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nxt/nxt_io.py b/nxt/nxt_io.py
index 77ca18c..ff43321 100644
--- a/nxt/nxt_io.py
+++ b/nxt/nxt_io.py
@@ -142,9 +142,11 @@ def save_file_data(save_data, filepath=None, file_format=FILE_FORMAT.ASCII):
             pickle.dump(save_data, out_file, protocol=-1)
         gc.enable()
     else:
+        # Dump before the file is opened, opening it empties it.
+        text = json.dumps(save_data, indent=4, sort_keys=False,
+                          separators=(',', ': '))
         with open(filepath, 'w') as out_file:
-            json.dump(save_data, out_file, indent=4, sort_keys=False,
-                      separators=(',', ': '))
+            out_file.write(text)
     logger.info('Successfully saved "' + filepath + '"')
     update_time = str(int(round((time.time() - start) * 1000)))
     logger.debug("Saved in: " + update_time + "ms")
-- 
2.43.0


From 430a92e47fa1fe48d7dae6b42751b6037b0f7415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:46 +0000
Subject: [PATCH 53/82] fix: a configured file root that is not a folder is
 passed over

---
 nxt/plugins/file_fallbacks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/plugins/file_fallbacks.py b/nxt/plugins/file_fallbacks.py
index 467f66f..e61ebd2 100644
--- a/nxt/plugins/file_fallbacks.py
+++ b/nxt/plugins/file_fallbacks.py
@@ -229,7 +229,7 @@ def iter_env_roots(only_exsiting=True):
         return
     if NXT_FILE_ROOTS in os.environ:
         for root in os.environ.get(NXT_FILE_ROOTS).split(ROOT_PATH_SEP):
-            if only_exsiting and not os.path.exists(root):
+            if only_exsiting and not os.path.isdir(root):
                 continue
             yield root
 
-- 
2.43.0


From 527439692c9a43ab51675a1f9df81e09a25fb3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:57 +0000
Subject: [PATCH 54/82] fix: the temp copy of a graph keeps references that are
 plain file names

---
 nxt/stage.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 8cc22da..ac1636f 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4141,8 +4141,7 @@ class Stage:
             cwd = layer.get_cwd()
             save_data[SAVE_KEY.CWD] = cwd
             refs = save_data.get(SAVE_KEY.REFERENCES, [])
-            idx = 0
-            for ref in refs:
+            for idx, ref in enumerate(refs):
                 ref_file_name = os.path.basename(ref)
                 if ref_file_name == ref:
                     continue
@@ -4151,7 +4150,6 @@ class Stage:
                     if path == ref:
                         comp_overs[ref_file_name] = comp_overs.pop(ref)
                 refs[idx] = ref_file_name
-                idx += 1
             file_name = os.path.basename(layer.real_path)
             temp_path = os.path.join(output_dir, file_name)
             nxt_io.save_file_data(save_data, temp_path)
-- 
2.43.0


From d08e847fa2678f7f51d634da12243fd35d2edf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:51 +0000
Subject: [PATCH 55/82] fix: the temp copy of a graph holds every layer and
 override, also of files with the same name

---
 nxt/stage.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index ac1636f..5a87e31 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4136,21 +4136,38 @@ class Stage:
         s, e = comp_layer._layer_range
         layers = self._sub_layers[s:e]
         temp_path = None
-        for layer in reversed(layers):
+        # Each layer gets a file name of its own, they can have the same name
+        # in different folders
+        file_names = []
+        for idx, layer in enumerate(layers):
+            file_name = os.path.basename(layer.real_path)
+            if file_name in file_names:
+                file_name = '{}_{}'.format(idx, file_name)
+            file_names += [file_name]
+        for layer, file_name in reversed(list(zip(layers, file_names))):
             save_data = layer.get_save_data()
             cwd = layer.get_cwd()
             save_data[SAVE_KEY.CWD] = cwd
             refs = save_data.get(SAVE_KEY.REFERENCES, [])
+            comp_overs = save_data.get(SAVE_KEY.COMP_ORVERRIDES, {})
+            temp_overs = {}
+            sub_names = []
+            for sub_layer, sub_name in zip(layers, file_names):
+                if sub_layer.parent_layer is layer:
+                    sub_names += [(sub_layer.filepath, sub_name)]
+                if sub_layer.filepath in comp_overs:
+                    over = comp_overs[sub_layer.filepath]
+                    temp_overs[sub_name] = dict(over)
             for idx, ref in enumerate(refs):
-                ref_file_name = os.path.basename(ref)
-                if ref_file_name == ref:
-                    continue
-                comp_overs = save_data.get(SAVE_KEY.COMP_ORVERRIDES, {})
-                for path, over in list(comp_overs.items()):
-                    if path == ref:
-                        comp_overs[ref_file_name] = comp_overs.pop(ref)
-                refs[idx] = ref_file_name
-            file_name = os.path.basename(layer.real_path)
+                for sub_idx, (sub_path, sub_name) in enumerate(sub_names):
+                    if sub_path == ref:
+                        refs[idx] = sub_name
+                        sub_names.pop(sub_idx)
+                        break
+                else:
+                    refs[idx] = os.path.basename(ref)
+            if comp_overs:
+                save_data[SAVE_KEY.COMP_ORVERRIDES] = temp_overs
             temp_path = os.path.join(output_dir, file_name)
             nxt_io.save_file_data(save_data, temp_path)
         save_time = str(int(round((time.time() - start) * 1000)))
-- 
2.43.0


From 3aadcc4fc554871c221b38cf7c92df7495bb648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:46 +0000
Subject: [PATCH 56/82] fix: contexts with arguments start at the given node

---
 nxt/remote/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/remote/server.py b/nxt/remote/server.py
index 7ea5b13..b494938 100644
--- a/nxt/remote/server.py
+++ b/nxt/remote/server.py
@@ -124,6 +124,8 @@ class ServerFunctions(object):
                     '/.cache_file', cache_path]
         if parameters_file:
             cli_args += ['/.parameters_file', parameters_file]
+        if start_node:
+            cli_args += ['/enter/call_graph._start', start_node]
         script = os.path.join(os.path.dirname(__file__), '..', 'cli.py')
         script = os.path.abspath(script)
         script = script.replace(os.sep, '/')
@@ -134,8 +136,6 @@ class ServerFunctions(object):
             args = [context_exe] + extra_args + [script, '--'] + cli_args
         else:
             args = [context_exe, script] + cli_args
-            if start_node:
-                args += ['/enter/call_graph._start', start_node]
         # HACK solution only until refined context system rolls out to relate
         # format strings to context names to include space for cli args.
         if 'UE4Editor' in context_exe:
-- 
2.43.0


From 739e5ff43e11cc20fc4f1ee204e44c1b48837609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:37 +0000
Subject: [PATCH 57/82] fix: attribute text that only looks like a literal is
 text

---
 nxt/stage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 5a87e31..e3efead 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4273,7 +4273,10 @@ def clean_globals(code_lines, good_keys, global_dict):
 def determine_nxt_type(value):
     try:
         type_name = type(literal_eval(value)).__name__
-    except (ValueError, NameError, SyntaxError):
+    except (ValueError, NameError, SyntaxError, TypeError, MemoryError,
+            RuntimeError):
+        # Not only text that isn't python, but also text that only looks like a
+        # literal, "{{}}" or one too deep to be parsed
         type_name = 'raw'
     return type_name
 
-- 
2.43.0


From 0ba4f7a637897c45b9d5bcbd00dfba1a485bd02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:11 +0000
Subject: [PATCH 58/82] fix: tokens of other types are not taken for attribute
 tokens

---
 nxt/stage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index e3efead..a6b4984 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1835,7 +1835,8 @@ class Stage:
             return all_tokens
         filtered_tokens = []
         for token in all_tokens:
-            if Stage.determine_token_type(token) == token_type:
+            token_content = tokens.get_token_content(token)
+            if Stage.determine_token_type(token_content) == token_type:
                 filtered_tokens.append(token)
         return filtered_tokens
 
-- 
2.43.0


From 44bf98b132c95638f26c4c26ea2e15a7e047e179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:41 +0000
Subject: [PATCH 59/82] fix: attributes in file tokens resolve like they do
 anywhere else

---
 nxt/plugins/file_fallbacks.py | 99 ++++++++++++++++++++---------------
 1 file changed, 56 insertions(+), 43 deletions(-)

diff --git a/nxt/plugins/file_fallbacks.py b/nxt/plugins/file_fallbacks.py
index e61ebd2..15bb7e2 100644
--- a/nxt/plugins/file_fallbacks.py
+++ b/nxt/plugins/file_fallbacks.py
@@ -117,10 +117,7 @@ def generate_historical_values(first, last, value, stage, comp_node,
         active_layers = get_active_layers(requested_layers)
         if not active_layers:
             continue
-        historical_node = stage.infer_lower_comp(comp_node, comp_layer,
-                                                 active_layers=active_layers,
-                                                 depth=depth)
-        resolved = historical_resolve_file_ref(stage, historical_node,
+        resolved = historical_resolve_file_ref(stage, comp_node,
                                                value, comp_layer,
                                                active_layers,
                                                historical_depth=depth,
@@ -182,46 +179,62 @@ def historical_resolve_attr_ref(stage, string, comp_node, comp_layer,
     comp layer, that the historical comp should be built at.
     :return: string of the resolved attribute token
     """
-    tokens = stage.get_tokens_from(string, token_type=TOKENTYPE.ATTR)
-    resolved_token = string
-    for attr_token in tokens:
-        attr_ref = get_token_content(attr_token)
-        ref_path, ref_attr_name = nxt_path.path_attr_partition(attr_ref)
-        if ref_path and ref_attr_name:
-            attr_name = ref_attr_name
-            source_path = ref_path
+    resolved = ''
+    for full_token in get_standalone_tokens(string):
+        token_content = get_token_content(full_token)
+        token = stage.determine_token_type(token_content)
+        if token == TOKENTYPE.ATTR:
+            attr_ref = historical_resolve_attr_ref(stage, token_content,
+                                                   comp_node, comp_layer,
+                                                   active_layers,
+                                                   historical_depth)
+            value = historical_attr_value(stage, attr_ref, comp_node,
+                                          comp_layer, active_layers,
+                                          historical_depth)
+        elif token == file_fallback_token:
+            value = historical_resolve_file_ref(stage, comp_node, full_token,
+                                                comp_layer, active_layers,
+                                                token, historical_depth)
         else:
-            attr_name = attr_ref
-            source_path = get_node_path(comp_node)
-        # If this attr ref is to another node, go there and get the value
-        if source_path:
-            node_path = get_node_path(comp_node)
-            source_path = nxt_path.expand_relative_node_path(source_path,
-                                                             node_path)
-        source_node = comp_layer.lookup(source_path)
-        historical_node = stage.infer_lower_comp(source_node, comp_layer,
-                                                 active_layers,
-                                                 historical_depth)
-
-        value = getattr(historical_node, attr_name, None) or ''
-        more = get_standalone_tokens(value, token_types=(TOKENTYPE.ATTR,
-                                                         file_fallback_token))
-        for token_content in more:
-            token = stage.determine_token_type(get_token_content(token_content))
-            if token == TOKENTYPE.ATTR:
-                value = historical_resolve_attr_ref(stage, value, comp_node,
-                                                    comp_layer,
-                                                    active_layers,
-                                                    historical_depth)
-            elif token == file_fallback_token:
-                value = historical_resolve_file_ref(stage, comp_node,
-                                                    token_content, comp_layer,
-                                                    active_layers,
-                                                    token,
-                                                    historical_depth)
-        raw_token = make_token_str(attr_ref)
-        resolved_token = resolved_token.replace(raw_token, value)
-    return resolved_token
+            node = comp_layer.lookup(get_node_path(comp_node))
+            value = stage.resolve(node, full_token, comp_layer)
+        before, _, string = string.partition(full_token)
+        resolved += before + value
+    return resolved + string
+
+
+def historical_attr_value(stage, attr_ref, comp_node, comp_layer,
+                          active_layers, historical_depth=0):
+    """Get the value of the attr the given ref names at the historical depth
+    given, resolved from the node that holds it.
+    :param stage: Stage instance
+    :param attr_ref: string of attr name or attr path
+    :param comp_node: CompNode object
+    :param comp_layer: CompLayer object
+    :param active_layers: list of active layers
+    :param historical_depth: number of layers to step back
+    :return: string of the resolved value or empty string
+    """
+    node_path = get_node_path(comp_node)
+    source_path, attr_name = nxt_path.path_attr_partition(attr_ref)
+    if source_path and attr_name:
+        # This attr ref is to another node, go there and get the value
+        source_path = nxt_path.expand_relative_node_path(source_path,
+                                                         node_path)
+    else:
+        attr_name = attr_ref
+        source_path = node_path
+    source_node = comp_layer.lookup(source_path)
+    if source_node is None:
+        return ''
+    historical_node = stage.infer_lower_comp(source_node, comp_layer,
+                                             active_layers, historical_depth)
+    value = getattr(historical_node, attr_name, None)
+    if value is None:
+        return ''
+    return historical_resolve_attr_ref(stage, str(value), source_node,
+                                       comp_layer, active_layers,
+                                       historical_depth)
 
 
 def iter_env_roots(only_exsiting=True):
-- 
2.43.0


From 996eb967c1102028fc63a0842b23ac982faa5b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:54 +0000
Subject: [PATCH 60/82] fix: code and enabled state edits update the composite
 like a rebuild

---
 nxt/stage.py | 108 +++++++++++++++++++--------------------------------
 1 file changed, 40 insertions(+), 68 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index a6b4984..caee314 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2410,52 +2410,47 @@ class Stage:
 
     def set_node_code_lines(self, node, code_lines, comp_layer):
         node_path = get_node_path(node)
-        comp_node = comp_layer.lookup(node_path)
-        new_comp_lines = None
-        if not code_lines and comp_node:
-            inst, _ = self.safe_get_node_instance(comp_node, comp_layer)
-            if inst:
-                new_comp_lines = getattr(inst, INTERNAL_ATTRS.COMPUTE)
         self.clear_code_lines(node)
         live_lines = getattr(node, INTERNAL_ATTRS.COMPUTE)
         live_lines.extend(code_lines)
-        if not comp_node:  # The layer may be muted
-            return live_lines
-
-        live_comp_code = getattr(comp_node, INTERNAL_ATTRS.COMPUTE)
-        if not code_lines and new_comp_lines is None:
-            arcs = CompArc.get_bases_arc_dict(comp_node, comp_layer)
-            refs = arcs.get(CompArc.REFERENCE, [])
-            for ref in refs:
-                _code = getattr(ref, INTERNAL_ATTRS.COMPUTE)
-                if _code:
-                    new_comp_lines = _code
-                    break
-        if new_comp_lines is None:
-            new_comp_lines = live_lines
-        if live_comp_code is not live_lines or not live_lines:
-            setattr(comp_node, INTERNAL_ATTRS.COMPUTE, new_comp_lines)
-            live_comp_code = new_comp_lines
-
-        for dirty_path in comp_layer.get_node_dirties(node_path):
-            dirty_comp = comp_layer.lookup(dirty_path)
-            if not dirty_comp:
-                break
-            arcs = CompArc.get_bases_arc_dict(dirty_comp, comp_layer)
-            refs = arcs.get(CompArc.REFERENCE, [])
-            stop = False
-            for ref in refs:
-                if getattr(ref, INTERNAL_ATTRS.COMPUTE):
-                    stop = True
-                    break
-            if stop:
-                break
-            old_dirty_code = getattr(dirty_comp, INTERNAL_ATTRS.COMPUTE)
-            if live_comp_code is old_dirty_code and old_dirty_code:
-                break
-            setattr(dirty_comp, INTERNAL_ATTRS.COMPUTE, live_comp_code)
+        self.update_live_opinion(node_path, INTERNAL_ATTRS.COMPUTE, comp_layer)
         return live_lines
 
+    def update_live_opinion(self, node_path, attr, comp_layer):
+        """Updates an internal attr, that nodes get from their own specs or
+        else from their instance source, on the comp node at the given path
+        and on the comp nodes that depend on it.
+        :param node_path: String of node path
+        :param attr: String of internal attr name
+        :param comp_layer: CompLayer
+        :return: List of dirty node paths, aka nodes that were updated.
+        """
+        updated = []
+        if not comp_layer.lookup(node_path):  # The layer may be muted
+            return updated
+        for path in [node_path] + comp_layer.get_node_dirties(node_path):
+            comp_node = comp_layer.lookup(path)
+            if not comp_node or path in updated:
+                continue
+            value = None
+            has_op = False
+            source = comp_node
+            sources = []
+            while source and not has_op and source not in sources:
+                sources += [source]
+                arcs = CompArc.get_bases_arc_dict(source, comp_layer)
+                refs = arcs.get(CompArc.REFERENCE, [])
+                if getattr(source, INTERNAL_ATTRS.PROXY):
+                    refs = []  # Only a copy of the opinions of its source
+                for ref in refs:
+                    value, has_op = get_opinion(ref, attr)
+                    if has_op:
+                        break
+                source, _ = self.safe_get_node_instance(source, comp_layer)
+            setattr(comp_node, attr, value)
+            updated += [path]
+        return updated
+
     @staticmethod
     def clear_code_lines(node):
         del getattr(node, INTERNAL_ATTRS.COMPUTE)[:]
@@ -3974,8 +3969,7 @@ class Stage:
         setattr(node, INTERNAL_ATTRS.EXECUTE_IN + META_ATTRS.SOURCE,
                 (layer.real_path, node_path))
 
-    @staticmethod
-    def set_node_enabled(spec_node, state, comp_layer):
+    def set_node_enabled(self, spec_node, state, comp_layer):
         """Sets the enabled state of the given node. And updates the comp
         to accurately reflect the change without building a new comp layer.
         :param spec_node: Spec Node object
@@ -3986,31 +3980,9 @@ class Stage:
         :type comp_layer: CompLayer
         :return: List of dirty nodes, aka nodes that were updated.
         """
-        node_path = get_node_path(spec_node)
-        comp_node = comp_layer.lookup(node_path)
-        dirties = []
-        if not comp_node:
-            return dirties
-        update_it = True
-        for n in comp_node.__mro__[1:]:
-            # Ignore parents, self, and abstract base classes
-            if n in (spec_node, comp_node, object, SpecNode, Node):
-                continue
-            p = get_node_path(n)
-            if p in node_path:
-                continue
-            influencer_opinion = getattr(n, INTERNAL_ATTRS.ENABLED)
-            if influencer_opinion is None:
-                influencer_opinion = state
-            if influencer_opinion != state:
-                update_it = False
-        if update_it:
-            setattr(comp_node, INTERNAL_ATTRS.ENABLED, state)
-            for dnp in comp_layer.get_node_dirties(node_path):
-                dirties += [dnp]
-                dirty_node = comp_layer.lookup(dnp)
-                setattr(dirty_node, INTERNAL_ATTRS.ENABLED, state)
-        return dirties
+        setattr(spec_node, INTERNAL_ATTRS.ENABLED, state)
+        return self.update_live_opinion(get_node_path(spec_node),
+                                        INTERNAL_ATTRS.ENABLED, comp_layer)
 
     @staticmethod
     def get_layer_start_nodes(layer):
-- 
2.43.0


From 250dc96b5d2d9cbe22239eb32ffa0201a75a75a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:57 +0000
Subject: [PATCH 61/82] fix: skip missing and circular references when a layer
 is added to an open graph

---
 nxt/stage.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index caee314..62e86df 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -255,16 +255,29 @@ class Stage:
                     lower_sub_layer_data['layer'].parent_layer = new_sublayer
                     new_sublayer.sub_layers.append(lower_sub_layer_data)
         # Recursively load sub layers from the new layer
-        for ref in new_sublayer.sub_layers:
+        for ref in new_sublayer.sub_layers[:]:
             if ref.get('layer'):
                 continue
             file_path = ref[SAVE_KEY.FILEPATH]
-            d = os.path.dirname(layer_data[SAVE_KEY.REAL_PATH])
-            real_file_path = nxt_path.full_file_expand(file_path, d)
-            deep_sub_layer_data = nxt_io.load_file_data(real_file_path)
+            # chdir allows paths relative to the referencing file.
+            old_cwd = os.getcwd()
+            os.chdir(os.path.dirname(layer_data[SAVE_KEY.REAL_PATH]))
+            try:
+                deep_sub_layer_data = nxt_io.load_file_data(file_path)
+                if self.check_for_layer_ref_cycle(
+                        new_sublayer, deep_sub_layer_data['real_path']):
+                    raise IOError('Layer reference cycle!')
+            except IOError:
+                msg_pattern = "Failed to open {} referenced by {}"
+                logger.exception(msg_pattern.format(file_path,
+                                                    new_sublayer.real_path))
+                new_sublayer.sub_layers.remove(ref)
+                if file_path in new_sublayer.sub_layer_paths:
+                    new_sublayer.sub_layer_paths.remove(file_path)
+                continue
+            finally:
+                os.chdir(old_cwd)
             deep_sub_layer_data['parent_layer'] = new_sublayer
-            deep_sub_layer_data[SAVE_KEY.FILEPATH] = file_path
-            deep_sub_layer_data[SAVE_KEY.REAL_PATH] = real_file_path
             self.new_sublayer(deep_sub_layer_data, idx=idx + 1)
         else:
             new_sublayer.save()
-- 
2.43.0


From f864c8edd9c2fa049e4ee65f2b49e690f72e3fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:57 +0000
Subject: [PATCH 62/82] fix: removing a layer removes every layer it references

---
 nxt/stage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 62e86df..f3bff62 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -290,7 +290,7 @@ class Stage:
             layer = self._sub_layers[layer]
         file_path = layer.filepath
         layer_data = layer.sub_layers
-        for remove_sub_data in layer_data:
+        for remove_sub_data in layer_data[:]:
             layer_data.remove(remove_sub_data)
             ref_layer = remove_sub_data.get('layer')
             if not ref_layer:
-- 
2.43.0


From 2b9edfc59705b44c0ea8af68fc72d3a39efef30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:10 +0000
Subject: [PATCH 63/82] fix: layers referenced by a layer added to an open
 graph keep their order

---
 nxt/stage.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index f3bff62..9a88dac 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -254,7 +254,8 @@ class Stage:
                 if not inserted:
                     lower_sub_layer_data['layer'].parent_layer = new_sublayer
                     new_sublayer.sub_layers.append(lower_sub_layer_data)
-        # Recursively load sub layers from the new layer
+        # Recursively load sub layers from the new layer, strongest first
+        next_idx = idx + 1
         for ref in new_sublayer.sub_layers[:]:
             if ref.get('layer'):
                 continue
@@ -278,7 +279,9 @@ class Stage:
             finally:
                 os.chdir(old_cwd)
             deep_sub_layer_data['parent_layer'] = new_sublayer
-            self.new_sublayer(deep_sub_layer_data, idx=idx + 1)
+            layer_count = len(self._sub_layers)
+            self.new_sublayer(deep_sub_layer_data, idx=next_idx)
+            next_idx += len(self._sub_layers) - layer_count
         else:
             new_sublayer.save()
         for idx, sub_layer in enumerate(self._sub_layers):
-- 
2.43.0


From 8ec175275a76a6f5f55dc421fe541144dcd72d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:27 +0000
Subject: [PATCH 64/82] fix: removing a layer keeps equally spelled references
 of other layers

---
 nxt/stage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 9a88dac..c679a47 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -302,8 +302,6 @@ class Stage:
         for sub_layer in self._sub_layers:
             if sub_layer is layer:
                 continue
-            if file_path in sub_layer.sub_layer_paths:
-                sub_layer.sub_layer_paths.remove(file_path)
             sub_layer_data = sub_layer.sub_layers
             rm_d = [d for d in sub_layer_data
                     if d[SAVE_KEY.FILEPATH] == file_path]
@@ -311,6 +309,8 @@ class Stage:
                 ref_layer = rd['layer']
                 if ref_layer is layer:
                     sub_layer_data.remove(rd)
+                    if file_path in sub_layer.sub_layer_paths:
+                        sub_layer.sub_layer_paths.remove(file_path)
         if layer in self._sub_layers:
             self._sub_layers.remove(layer)
         for i, layer in enumerate(self._sub_layers):
-- 
2.43.0


From 82b6b529b5a86584060e8e7d7121d4bd6d3ce216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:51 +0000
Subject: [PATCH 65/82] fix: a layer put on top of an open graph references it
 like any other layer

---
 nxt/stage.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index c679a47..e0de402 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -235,29 +235,41 @@ class Stage:
                 lower_file_path = lower_layer.filepath
                 skip = False
                 for higher_layer in reversed(self._sub_layers[:idx - 1]):
-                    if lower_file_path in higher_layer.sub_layer_paths:
+                    if lower_layer.parent_layer is higher_layer:
                         skip = True
                         break
                 if skip:
                     continue
-                lower_real_path = lower_layer.real_path
-                lower_sub_layer_data = {SAVE_KEY.FILEPATH: lower_real_path,
-                                        'layer': lower_layer}
-                if lower_layer.filepath not in new_sublayer.sub_layer_paths:
-                    new_sublayer.sub_layer_paths.append(lower_layer.filepath)
+                lower_real_path = lower_layer.real_path or lower_file_path
                 inserted = False
+                start = os.path.dirname(new_sublayer.real_path)
                 for sl_dict in new_sublayer.sub_layers:
-                    if sl_dict[SAVE_KEY.FILEPATH] == lower_layer.filepath:
+                    file_path = sl_dict[SAVE_KEY.FILEPATH]
+                    if nxt_path.full_file_expand(file_path,
+                                                 start) == lower_real_path:
                         sl_dict['layer'] = lower_layer
+                        lower_layer.filepath = file_path
                         inserted = True
                         break
                 if not inserted:
-                    lower_sub_layer_data['layer'].parent_layer = new_sublayer
-                    new_sublayer.sub_layers.append(lower_sub_layer_data)
+                    # A path relative to the working directory leads nowhere
+                    # from the new layer
+                    lower_layer.filepath = lower_real_path
+                    new_sublayer.sub_layer_paths.append(lower_real_path)
+                    new_sublayer.sub_layers.append(
+                        {SAVE_KEY.FILEPATH: lower_real_path,
+                         'layer': lower_layer})
+                lower_layer.parent_layer = new_sublayer
         # Recursively load sub layers from the new layer, strongest first
         next_idx = idx + 1
         for ref in new_sublayer.sub_layers[:]:
             if ref.get('layer'):
+                # Already open, the next reference goes below all of it
+                next_idx = self._sub_layers.index(ref['layer']) + 1
+                for lower_layer in self._sub_layers[next_idx:]:
+                    if lower_layer.parent_layer is new_sublayer:
+                        break
+                    next_idx += 1
                 continue
             file_path = ref[SAVE_KEY.FILEPATH]
             # chdir allows paths relative to the referencing file.
-- 
2.43.0


From 0a5a93155bdb7fd957470bdb9bd076442d3380ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:27 +0000
Subject: [PATCH 66/82] fix: the opinions listed for an attribute or code are
 those of the layers, strongest first

---
 nxt/stage.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index e0de402..7245ec4 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4315,14 +4315,26 @@ def get_historical_opinions(comp_node, attr, comp_layer, include_local=False):
     """
     historicals = []
     is_proxy = getattr(comp_node, INTERNAL_ATTRS.PROXY)
+    sources = []
+    if attr in CompArc.INHERITANCE_MAP[CompArc.REFERENCE]:
+        sources += [comp_node]
+    if attr in CompArc.INHERITANCE_MAP[CompArc.INSTANCE]:
+        Stage.get_instance_sources(comp_node, sources, comp_layer)
+    source_paths = [comp_layer.get_node_path(n) for n in sources]
     for b in comp_node.__mro__:
         if attr in INTERNAL_ATTRS.ALL:
-            if b.__name__ not in (CompNode.__name__, SpecNode.__name__):
+            # Comp nodes and proxies repeat what they got from elsewhere
+            if (b.__name__ != SpecNode.__name__ or
+                    getattr(b, INTERNAL_ATTRS.PROXY)):
                 continue
-            arc = CompArc.get_arc(comp_node, b, comp_layer)
-            arc_attrs = CompArc.INHERITANCE_MAP.get(arc, [])
-            if attr not in arc_attrs and arc != CompArc.INSTANCE:
+            b_path = get_node_path(b)
+            if getattr(b, INTERNAL_ATTRS.NAME) == nxt_path.WORLD:
+                b_path = nxt_path.WORLD
+            if b_path not in source_paths:
                 continue
+        elif attr not in b.__dict__:
+            # What it inherits comes up where it is defined
+            continue
         val, has = get_opinion(b, attr)
         if has:
             source = getattr(b, attr+META_ATTRS.SOURCE)
-- 
2.43.0


From aa4090044e0b7320fbde258df22c1f6e780085db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:35 +0000
Subject: [PATCH 67/82] fix: references to attributes of parent nodes are
 reported with their full path

---
 nxt/stage.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 7245ec4..552a12e 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2337,11 +2337,12 @@ class Stage:
         out_refs = []
         for token in attr_tokens:
             ref = tokens.get_token_content(token)
-            if not nxt_path.is_attr_path(ref):
+            ref_path, ref_attr = nxt_path.path_attr_partition(ref)
+            if not ref_path or not ref_attr:
                 continue
             node_path = layer.get_node_path(node)
-            expanded = nxt_path.expand_relative_node_path(ref, node_path)
-            out_refs.append(expanded)
+            expanded = nxt_path.expand_relative_node_path(ref_path, node_path)
+            out_refs.append(nxt_path.make_attr_path(expanded, ref_attr))
         return out_refs
 
     def get_node_code_external_sources(self, node, layer):
@@ -2353,11 +2354,12 @@ class Stage:
         out_refs = []
         for token in attr_tokens:
             ref = tokens.get_token_content(token)
-            if not nxt_path.is_attr_path(ref):
+            ref_path, ref_attr = nxt_path.path_attr_partition(ref)
+            if not ref_path or not ref_attr:
                 continue
             node_path = layer.get_node_path(node)
-            expanded = nxt_path.expand_relative_node_path(ref, node_path)
-            out_refs.append(expanded)
+            expanded = nxt_path.expand_relative_node_path(ref_path, node_path)
+            out_refs.append(nxt_path.make_attr_path(expanded, ref_attr))
         return out_refs
 
     def get_node_code_string(self, node, layer, data_state=DATA_STATE.RAW):
-- 
2.43.0


From 2de0860e0e7dc6208cc9f1cadafccf232c0a7834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:53 +0000
Subject: [PATCH 68/82] fix: tokens before a token with another one in it are
 found

---
 nxt/tokens.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/nxt/tokens.py b/nxt/tokens.py
index 8359f06..80bd793 100644
--- a/nxt/tokens.py
+++ b/nxt/tokens.py
@@ -166,16 +166,11 @@ def get_atomic_tokens(value):
     :return: tokens found
     :rtype: list
     """
-    found = []
-    prefix, content, suffix = atomic_token_partition(value)
-    if not content:
-        return found
-    found += [content]
-    if prefix:
-        found += get_atomic_tokens(prefix)
-    if suffix:
-        found += get_atomic_tokens(suffix)
-    found = set(found)
+    found = set()
+    # Every opening is considered, as what follows one that is not closed
+    # before the next opens can still be resolvable.
+    for opened in value.split(TOKEN_PREFIX)[1:]:
+        content, sep, _ = opened.partition(TOKEN_SUFFIX)
+        if sep:
+            found.add(make_token_str(content))
     return found
-
-
-- 
2.43.0


From 0f62b429b88adb7932a51d34185c0d8691cfeac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:01 +0000
Subject: [PATCH 69/82] fix: data taken from a node no longer changes with
 later edits of the node

---
 nxt/stage.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 552a12e..8d3197d 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1435,6 +1435,9 @@ class Stage:
             if internal_attr is INTERNAL_ATTRS.COMPUTE:
                 attr_key = 'code'  # TODO: Refactor see #656
             val = node_data.get(attr_key)
+            if isinstance(val, list):
+                # Later edits of the node must not change the data
+                val = val[:]
             allow = internal_attr in INTERNAL_ATTRS.ALLOW_NO_OPINION
             if has_opinion(val) or allow:
                 setattr(node, internal_attr, val)
@@ -1444,6 +1447,9 @@ class Stage:
         for internal_attr in INTERNAL_ATTRS.UNTRACKED:
             attr_key = INTERNAL_ATTRS.as_save_key(internal_attr)
             val = node_data.get(attr_key)
+            if isinstance(val, list):
+                # Later edits of the node must not change the data
+                val = val[:]
             allow = internal_attr in INTERNAL_ATTRS.ALLOW_NO_OPINION
             if has_opinion(val) or allow:
                 setattr(node, internal_attr, val)
@@ -1811,6 +1817,9 @@ class Stage:
                 key = INTERNAL_ATTRS.as_save_key(internal_attr)
                 if internal_attr is INTERNAL_ATTRS.COMPUTE:
                     key = 'code'  # TODO: Refactor see #656
+                if isinstance(val, list):
+                    # Later edits of the node must not change the data
+                    val = val[:]
                 node_data[key] = val
         if include_inherit:
             all_attrs = self.get_node_attr_names(node)
-- 
2.43.0


From d28aef9ad12121daf22a3f4df290ed3120eb09af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:15 +0000
Subject: [PATCH 70/82] fix: a layer can be removed from a graph which has just
 been loaded

---
 nxt/stage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index 8d3197d..9a65655 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -148,6 +148,7 @@ class Stage:
         self.current_node = None
         if layer_data:
             self.load_from_file(layer_data)
+            self.assign_layer_parents(self._sub_layers)
         else:
             self.new_layer(0, {'name': name})
 
-- 
2.43.0


From 1b9654ccb26be39dd3f2c4211d464879659b4981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:09 +0000
Subject: [PATCH 71/82] fix: nothing is left of an instance path which is
 replaced by that of the parent

---
 nxt/nxt_layer.py |  9 +++++++++
 nxt/stage.py     | 43 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 52 insertions(+)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index b7e0c8d..bdd29a9 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -974,6 +974,15 @@ class CompLayer(SpecLayer):
     def layer_idx(self):
         return self._layer_range[0]
 
+    def clear_nodes(self):
+        """Removes all the nodes and everything known about them."""
+        self._node_table = []
+        self._nodes_path_as_key.clear()
+        self._nodes_node_as_key.clear()
+        self._cached_children.clear()
+        self._cached_implied_children.clear()
+        self._dirty_map = {}
+
     def get_node_dirties(self, node_path):
         """Get all nodes that depend on the given node path. The given node
         path will be the 0th item in the return list.
diff --git a/nxt/stage.py b/nxt/stage.py
index 9a65655..be69f3e 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2721,6 +2721,25 @@ class Stage:
         '''Proxy comp'''
         proxy_count, loops = self.comp_proxies(comp_layer=comp_layer,
                                                node_count=node_count)
+        # Nothing may be left of an instance path which was replaced
+        ignored = set()
+        replaced = self.get_replaced_instances(comp_layer)
+        while replaced - ignored:
+            # What is below is only known once the nodes above are settled
+            new = {path for path in replaced - ignored
+                   if not replaced.difference(ignored).intersection(
+                       nxt_path.all_ancestor_paths(path))}
+            ignored = new | {path for path in ignored if not
+                             new.intersection(
+                                 nxt_path.all_ancestor_paths(path))}
+            comp_layer.clear_nodes()
+            node_count = self.comp_pre_proxies(comp_layer=comp_layer)
+            for path in ignored:
+                setattr(comp_layer.lookup(path),
+                        INTERNAL_ATTRS.INSTANCE_PATH, None)
+            proxy_count, loops = self.comp_proxies(comp_layer=comp_layer,
+                                                   node_count=node_count)
+            replaced = self.get_replaced_instances(comp_layer)
         '''Post proxy comp'''
         try:
             root_count, total_count = self.post_proxy_comp(comp_layer)
@@ -3193,6 +3212,30 @@ class Stage:
                                              rm_layer_data=False)
         return proxy_count, loops
 
+    @staticmethod
+    def get_replaced_instances(comp_layer):
+        """A node that mirrors a child of the instance source of its parent
+        doesn't keep an instance path of its own. Gets all nodes like that.
+        :param comp_layer: CompLayer
+        :return: set of node paths
+        """
+        replaced = set()
+        for path, node in comp_layer._nodes_path_as_key.items():
+            if getattr(node, INTERNAL_ATTRS.PROXY):
+                continue
+            for base in node.__bases__:
+                own, has = get_opinion(base, INTERNAL_ATTRS.INSTANCE_PATH)
+                if has:
+                    break
+            else:
+                continue
+            if not own or own is nxt_path.WORLD:
+                continue
+            own = nxt_path.expand_relative_node_path(own, path)
+            if own != getattr(node, INTERNAL_ATTRS.INSTANCE_PATH):
+                replaced.add(path)
+        return replaced
+
     def post_proxy_comp(self, comp_layer):
         roots = []  # List to track the root nodes
         root_count = 0  # Root node count
-- 
2.43.0


From b0612dd8dc518d6e4e02fa4c147e9e4d0238a7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:00 +0000
Subject: [PATCH 72/82] fix: records sent to the log socket are received whole
 however they are cut

A recv of the four bytes of a length may return fewer of them: the record
and all those after it were lost. And where the other process ended half way
through a record the thread kept receiving nothing, forever.
---
 nxt/nxt_log.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index 1327939..472c29a 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -302,13 +302,13 @@ class LogRecordStreamHandler(SocketServer.StreamRequestHandler):
         according to whatever policy is configured locally.
         """
         while True:
-            chunk = self.connection.recv(4)
+            chunk = self.receive(4)
             if len(chunk) < 4:
                 break
             slen = struct.unpack('>L', chunk)[0]
-            chunk = self.connection.recv(slen)
-            while len(chunk) < slen:
-                chunk = chunk + self.connection.recv(slen - len(chunk))
+            chunk = self.receive(slen)
+            if len(chunk) < slen:
+                break
             obj = self.un_pickle(chunk)
             level_name = obj.get('levelname')
             if level_name:
@@ -316,6 +316,18 @@ class LogRecordStreamHandler(SocketServer.StreamRequestHandler):
             record = logging.makeLogRecord(obj)
             self.handle_log_record(record)
 
+    def receive(self, size):
+        """Receive `size` bytes, less only if the connection is closed before
+        that. A single recv may return any part of what was asked for.
+        """
+        data = b''
+        while len(data) < size:
+            chunk = self.connection.recv(size - len(data))
+            if not chunk:
+                break
+            data += chunk
+        return data
+
     def un_pickle(self, data):
         return pickle.loads(data)
 
-- 
2.43.0


From 22af198d48fe127658e7145c8922a2e20f1f0e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:32 +0000
Subject: [PATCH 73/82] fix: empty custom code does not run the code of the
 node

Running an empty piece of code, or one whose tokens resolve to nothing, in
the context of a node ran the node's own code in its place.
---
 nxt/stage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index be69f3e..2450160 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -2401,7 +2401,7 @@ class Stage:
         actual compute.
         :return: code
         """
-        if custom_code:
+        if custom_code is not None:
             code_lines = custom_code.split('\n')
         else:
             resolved = DATA_STATE.RESOLVED
@@ -4236,7 +4236,7 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     rt_path = runtime_layer.get_node_path(rt_node)
     frame_node = type('frame', (), {})
     setattr(frame_node, INTERNAL_ATTRS.NODE_PATH, rt_path)
-    if custom_code:
+    if custom_code is not None:
         code = custom_code
     else:
         code = stage.get_node_code_string(node=rt_node,
-- 
2.43.0


From dcb3e4cc0227c9d1d51f4454b85ef9f9f4d37e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:32 +0000
Subject: [PATCH 74/82] fix: an unclosed token in custom code leaves the tokens
 of other lines be

The code of nodes is resolved line by line, custom code was resolved as a
whole: one line with an opening of a token and no end kept every token of it
from being resolved.
---
 nxt/stage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 2450160..3d1fae7 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4025,7 +4025,9 @@ class Stage:
             runtime_layer = layer
         exec_start = time.time()
         rt_node = runtime_layer.lookup(node_path)
-        resolved_code = self.resolve(rt_node, code_string, runtime_layer)
+        # Tokens do not span lines, as in the code of nodes
+        resolved_code = '\n'.join(self.resolve(rt_node, line, runtime_layer)
+                                  for line in code_string.split('\n'))
         runtime_layer.cache_layer.set_node_enter_time(node_path)
         try:
             run(runtime_layer, stage=self, rt_node=rt_node,
-- 
2.43.0


From 664e0b4a1945ee93989d091c2d94209a45894a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:24 +0000
Subject: [PATCH 75/82] fix: the children a layer remembers are not the lists
 it hands out

---
 nxt/nxt_layer.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/nxt/nxt_layer.py b/nxt/nxt_layer.py
index bdd29a9..5497fdf 100644
--- a/nxt/nxt_layer.py
+++ b/nxt/nxt_layer.py
@@ -299,14 +299,6 @@ class SpecLayer(object):
             name_dict = copy.copy(children_cache[LayerReturnTypes.NameDict])
             cache_real = False
         else:
-            self._cached_children[node_path] = {LayerReturnTypes.Node:
-                                                children_nodes,
-                                                LayerReturnTypes.Path:
-                                                children_paths,
-                                                LayerReturnTypes.NodeTable:
-                                                node_table,
-                                                LayerReturnTypes.NameDict:
-                                                name_dict}
             cache_real = True
         # Lookup implied cache
         cache_implied = False
@@ -346,8 +338,12 @@ class SpecLayer(object):
                     if trimmed not in implied_children:
                         implied_children += [trimmed]
         if cache_real:
-            k = LayerReturnTypes.Path
-            self._cached_children[node_path][k] = children_paths[:]
+            # The lists below are handed out, the cache keeps its own
+            self._cached_children[node_path] = {
+                LayerReturnTypes.Node: children_nodes[:],
+                LayerReturnTypes.Path: children_paths[:],
+                LayerReturnTypes.NodeTable: node_table[:],
+                LayerReturnTypes.NameDict: copy.copy(name_dict)}
         if include_implied:
             for imp in implied_children:
                 if imp not in children_paths:
-- 
2.43.0


From 7bf04c913a217066ad4a30b2d2cb1f2cf4c0fdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:59 +0000
Subject: [PATCH 76/82] fix: changing what is inside of a value to an equal
 value of another type is a change

---
 nxt/stage.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index 3d1fae7..b7aa8c6 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -4300,9 +4300,7 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
         if not hasattr(frame_node, attr_name):  # deleted by the code
             continue
         post_run_val = getattr(frame_node, attr_name)
-        # Values such as 1, 1.0 and True are equal and still not the same
-        if type(pre_run_val) is type(post_run_val) and \
-                pre_run_val == post_run_val:
+        if is_same_value(pre_run_val, post_run_val):
             continue
         # Push only changed values back to rt_node, which represents
         # what is inherited by children/instances
@@ -4312,6 +4310,27 @@ def run(runtime_layer, stage=None, rt_node=None, custom_code=None):
     return console.globals
 
 
+def is_same_value(a, b):
+    """Whether code can not tell the values apart. Values such as 1, 1.0 and
+    True are equal and still not the same, also inside of other values.
+
+    :param a: any value
+    :param b: any value
+    :return: bool
+    """
+    if type(a) is not type(b):
+        return False
+    if isinstance(a, (list, tuple)):
+        return len(a) == len(b) and all(map(is_same_value, a, b))
+    if isinstance(a, dict):
+        return is_same_value(list(a.items()), list(b.items()))
+    if isinstance(a, (set, frozenset)):
+        return a == b and sorted(map(repr, a)) == sorted(map(repr, b))
+    if isinstance(a, (float, complex)):
+        return repr(a) == repr(b)
+    return a == b
+
+
 def clean_globals(code_lines, good_keys, global_dict):
     """Super hack that tries to remove non global keyword var from the globals
     :param code_lines: list of strings
-- 
2.43.0


From 170c4dbd14827cca3d6008ab6dfe38f105c3ee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:21 +0000
Subject: [PATCH 77/82] fix: environment variables of other platforms keep
 their names and the text around them

---
 nxt/nxt_path.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/nxt/nxt_path.py b/nxt/nxt_path.py
index b221aa2..7714edb 100644
--- a/nxt/nxt_path.py
+++ b/nxt/nxt_path.py
@@ -38,10 +38,11 @@ def full_file_expand(path, start=None):
 
 
 # Regex patterns for finding all env vars.
-# NOTE match uses platform specific identifier, returns name only in group1.
+# NOTE match uses platform specific identifier, returns name only in group
+# "name".
 PLATFORM_VAR_PATTERN_MAP = {
-    'linux': re.compile(r"\$([a-zA-Z_]*)"),
-    'win32': re.compile(r"%([a-zA-Z_]*)%")
+    'linux': re.compile(r"\$(\{)?(?P<name>[a-zA-Z_][a-zA-Z0-9_]*)(?(1)\})"),
+    'win32': re.compile(r"%(?P<name>[a-zA-Z_][a-zA-Z0-9_]*)%")
 }
 PLATFORM_VAR_PATTERN_MAP['linux2'] = PLATFORM_VAR_PATTERN_MAP['linux']
 PLATFORM_VAR_PATTERN_MAP['darwin'] = PLATFORM_VAR_PATTERN_MAP['linux']
@@ -92,14 +93,22 @@ def unify_env_vars(path, target_platform=sys.platform):
         if pattern in replaced_patterns:
             continue
         replaced_patterns += [pattern]
-        found_vars = re.findall(pattern, path)
-        for var in found_vars:
-            bad_var = PLATFORM_VAR_FORMAT_MAP[platform].format(var)
-            new_var = PLATFORM_VAR_FORMAT_MAP[target_platform].format(var)
-            result = result.replace(bad_var, new_var)
+        result = pattern.sub(lambda m: _format_env_var(m, target_platform),
+                             result)
     return result
 
 
+def _format_env_var(match, target_platform):
+    """Formats the variable found in a path for the target platform. Braces
+    are used where the name would otherwise run into the text after it.
+    """
+    name = match.group('name')
+    next_char = match.string[match.end():match.end() + 1]
+    if target_platform != 'win32' and re.match('[a-zA-Z0-9_]', next_char):
+        name = '{' + name + '}'
+    return PLATFORM_VAR_FORMAT_MAP[target_platform].format(name)
+
+
 # NODE SECTION
 NODE_SEP = '/'
 ATTR_SEP = '.'
-- 
2.43.0


From 99f4522367c72f4323784ae572be698c48c0dc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:25 +0000
Subject: [PATCH 78/82] fix: the collapse state of all descendants moves with a
 moved node

---
 nxt/stage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nxt/stage.py b/nxt/stage.py
index b7aa8c6..fac606a 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -1232,6 +1232,8 @@ class Stage:
                                                              new_path)
                     _path_data[updated_path] = _path_data.pop(path)
                     _node_data[n] = updated_path
+                    if path in _collapse_data:
+                        _collapse_data[updated_path] = _collapse_data.pop(path)
                     n_parent_path = getattr(n, INTERNAL_ATTRS.PARENT_PATH)
                     new_parent_path = nxt_path.replace_ancestor(n_parent_path,
                                                                 old_path,
-- 
2.43.0


From 0c6ac6456bdaae7ba973479b2a1e6ad5159c3604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:25 +0000
Subject: [PATCH 79/82] fix: with an open composite, names of a muted target
 layer are not given again

---
 nxt/stage.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nxt/stage.py b/nxt/stage.py
index fac606a..484ee7c 100644
--- a/nxt/stage.py
+++ b/nxt/stage.py
@@ -453,7 +453,7 @@ class Stage:
         return re.sub(pattern, '_', name)
 
     def get_unique_node_name(self, name, layer, parent_path=None,
-                             layer_only=False):
+                             layer_only=False, target_layer=None):
         """Get an unused node name. If given a name preference, the resulting
         name will increment an integer if needed to create a unique name. If
         layer only is False and the layer provided is not a comp layer a
@@ -472,6 +472,9 @@ class Stage:
         :type parent_path: str
         :param layer_only: If false a new comp layer will be created (slow)
         :type layer_only: bool
+        :param target_layer: Layer the name is used in, not part of the comp
+        layer if its muted.
+        :type target_layer: SpecLayer
         :return: an unused node name.
         :rtype: str
         """
@@ -485,6 +488,8 @@ class Stage:
         else:
             name = 'node'
         scope = [layer]
+        if target_layer is not None and target_layer is not layer:
+            scope += [target_layer]
         if not layer_only and not isinstance(layer, CompLayer):
             # The layer itself is not part of the comp if its muted
             scope += [self.build_stage(from_idx=0)]
@@ -681,7 +686,8 @@ class Stage:
             name = self.get_unique_node_name(name=name,
                                              layer=comp_layer or layer,
                                              parent_path=parent_path,
-                                             layer_only=bool(comp_layer))
+                                             layer_only=bool(comp_layer),
+                                             target_layer=layer)
         data = data or {}
         data['name'] = name
         if do_targeted_comp:
@@ -1368,7 +1374,8 @@ class Stage:
             # Get the comp layer as the scope where possible to avoid re-comp
             scoped_layer = comp_layer or layer
             name = self.get_unique_node_name(name=name, layer=scoped_layer,
-                                             parent_path=parent_path)
+                                             parent_path=parent_path,
+                                             target_layer=layer)
         old_name = getattr(node, INTERNAL_ATTRS.NAME)
         setattr(node, INTERNAL_ATTRS.NAME, name)
         new_node_path = nxt_path.join_node_paths(parent_path, name)
-- 
2.43.0


From c2a7ed9c6a6d3870e823b22ab08602d85c5a8e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:25 +0000
Subject: [PATCH 80/82] fix: custom contexts keep their graph, names and paths,
 and do not shadow each other

---
 nxt/__init__.py                       | 17 ++++++++++-------
 nxt/remote/remote_context_template.py |  6 +++---
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/nxt/__init__.py b/nxt/__init__.py
index b1d47b8..b994a32 100644
--- a/nxt/__init__.py
+++ b/nxt/__init__.py
@@ -95,7 +95,8 @@ def create_context(custom_name, interpreter_exe=sys.executable,
 
     context_py_file = 'custom_{name}_context.py'.format(name=custom_name)
     context_py_filepath = os.path.join(_user_plugin_dir, context_py_file)
-    if os.path.exists(context_py_filepath):
+    if os.path.exists(context_py_filepath) or \
+            contexts.find_context_by_name(custom_name):
         raise IOError('The context name you selected is already taken. '
                       '"{}"'.format(custom_name))
     if context_graph is None:
@@ -125,13 +126,15 @@ def create_context(custom_name, interpreter_exe=sys.executable,
         if not os.path.isfile(expanded_context_graph):
             raise IOError('The context graph you provided does not exist! '
                           '"{}"'.format(context_graph))
-        root = os.path.commonprefix((context_graph, context_py_filepath))
-        if root:
-            context_graph = os.path.relpath(context_graph, root)
-        context_graph.replace(os.sep, '/')
+        # The context may be used from any working directory
+        if os.path.realpath(context_graph).replace(os.sep, '/') == \
+                expanded_context_graph:
+            context_graph = expanded_context_graph
 
-    py_str = py_str.format(name=custom_name, interpreter_exe=interpreter_exe,
-                           context_graph=context_graph, args=exe_script_args)
+    py_str = py_str.format(name=repr(custom_name),
+                           interpreter_exe=repr(interpreter_exe),
+                           context_graph=repr(context_graph),
+                           args=exe_script_args)
     with open(context_py_filepath, 'w+') as fp:
         fp.write(py_str)
     exec(py_str)
diff --git a/nxt/remote/remote_context_template.py b/nxt/remote/remote_context_template.py
index e5ee5ce..fa2a180 100644
--- a/nxt/remote/remote_context_template.py
+++ b/nxt/remote/remote_context_template.py
@@ -5,9 +5,9 @@ import os
 from nxt.remote.contexts import RemoteContext, register_context
 
 # Setup Context
-_name = '{name}'
-_exe = '{interpreter_exe}'
-_graph = '{context_graph}'
+_name = {name}
+_exe = {interpreter_exe}
+_graph = {context_graph}
 _args = {args}
 _context = RemoteContext(_name, _exe, _graph, _args)
 register_context(_context)
-- 
2.43.0


From 0b54a344905295b2c586ca635cf173c21cda7052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:25 +0000
Subject: [PATCH 81/82] fix: the socket client sends in Python 3, and a lost
 connection does not recurse

---
 nxt/remote/nxt_socket.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/nxt/remote/nxt_socket.py b/nxt/remote/nxt_socket.py
index bd3ed3c..024c033 100644
--- a/nxt/remote/nxt_socket.py
+++ b/nxt/remote/nxt_socket.py
@@ -233,7 +233,7 @@ def send_log(record):
     :return: None
     """
     links = getattr(record, 'links', None)
-    data_dict = format_msg([record.levelno, record.message, links],
+    data_dict = format_msg([record.levelno, record.getMessage(), links],
                            COM_TYPE.LOG)
     send_to_server(data_dict)
 
@@ -252,15 +252,15 @@ def send_to_server(data_dict):
         logger.error("No server! Try toggling the command port.")
         return
     msg = pickle.dumps(data_dict)
-    header = bytes("{:<{}}".format(len(msg), HEADER_SIZE))
+    header = "{:<{}}".format(len(msg), HEADER_SIZE).encode()
     data = header + msg
     # logger.debug('Size of data: {}'.format(sys.getsizeof(data)))
     try:
         __nxt_server__.sendall(data)
     except Exception as e:
-        if e.errno == 10053:  # Stale socket
-            __nxt_server__ = None
-        else:
+        # Nothing else can be sent, not even the following message
+        __nxt_server__ = None
+        if getattr(e, 'errno', None) != 10053:  # Stale socket
             logger.exception('Failed to send data to socket server!')
 
 
@@ -308,4 +308,6 @@ class NXTSocketLogHandler(logging.Handler):
         logging.Handler.__init__(self)
 
     def emit(self, record):
-        send_log(record)
+        # Complaining about a missing server would be logged as well
+        if __nxt_server__:
+            send_log(record)
-- 
2.43.0


From bf11e0802c8bd7e6989d4ad95d07e0e69154ec1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:18 +0000
Subject: [PATCH 82/82] fix: set_verbosity follows the level asked for last

Level 0 never removed the handler, as it was not remembered; asking twice
printed everything twice; 2 after 1 kept printing only what 1 prints.
---
 nxt/nxt_log.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nxt/nxt_log.py b/nxt/nxt_log.py
index 472c29a..3590e2a 100644
--- a/nxt/nxt_log.py
+++ b/nxt/nxt_log.py
@@ -200,6 +200,7 @@ def set_verbosity(level):
         if not verbose_handler:
             return
         root_logger.removeHandler(verbose_handler)
+        verbose_handler = None
         return
     if level > 0:
         if verbose_handler:
@@ -208,8 +209,11 @@ def set_verbosity(level):
             stderr_handler = logging.StreamHandler(sys.stderr)
             stderr_handler.setFormatter(nxt_formatter)
             root_logger.addHandler(stderr_handler)
+            verbose_handler = stderr_handler
         if level == 1:
             stderr_handler.setLevel(EXECINFO)
+        else:
+            stderr_handler.setLevel(logging.NOTSET)
         return stderr_handler
 
 
-- 
2.43.0

