From bb4a5a08320f8c245a7470717d09102caa5938b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:03 +0000
Subject: [PATCH 01/85] fix: remove all elements of a deleted virtual node, not
 just the first

---
 collagraph/collagraph.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 84008d7..d13d1af 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -458,8 +458,8 @@ class Collagraph:
     def commit_deletion(self, fiber: Fiber, dom_parent: Any):
         """
         Remove an item from the dom. If the given fiber does not reference
-        a dom element, then it will try its child (recursively) until it finds
-        a fiber with a dom element that can be removed.
+        a dom element, then it will try its children (recursively) to find
+        the fibers with a dom element that can be removed.
         Clears the child and dom attributes of the fiber.
         """
         if fiber.component:
@@ -483,7 +483,13 @@ class Collagraph:
             self.renderer.remove(fiber.dom, dom_parent)
             fiber.dom = None
         else:
-            self.commit_deletion(fiber.child, dom_parent)
+            # Virtual nodes and components don't have a dom element themselves,
+            # so remove the dom elements of all of their children
+            child = fiber.child
+            while child:
+                sibling = child.sibling
+                self.commit_deletion(child, dom_parent)
+                child = sibling
 
         fiber.child = None
         fiber.sibling = None
-- 
2.43.0


From 2d1e1bdf492504f6a9c022871491057e455b2fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:17 +0000
Subject: [PATCH 02/85] fix: PySide menus can be inserted before a menu and
 moved to another position

---
 collagraph/renderers/pyside/objects/menu.py    | 7 +++++--
 collagraph/renderers/pyside/objects/menubar.py | 6 +++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/menu.py b/collagraph/renderers/pyside/objects/menu.py
index 9c2b199..7c392df 100644
--- a/collagraph/renderers/pyside/objects/menu.py
+++ b/collagraph/renderers/pyside/objects/menu.py
@@ -6,6 +6,9 @@ from ... import PySideRenderer
 
 @PySideRenderer.register_insert(QMenu)
 def insert(self, el, anchor=None):
+    if isinstance(anchor, QMenu):
+        anchor = anchor.menuAction()
+
     if isinstance(el, QMenu):
         if anchor is not None:
             action = self.insertMenu(anchor, el)
@@ -26,7 +29,7 @@ def remove(self, el):
         self.removeAction(el)
         el.setParent(None)
     elif isinstance(el, QMenu):
-        el.clear()
         menu_action = el.menuAction()
         self.removeAction(menu_action)
-        menu_action.setParent(None)
+        # The action is owned by its menu, which might be inserted again
+        menu_action.setParent(el)
diff --git a/collagraph/renderers/pyside/objects/menubar.py b/collagraph/renderers/pyside/objects/menubar.py
index 15b073e..ee09026 100644
--- a/collagraph/renderers/pyside/objects/menubar.py
+++ b/collagraph/renderers/pyside/objects/menubar.py
@@ -6,7 +6,7 @@ from ... import PySideRenderer
 @PySideRenderer.register_insert(QMenuBar)
 def insert(self, el: QMenu, anchor: QMenu = None):
     if anchor is not None:
-        action = self.insertMenu(anchor, el)
+        action = self.insertMenu(anchor.menuAction(), el)
     else:
         action = self.addMenu(el)
     # Use the window property of the menubar to set
@@ -21,7 +21,7 @@ def insert(self, el: QMenu, anchor: QMenu = None):
 
 @PySideRenderer.register_remove(QMenuBar)
 def remove(self, el: QMenu):
-    el.clear()
     menu_action = el.menuAction()
     self.removeAction(menu_action)
-    menu_action.setParent(None)
+    # The action is owned by its menu, which might be inserted again
+    menu_action.setParent(el)
-- 
2.43.0


From df391a9ca18f93c5c1007a36c099c1caa8dc25d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:17 +0000
Subject: [PATCH 03/85] fix: PySide toolbar widgets can be inserted before a
 widget and are removed completely

---
 collagraph/renderers/pyside/objects/toolbar.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/toolbar.py b/collagraph/renderers/pyside/objects/toolbar.py
index 4636e3b..287f816 100644
--- a/collagraph/renderers/pyside/objects/toolbar.py
+++ b/collagraph/renderers/pyside/objects/toolbar.py
@@ -1,13 +1,25 @@
 from PySide6.QtGui import QAction
-from PySide6.QtWidgets import QToolBar, QWidget
+from PySide6.QtWidgets import QToolBar, QWidget, QWidgetAction
 
 from ... import PySideRenderer
 
 
+def action_for_widget(toolbar, el):
+    """Returns the action that the toolbar created for the given widget"""
+    for action in toolbar.findChildren(QWidgetAction):
+        if action.defaultWidget() is el:
+            return action
+
+
 @PySideRenderer.register_insert(QToolBar)
 def insert(self, el, anchor=None):
+    if isinstance(anchor, QWidget):
+        anchor = action_for_widget(self, anchor)
+
     if isinstance(el, QWidget):
-        if anchor is not None:
+        if action := action_for_widget(self, el):
+            self.insertAction(anchor, action)
+        elif anchor is not None:
             action = self.insertWidget(anchor, el)
         else:
             action = self.addWidget(el)
@@ -26,4 +38,6 @@ def remove(self, el):
         self.removeAction(el)
         el.setParent(None)
     elif isinstance(el, QWidget):
+        if action := action_for_widget(self, el):
+            self.removeAction(action)
         el.setParent(None)
-- 
2.43.0


From 92493099038baa00dc39737277c83968498787c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:17 +0000
Subject: [PATCH 04/85] fix: keep elements in document order when adding,
 moving and replacing nodes

---
 collagraph/collagraph.py | 86 ++++++++++++++++++++++++++++------------
 collagraph/types.py      |  1 -
 2 files changed, 60 insertions(+), 27 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index d13d1af..b472cf0 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -1,7 +1,7 @@
 from itertools import zip_longest
 import logging
 from operator import xor
-from queue import SimpleQueue
+from queue import LifoQueue, SimpleQueue
 import time
 from typing import Any, Callable, Dict, Iterable, List, Optional
 
@@ -107,7 +107,7 @@ class Collagraph:
         self._render_callback: Callable = None
         self._request = None
         self._qt_timer = None
-        self._work = SimpleQueue()
+        self._work = LifoQueue()
         self._dirty = False
 
     def render(self, element: VNode, container, callback=None):
@@ -318,22 +318,20 @@ class Collagraph:
 
         ordered_old_fibers, removals = compare(elements, old_fibers, match=matcher)
 
-        operations = {}
-        if len(elements) > 1:
-            new_keys = [el.key for el in elements if el and el.key]
-            old_keys = [fib.key for fib in old_fibers if fib and fib.key]
-
-            ops = create_ops(old_keys, new_keys)
-
-            for op in ops:
-                if op["op"] is not OpType.DEL:
-                    if "anchor" in op:
-
-                        def match(el, key):
-                            return el.key == key
-
-                        anchor = first(old_fibers, match, op["anchor"])
-                        operations[op["value"]] = anchor.dom
+        # Figure out which of the matched fibers have to be moved in order to get
+        # from the current order to the order of the elements. New elements are
+        # represented by negative numbers.
+        moved = set()
+        if any(el.key is not None for el in elements):
+            positions = {id(fib): idx for idx, fib in enumerate(old_fibers)}
+            future = [
+                positions[id(fib)] if fib else -idx
+                for idx, fib in enumerate(ordered_old_fibers, start=1)
+            ]
+            ops = create_ops(list(range(len(old_fibers))), future)
+            moved = {
+                id(old_fibers[op["value"]]) for op in ops if op["op"] is OpType.MOVE
+            }
 
         # In here, all the 'new' elements are compared to the old/current fiber/state
         prev_sibling = None
@@ -356,8 +354,11 @@ class Collagraph:
                 new_fiber.sibling = None
                 new_fiber.effect_tag = EffectTag.UPDATE
                 new_fiber.watcher = None
-                new_fiber.move = new_fiber.key in operations
-                new_fiber.anchor = operations.get(new_fiber.key)
+                # Children of a virtual node or component that has to be moved,
+                # have to be moved as well
+                new_fiber.move = id(old_fiber) in moved or (
+                    wip_fiber.dom is None and wip_fiber.move
+                )
             if element and not same_type:
                 # Configure a fiber for creating a new DOM element
                 new_fiber = (old_fiber and old_fiber.alternate) or Fiber()
@@ -374,7 +375,6 @@ class Collagraph:
                 new_fiber.effect_tag = EffectTag.PLACEMENT
                 new_fiber.watcher = None
                 new_fiber.move = False
-                new_fiber.anchor = operations.get(new_fiber.key)
                 # NOTE: If there is an old_fiber, then it will be
                 # marked for deletion in the next if statement
             if old_fiber and not same_type:
@@ -399,10 +399,13 @@ class Collagraph:
         the work starts with the `child` attribute of the `_wip_root` (once all fibers
         that have been marked for deletion have been removed.
         """
-        for deletion in self._deletions:
+        # The work is last in, first out: deletions are processed before the new tree,
+        # which is walked in document order, such that when a fiber is inserted, all
+        # the elements that precede it are already in place
+        self._work.put(self._wip_root.child)
+        for deletion in reversed(self._deletions):
             self._work.put(deletion)
         self._deletions = []
-        self._work.put(self._wip_root.child)
 
         while not self._work.empty():
             work = self._work.get()
@@ -510,7 +513,9 @@ class Collagraph:
                 )
                 fiber.mounted = True
             if fiber.dom is not None:
-                self.renderer.insert(fiber.dom, dom_parent, anchor=fiber.anchor)
+                self.renderer.insert(
+                    fiber.dom, dom_parent, anchor=find_anchor(fiber, dom_parent_fiber)
+                )
         elif fiber.effect_tag == EffectTag.UPDATE:
             if fiber.dom is not None:
                 if fiber.move:
@@ -518,7 +523,7 @@ class Collagraph:
                     self.renderer.insert(
                         fiber.dom,
                         dom_parent,
-                        anchor=fiber.anchor,
+                        anchor=find_anchor(fiber, dom_parent_fiber),
                     )
             self.update_dom_or_component(
                 fiber,
@@ -529,8 +534,9 @@ class Collagraph:
         elif fiber.effect_tag == EffectTag.DELETION:
             self.commit_deletion(fiber, dom_parent)
 
-        self._work.put(fiber.child)
+        # Children go before siblings (last in, first out)
         self._work.put(fiber.sibling)
+        self._work.put(fiber.child)
 
     def update_dom_or_component(
         self, fiber: Fiber, dom: Any, prev_props: Dict, next_props: Dict
@@ -620,6 +626,34 @@ class Collagraph:
                     parent = parent.parent
 
 
+def find_anchor(fiber: Fiber, dom_parent_fiber: Fiber) -> Any:
+    """
+    Returns the first dom element that comes after the given fiber (within the
+    same dom parent) and which is already at its final position. Returns None if
+    there is no such element, in which case the fiber is to be appended.
+    """
+    if dom_parent_fiber.effect_tag is EffectTag.PLACEMENT:
+        # All the children are new, so will be appended in order
+        return None
+
+    node = fiber
+    while True:
+        # Climb up through virtual nodes and components to find the next sibling
+        while not node.sibling:
+            node = node.parent
+            if node is dom_parent_fiber:
+                return None
+        node = node.sibling
+
+        # Climb down through virtual nodes and components to find the dom element
+        while node.effect_tag is EffectTag.UPDATE and not node.move:
+            if node.dom is not None:
+                return node.dom
+            if not node.child:
+                break
+            node = node.child
+
+
 def is_event(key):
     return key.startswith("on_")
 
diff --git a/collagraph/types.py b/collagraph/types.py
index 3a325e4..161cf9e 100644
--- a/collagraph/types.py
+++ b/collagraph/types.py
@@ -42,7 +42,6 @@ class Fiber:
     dom: Any = None
     effect_tag: EffectTag = None
     key: str = None
-    anchor: Any = None  # Dom element
     move: bool = False
     parent: "Fiber" = None
     props: Dict = None
-- 
2.43.0


From a5e106d26033b9e60e65c33f967f5bbbc666308b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:55 +0000
Subject: [PATCH 05/85] fix: functions that behave differently are no longer
 considered equivalent

---
 collagraph/compare.py | 76 +++++++++++++++++++++++++++++++++----------
 1 file changed, 59 insertions(+), 17 deletions(-)

diff --git a/collagraph/compare.py b/collagraph/compare.py
index 5e9133d..7dbcf5f 100644
--- a/collagraph/compare.py
+++ b/collagraph/compare.py
@@ -2,23 +2,64 @@ from functools import partial
 from typing import Callable
 
 
-def equivalent_functions(a: Callable, b: Callable):
+def equivalent_functions(a: Callable, b: Callable, visited=frozenset()):
     """Returns whether function a is equivalent to function b.
 
     ``functools.partial`` functions are also supported (but only when both
     argument a and b are partial).
     """
+    # Functions can refer to themselves through their closure
+    if a is b or (id(a), id(b)) in visited:
+        return True
+    visited = visited | {(id(a), id(b))}
+
     if not hasattr(a, "__code__") or not hasattr(b, "__code__"):
         if isinstance(a, partial) and isinstance(b, partial):
             return (
-                a.args == b.args
-                and a.keywords == b.keywords
-                and equivalent_functions(a.func, b.func)
+                equivalent_values(a.args, b.args, visited)
+                and equivalent_keywords(a.keywords, b.keywords, visited)
+                and equivalent_functions(a.func, b.func, visited)
             )
 
         return a == b
 
-    return equivalent_code(a.__code__, b.__code__) and equivalent_closure_values(a, b)
+    return (
+        # Methods are only equivalent when bound to the same instance
+        getattr(a, "__self__", None) is getattr(b, "__self__", None)
+        and a.__globals__ is b.__globals__
+        and equivalent_code(a.__code__, b.__code__)
+        and equivalent_values(a.__defaults__, b.__defaults__, visited)
+        and equivalent_keywords(a.__kwdefaults__, b.__kwdefaults__, visited)
+        and equivalent_closure_values(a, b, visited)
+    )
+
+
+def equivalent_values(a, b, visited=frozenset()):
+    """Returns whether value a can be exchanged for value b."""
+    if a is b:
+        return True
+    if callable(a) and callable(b):
+        return equivalent_functions(a, b, visited)
+    if type(a) is not type(b):
+        return False
+    if isinstance(a, tuple):
+        return len(a) == len(b) and all(
+            equivalent_values(x, y, visited) for x, y in zip(a, b)
+        )
+    try:
+        hash(a), hash(b)
+    except TypeError:
+        # Mutable values might be equal right now, but they can diverge
+        return False
+    return a == b
+
+
+def equivalent_keywords(a, b, visited=frozenset()):
+    """Returns whether the keyword arguments a and b are equivalent."""
+    a, b = a or {}, b or {}
+    return a.keys() == b.keys() and all(
+        equivalent_values(a[key], b[key], visited) for key in a
+    )
 
 
 def equivalent_code(a, b):
@@ -55,30 +96,31 @@ def equivalent_code(a, b):
             # be different but should be similar at least in length
             if len(attr_a) != len(attr_b):
                 return False
-        elif attr_a != attr_b:
+        elif not equivalent_values(attr_a, attr_b):
             return False
 
     return True
 
 
-def equivalent_closure_values(a, b):
+def equivalent_closure_values(a, b, visited=frozenset()):
     """Compare the cell contents of the __closure__ attribute for the given
     functions. This method assumes that the code for a and be is already
     equivalent."""
     if (closure_a := getattr(a, "__closure__", None)) and (
         closure_b := getattr(b, "__closure__", None)
     ):
-        values_a = [cell.cell_contents for cell in closure_a]
-        values_b = [cell.cell_contents for cell in closure_b]
-        if len(values_a) != len(values_b):
+        if len(closure_a) != len(closure_b):
             return False
 
-        for a, b in zip(values_a, values_b):
-            if callable(a) and callable(b):
-                if not equivalent_functions(a, b):
-                    return False
-            else:
-                if a != b:
-                    return False
+        for cell_a, cell_b in zip(closure_a, closure_b):
+            if cell_a is cell_b:
+                continue
+            try:
+                value_a, value_b = cell_a.cell_contents, cell_b.cell_contents
+            except ValueError:
+                # Cell is empty
+                return False
+            if not equivalent_values(value_a, value_b, visited):
+                return False
 
     return True
-- 
2.43.0


From 360628dda36d162d35e904eb757b564975895370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 06/85] fix: keep track of the registered event handler when an
 equivalent one is given

---
 collagraph/collagraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index b472cf0..04fe016 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -561,6 +561,8 @@ class Collagraph:
                     val, next_props, key
                 ):
                     equivalent_event_handlers.add(key)
+                    # Keep track of the handler that is actually registered
+                    next_props[key] = val
                     continue
 
                 event_type = key_to_event(key)
-- 
2.43.0


From bf1430de9eb62196d67ebfcdb338cd98bd726c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:02 +0000
Subject: [PATCH 07/85] fix: don't lose state changes that happen in between
 units of work

---
 collagraph/collagraph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 04fe016..cc25ef0 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -119,6 +119,7 @@ class Collagraph:
         )
 
         self._deletions = []
+        self._dirty = False
         self._next_unit_of_work = self._wip_root
         self._render_callback = callback
 
@@ -173,9 +174,9 @@ class Collagraph:
             # All the preparations to build the new WIP root have been performed,
             # so it's time to walk through the new WIP root fiber tree and update
             # the actual DOM
-            self._dirty = False
             self.commit_root()
-            # A state change happened during updating of the DOM
+            # A state change happened during this pass: either in between
+            # units of work or during updating of the DOM
             if self._dirty:
                 self.prepare_next_iteration_of_work()
 
@@ -292,6 +293,7 @@ class Collagraph:
         self._wip_root.alternate = self._current_root
         self._next_unit_of_work = self._wip_root
         self._deletions = []
+        self._dirty = False
         self.request_idle_work()
 
     def state_updated(self, fiber: Fiber):
-- 
2.43.0


From fc7feb11c39e188a4c262055f9842b4cd01a3818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:06 +0000
Subject: [PATCH 08/85] fix: DictRenderer can remove an attribute that was
 never set

---
 collagraph/renderers/dict_renderer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/dict_renderer.py b/collagraph/renderers/dict_renderer.py
index 2856270..15aea27 100644
--- a/collagraph/renderers/dict_renderer.py
+++ b/collagraph/renderers/dict_renderer.py
@@ -36,7 +36,8 @@ class DictRenderer(Renderer):
         attributes[attr] = value
 
     def remove_attribute(self, obj, attr: str, value):
-        attributes = obj["attrs"]
+        # An attribute that is None initially will not have been set
+        attributes = obj.get("attrs", {})
         if attr in attributes:
             del attributes[attr]
 
-- 
2.43.0


From 54242821794fb0b3a385c78feb2ec18120afbfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:10 +0000
Subject: [PATCH 09/85] fix: props with value None can be added to and removed
 from a component

---
 collagraph/collagraph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index cc25ef0..7318216 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -594,7 +594,12 @@ class Collagraph:
                 fiber.component.remove_event_handler(event_type, val)
 
             for key in attrs_to_remove:
-                del props[key]
+                props.pop(key, None)
+
+            # Props with value None have to be passed to the component as well
+            for key, val in next_props.items():
+                if key not in prev_props and not is_event(key):
+                    attrs_to_update[key] = val
 
             props.update(attrs_to_update)
 
-- 
2.43.0


From 0feb1c0e5ca818d5a019f9b7bea137bd2bc8f408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:34 +0000
Subject: [PATCH 10/85] fix: keep props of components connected to the state of
 the parent

---
 collagraph/collagraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 7318216..dd441a7 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -601,7 +601,8 @@ class Collagraph:
                 if key not in prev_props and not is_event(key):
                     attrs_to_update[key] = val
 
-            props.update(attrs_to_update)
+            # Pass on the actual values: next_props can be a (detached) snapshot
+            props.update({key: fiber.props[key] for key in attrs_to_update})
 
             for event_type, val in events_to_add.items():
                 fiber.component.add_event_handler(event_type, val)
-- 
2.43.0


From 3f0edcf65d834734de6ba60c7d65b4fa7f94fdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:39 +0000
Subject: [PATCH 11/85] fix: passing a lambda as prop doesn't result in endless
 updates

---
 collagraph/collagraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index dd441a7..28a6e37 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -675,6 +675,8 @@ def key_to_event(key):
 
 def is_new(val, other, key):
     old_value = other.get(key)
+    if callable(val) and callable(old_value):
+        return not equivalent_functions(old_value, val)
     return xor(old_value is None, val is None) or old_value != val
 
 
-- 
2.43.0


From 88e9d0e52939a5febfdf0cbc985857500e169242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:43 +0000
Subject: [PATCH 12/85] fix: DictRenderer doesn't mix up elements that look the
 same

---
 collagraph/renderers/dict_renderer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/collagraph/renderers/dict_renderer.py b/collagraph/renderers/dict_renderer.py
index 15aea27..90950b9 100644
--- a/collagraph/renderers/dict_renderer.py
+++ b/collagraph/renderers/dict_renderer.py
@@ -3,6 +3,14 @@ from collections import defaultdict
 from . import Renderer
 
 
+def index_of(children, el):
+    """Returns the index of el itself, instead of any element that is equal to el"""
+    for idx, child in enumerate(children):
+        if child is el:
+            return idx
+    raise ValueError("Element is not one of the children")
+
+
 class DictRenderer(Renderer):
     """Renderer that renders to a simple dict object
     which (may) contain the following keys:
@@ -21,12 +29,12 @@ class DictRenderer(Renderer):
 
     def insert(self, el, parent, anchor=None):
         children = parent.setdefault("children", [])
-        anchor_idx = children.index(anchor) if anchor else len(children)
+        anchor_idx = index_of(children, anchor) if anchor else len(children)
         children.insert(anchor_idx, el)
 
     def remove(self, el, parent):
         children = parent["children"]
-        children.remove(el)
+        del children[index_of(children, el)]
 
     def set_element_text(self, el: dict, value: str):
         el["text"] = value
-- 
2.43.0


From 2ce2da58be1eb2bfca37dc8116d34bc908de41c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:48 +0000
Subject: [PATCH 13/85] fix: look up names in templates for each component
 instance separately

---
 collagraph/component.py | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/collagraph/component.py b/collagraph/component.py
index b0f14fd..c3fab52 100644
--- a/collagraph/component.py
+++ b/collagraph/component.py
@@ -10,15 +10,12 @@ from collagraph import render_slot
 class Component:
     """Abstract base class for components"""
 
-    __lookup_cache__ = defaultdict(dict)
-
     def __init__(self, props=None, parent=None):
         self._props = readonly({} if props is None else props)
         self._state = reactive({})
         self._element = None
         self._slots = {}
         self._event_handlers = defaultdict(set)
-        self._lookup_cache = Component.__lookup_cache__[type(self)]
         self._parent = ref(parent) if parent else None
         self._provided = {}
 
@@ -138,30 +135,13 @@ class Component:
         This provides some syntactic sugar so that users can leave out `self`,
         `self.state` and `self.props`.
         """
-        cache = self._lookup_cache
-        if method := cache.get(name):
-            return method(self, name, context)
-
-        def props_lookup(self, name, context):
-            return self.props[name]
-
-        def state_lookup(self, name, context):
-            return self.state[name]
-
-        def self_lookup(self, name, context):
-            return getattr(self, name)
-
-        def global_lookup(self, name, context):
-            return context[name]
-
         if name in self.props:
-            cache[name] = props_lookup
+            return self.props[name]
         elif name in self.state:
-            cache[name] = state_lookup
+            return self.state[name]
         elif hasattr(self, name):
-            cache[name] = self_lookup
+            return getattr(self, name)
         elif name in context:
-            cache[name] = global_lookup
+            return context[name]
         else:
             raise NameError(f"name '{name}' is not defined")
-        return self._lookup(name, context)
-- 
2.43.0


From 9ef36fdfde3185dd0d4e2e2a82ce0da81f836472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:52 +0000
Subject: [PATCH 14/85] fix: component.element always refers to the current
 root element

---
 collagraph/collagraph.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 28a6e37..a0b65aa 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -439,9 +439,11 @@ class Collagraph:
                 component_hooks.put((fiber.child, True))
                 continue
 
+            if fiber.component:
+                fiber.component._element = find_element(fiber)
+
             if fiber.mounted:
                 if fiber.component:
-                    fiber.component._element = fiber.child.dom
                     fiber.component.mounted()
                 fiber.mounted = False
                 fiber.updated = False
@@ -636,6 +638,18 @@ class Collagraph:
                     parent = parent.parent
 
 
+def find_element(fiber: Fiber) -> Any:
+    """Returns the first dom element of the given fiber (or of its descendants)"""
+    if fiber.dom is not None:
+        return fiber.dom
+
+    child = fiber.child
+    while child:
+        if (element := find_element(child)) is not None:
+            return element
+        child = child.sibling
+
+
 def find_anchor(fiber: Fiber, dom_parent_fiber: Fiber) -> Any:
     """
     Returns the first dom element that comes after the given fiber (within the
-- 
2.43.0


From 9256847e13a8c4cd17c4e2226ff65eab1dcab92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:13 +0000
Subject: [PATCH 15/85] fix: call updated hook as well when elements or text
 have changed

---
 collagraph/collagraph.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index a0b65aa..e66875e 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -382,6 +382,7 @@ class Collagraph:
             if old_fiber and not same_type:
                 # Mark the old fiber for deletion so that DOM element will be removed
                 old_fiber.effect_tag = EffectTag.DELETION
+                old_fiber.parent = wip_fiber
                 self._deletions.append(old_fiber)
 
             # And we add it to the fiber tree setting it either as a child or as a
@@ -511,6 +512,7 @@ class Collagraph:
         dom_parent = dom_parent_fiber.dom
 
         if fiber.effect_tag == EffectTag.PLACEMENT:
+            self.mark_updated(fiber)
             if fiber.component:
                 self.update_dom_or_component(
                     fiber, None, prev_props={}, next_props=fiber.props
@@ -523,6 +525,7 @@ class Collagraph:
         elif fiber.effect_tag == EffectTag.UPDATE:
             if fiber.dom is not None:
                 if fiber.move:
+                    self.mark_updated(fiber)
                     self.renderer.remove(fiber.dom, dom_parent)
                     self.renderer.insert(
                         fiber.dom,
@@ -536,6 +539,7 @@ class Collagraph:
                 next_props=fiber.props_snapshot,
             )
         elif fiber.effect_tag == EffectTag.DELETION:
+            self.mark_updated(fiber)
             self.commit_deletion(fiber, dom_parent)
 
         # Children go before siblings (last in, first out)
@@ -551,6 +555,7 @@ class Collagraph:
         if fiber.type == "TEXT_ELEMENT":
             if (new_content := next_props["content"]) != prev_props.get("content"):
                 self.renderer.set_element_text(dom, new_content)
+                self.mark_updated(fiber)
                 return
 
         events_to_remove = {}
@@ -625,17 +630,18 @@ class Collagraph:
             for event_type, val in events_to_add.items():
                 self.renderer.add_event_listener(dom, event_type, val)
 
-            # Climb up the tree to find first component to mark as updated
             if events_to_remove or events_to_add or attrs_to_remove or attrs_to_update:
-                parent = fiber.parent
-                component = None
-                while parent:
-                    component = parent.component
-                    if component:
-                        # Mark the fiber as updated
-                        parent.updated = True
-                        break
-                    parent = parent.parent
+                self.mark_updated(fiber)
+
+    def mark_updated(self, fiber: Fiber):
+        """Climb up the tree to find first component to mark as updated"""
+        parent = fiber.parent
+        while parent:
+            if parent.component:
+                # Mark the fiber as updated
+                parent.updated = True
+                break
+            parent = parent.parent
 
 
 def find_element(fiber: Fiber) -> Any:
-- 
2.43.0


From ed8667a73a251c0231be503248e7634fb0ad2c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:18 +0000
Subject: [PATCH 16/85] fix: keep text and v-for elements after a preceding
 v-if in place

---
 collagraph/cgx/cgx.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 451305a..05fec50 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -345,6 +345,8 @@ def convert_node_to_args(node, *, names=None):
 
     slots = {}
     control_flow = []
+    # Position of the current control flow within the children
+    control_flow_idx = None
     for child in node.children:
         if isinstance(child, Comment):
             # Ignore comments
@@ -385,8 +387,14 @@ def convert_node_to_args(node, *, names=None):
         # Handle control flow directives
         if directive := child.control_flow():
             if directive == "v-if" and control_flow:
-                children_args.append(create_control_flow_ast(control_flow, names=names))
+                children_args[control_flow_idx] = create_control_flow_ast(
+                    control_flow, names=names
+                )
                 control_flow = []
+            if not control_flow:
+                # Reserve the position among the children
+                control_flow_idx = len(children_args)
+                children_args.append(None)
             control_flow.append((directive, child))
 
         # Gather all the non-template children within a component tag and
@@ -412,7 +420,9 @@ def convert_node_to_args(node, *, names=None):
 
         if not directive:
             if control_flow:
-                children_args.append(create_control_flow_ast(control_flow, names=names))
+                children_args[control_flow_idx] = create_control_flow_ast(
+                    control_flow, names=names
+                )
                 control_flow = []
             if child.tag == "slot":
                 children_args.append(call_render_slot(child, names=names))
@@ -420,7 +430,9 @@ def convert_node_to_args(node, *, names=None):
                 children_args.append(call_create_element(child, names=names))
 
     if control_flow:
-        children_args.append(create_control_flow_ast(control_flow, names=names))
+        children_args[control_flow_idx] = create_control_flow_ast(
+            control_flow, names=names
+        )
         control_flow = []
 
     # Create a starred list comprehension that when called, will generate
-- 
2.43.0


From e59050cd6cb48cf3101552a08fcc50f2c14d1ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:22 +0000
Subject: [PATCH 17/85] fix: use v-for elements as slot content when they're
 the only children

---
 collagraph/cgx/cgx.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 05fec50..8e8bae2 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -344,6 +344,20 @@ def convert_node_to_args(node, *, names=None):
     children_args = []
 
     slots = {}
+    # Gather all the non-template children within a component tag and
+    # treat them as the content for the default slot
+    if node.tag[0].isupper() or "." in node.tag:
+        default_slot_content = [
+            child
+            for child in node.children
+            if isinstance(child, Element) and child.tag != "template"
+        ]
+
+        if default_slot_content:
+            virtual_template_node = Element("template")
+            virtual_template_node.children = default_slot_content
+            slots["default"] = virtual_template_node
+
     control_flow = []
     # Position of the current control flow within the children
     control_flow_idx = None
@@ -397,20 +411,6 @@ def convert_node_to_args(node, *, names=None):
                 children_args.append(None)
             control_flow.append((directive, child))
 
-        # Gather all the non-template children within a component tag and
-        # treat them as the content for the default slot
-        if node.tag[0].isupper() or "." in node.tag:
-            default_slot_content = [
-                child
-                for child in node.children
-                if isinstance(child, Element) and child.tag != "template"
-            ]
-
-            if default_slot_content:
-                virtual_template_node = Element("template")
-                virtual_template_node.children = default_slot_content
-                slots["default"] = virtual_template_node
-
         for attr in child.attrs.keys():
             if attr.startswith(("v-slot", "#")):
                 slot_name = attr.split(":")[-1].split("#")[-1]
-- 
2.43.0


From 4239b5fa1eab838329ef6377711e5a56896b3227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:26 +0000
Subject: [PATCH 18/85] fix: slots and handlers within v-for use the values of
 their own iteration

---
 collagraph/cgx/cgx.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 8e8bae2..d4e6c31 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -392,7 +392,25 @@ def convert_node_to_args(node, *, names=None):
             local_names = names.union(name_collector.names)
             RewriteName(skip=local_names).visit(for_tree)
 
-            for_tree.elt = call_create_element(child, names=local_names)
+            # Bind the names for each iteration by means of calling a lambda,
+            # such that slots and event handlers (which are called later on)
+            # don't end up with the values of the last iteration:
+            #   (lambda i, a, b: create_element(...))(i, a, b)
+            bound_names = sorted(name_collector.names)
+            for_tree.elt = ast.Call(
+                func=ast.Lambda(
+                    args=ast.arguments(
+                        posonlyargs=[],
+                        args=[ast.arg(arg=name) for name in bound_names],
+                        kwonlyargs=[],
+                        kw_defaults=[],
+                        defaults=[],
+                    ),
+                    body=call_create_element(child, names=local_names),
+                ),
+                args=[ast.Name(id=name, ctx=ast.Load()) for name in bound_names],
+                keywords=[],
+            )
 
             result = ast.Starred(value=for_tree, ctx=ast.Load())
             children_args.append(result)
-- 
2.43.0


From 9fbb6d13d64312707200b94c119fe17f0c728c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:29 +0000
Subject: [PATCH 19/85] fix: don't rewrite names that are local to lambdas and
 comprehensions

---
 collagraph/cgx/cgx.py | 55 +++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index d4e6c31..2be7410 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -327,13 +327,9 @@ def convert_node_to_args(node, *, names=None):
             key = f"on_{key}"
             props_keys.append(ast.Constant(value=key))
 
-            tree = ast.parse(val, mode="eval")
-            # v-on directives allow for lambdas which define arguments
-            # which need to be skipped by the RewriteName visitor
-            lambda_names = LambdaNamesCollector()
-            lambda_names.visit(tree)
-            RewriteName(skip=names | lambda_names.names).visit(tree)
-            props_values.append(tree.body)
+            props_values.append(
+                RewriteName(skip=names).visit(ast.parse(val, mode="eval")).body
+            )
             continue
 
         if key.startswith((DIRECTIVE_FOR)):
@@ -390,7 +386,7 @@ def convert_node_to_args(node, *, names=None):
                     name_collector.generic_visit(generator.target)
 
             local_names = names.union(name_collector.names)
-            RewriteName(skip=local_names).visit(for_tree)
+            RewriteName(skip=names).visit(for_tree)
 
             # Bind the names for each iteration by means of calling a lambda,
             # such that slots and event handlers (which are called later on)
@@ -681,21 +677,6 @@ class NameCollector(ast.NodeVisitor):
         self.names.add(node.id)
 
 
-class LambdaNamesCollector(ast.NodeVisitor):
-    def __init__(self):
-        self.names = set()
-
-    def visit_Lambda(self, node):
-        # For some reason the body of a lambda is not visited
-        # so we need to do it manually.
-        visitor = LambdaNamesCollector()
-        visitor.visit(node.body)
-        self.names.update(visitor.names)
-
-        for arg in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
-            self.names.add(arg.arg)
-
-
 class RewriteName(ast.NodeTransformer):
     """AST node transformer that will try to replace static Name nodes with
     a call to `_lookup` with the name of the node."""
@@ -708,6 +689,10 @@ class RewriteName(ast.NodeTransformer):
         if node.id in __builtins__:
             return node
 
+        # Don't replace names that are being assigned to
+        if not isinstance(node.ctx, ast.Load):
+            return node
+
         # Don't replace any name that should be explicitely skipped
         if node.id in self.skip:
             return node
@@ -729,6 +714,30 @@ class RewriteName(ast.NodeTransformer):
             keywords=[],
         )
 
+    def visit_Lambda(self, node):
+        # Default values are evaluated outside the scope of the lambda
+        node.args = self.generic_visit(node.args)
+        # The arguments of the lambda are local to its body
+        names = {arg.arg for arg in ast.walk(node.args) if isinstance(arg, ast.arg)}
+        node.body = RewriteName(skip=names | set(self.skip)).visit(node.body)
+        return node
+
+    def visit_ListComp(self, node):
+        # The first iterable is evaluated outside the scope of the comprehension
+        first_iter = self.visit(node.generators[0].iter)
+        # The targets are local to the rest of the comprehension
+        node.generators[0].iter = ast.Constant(value=None)
+        collector = NameCollector()
+        for generator in node.generators:
+            collector.visit(generator.target)
+        RewriteName(skip=collector.names | set(self.skip)).generic_visit(node)
+        node.generators[0].iter = first_iter
+        return node
+
+    visit_SetComp = visit_ListComp
+    visit_DictComp = visit_ListComp
+    visit_GeneratorExp = visit_ListComp
+
 
 class ImportsCollector(ast.NodeVisitor):
     def __init__(self):
-- 
2.43.0


From 6d3c7ff1665adb064df02634401bc9ccc19d4239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:56 +0000
Subject: [PATCH 20/85] fix: render the slot content for slot elements with
 v-if or v-for

---
 collagraph/cgx/cgx.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 2be7410..a55e2f7 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -229,9 +229,20 @@ def call_create_element(node, *, names):
     Names is a set of variable names that should not be wrapped in
     the _lookup method.
     """
+    if node.tag == "slot":
+        # A slot can consist of multiple elements, so needs to be wrapped
+        # when precisely one element is needed (v-if, v-for, root element)
+        args = [
+            ast.Constant(value="template"),
+            ast.Dict(keys=[], values=[]),
+            call_render_slot(node, names=names),
+        ]
+    else:
+        args = convert_node_to_args(node, names=names)
+
     return ast.Call(
         func=ast.Name(id="_create_element", ctx=ast.Load()),
-        args=convert_node_to_args(node, names=names),
+        args=args,
         keywords=[],
     )
 
@@ -266,7 +277,13 @@ def call_render_slot(node, *, names=None):
             ),
             # Otherwise, we render the fallback content
             orelse=ast.List(
-                elts=[call_create_element(node, names=names)],
+                elts=[
+                    ast.Call(
+                        func=ast.Name(id="_create_element", ctx=ast.Load()),
+                        args=convert_node_to_args(node, names=names),
+                        keywords=[],
+                    )
+                ],
                 ctx=ast.Load(),
             ),
         ),
-- 
2.43.0


From 016ce679d36f6e2bab5a8c63156d03a7d12fd6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:23 +0000
Subject: [PATCH 21/85] fix: disconnect bound methods and partials from PySide
 signals

---
 collagraph/renderers/pyside_renderer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 36a0250..4296daf 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -407,6 +407,8 @@ class PySideRenderer(Renderer):
                 # TODO: with some inspection we might be able to figure out the
                 # signature of the 'value' function and adjust the lambda accordingly
                 slot = QtCore.Slot()(lambda *args: value(*args))
+                # Keep track of the value to be able to disconnect the slot
+                slot.handler = value
             el.slots[event_type].add(slot)
 
             signal.connect(slot)
@@ -430,7 +432,7 @@ class PySideRenderer(Renderer):
 
         for slot in el.slots[event_type]:
             # Slot can be compared to its value
-            if slot == value:
+            if getattr(slot, "handler", slot) == value:
                 signal.disconnect(slot)
                 el.slots[event_type].remove(slot)
                 break
-- 
2.43.0


From 428208a1a50c63891b8eb8b4782264e53231d18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:58 +0000
Subject: [PATCH 22/85] fix: insert tabs before the anchor

---
 collagraph/renderers/pyside/objects/tab.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/tab.py b/collagraph/renderers/pyside/objects/tab.py
index 54d50ab..41611ec 100644
--- a/collagraph/renderers/pyside/objects/tab.py
+++ b/collagraph/renderers/pyside/objects/tab.py
@@ -7,6 +7,8 @@ from ... import PySideRenderer
 def insert(self, el: QWidget, anchor: QWidget = None):
     index = getattr(el, "tab_index", -1)
     label = getattr(el, "tab_label", "")
+    if index < 0 and anchor is not None:
+        index = self.indexOf(anchor)
 
     if index >= 0:
         self.insertTab(index, el, label)
-- 
2.43.0


From 5633370344ff383d7c120822a568a98255a2c9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:08 +0000
Subject: [PATCH 23/85] fix: removing a prop of a component which was added
 with value None

---
 collagraph/collagraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index e66875e..267bccc 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -605,8 +605,8 @@ class Collagraph:
 
             # Props with value None have to be passed to the component as well
             for key, val in next_props.items():
-                if key not in prev_props and not is_event(key):
-                    attrs_to_update[key] = val
+                if val is None and key not in prev_props and not is_event(key):
+                    props[key] = None
 
             # Pass on the actual values: next_props can be a (detached) snapshot
             props.update({key: fiber.props[key] for key in attrs_to_update})
-- 
2.43.0


From 51163e25ecd8cf4037ec174c9ab05b4d27b68ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:36 +0000
Subject: [PATCH 24/85] fix: remove the widget of a scroll area

---
 collagraph/renderers/pyside/objects/scrollarea.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/scrollarea.py b/collagraph/renderers/pyside/objects/scrollarea.py
index c4fcec8..5041daa 100644
--- a/collagraph/renderers/pyside/objects/scrollarea.py
+++ b/collagraph/renderers/pyside/objects/scrollarea.py
@@ -11,5 +11,6 @@ def insert(self, el: QWidget, anchor=None):
 
 @PySideRenderer.register_remove(QScrollArea)
 def remove(self, el: QWidget):
-    self.setWidget(None)
+    # `setWidget(None)` is ignored by Qt
+    self.takeWidget()
     el.setParent(None)
-- 
2.43.0


From cc4cd29a2f039b9539afd87a1f335495ab7e6b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 25/85] fix: replace the items of a combobox

---
 collagraph/renderers/pyside/objects/combobox.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/combobox.py b/collagraph/renderers/pyside/objects/combobox.py
index 1f95076..761339e 100644
--- a/collagraph/renderers/pyside/objects/combobox.py
+++ b/collagraph/renderers/pyside/objects/combobox.py
@@ -7,6 +7,12 @@ from ... import PySideRenderer
 @PySideRenderer.register_set_attr(QtWidgets.QComboBox)
 def set_attribute(self, attr, value):
     if attr == "items":
-        self.addItems(value)
+        # Replace the items in place in order to keep the current item
+        count = min(self.count(), len(value))
+        for index in range(count):
+            self.setItemText(index, value[index])
+        while self.count() > len(value):
+            self.removeItem(self.count() - 1)
+        self.addItems(value[count:])
     else:
         widget.set_attribute(self, attr, value)
-- 
2.43.0


From a7f8e82013761492976453bc21382f372b5386cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 26/85] fix: clear columns of tree widget items that have no
 content anymore

---
 collagraph/renderers/pyside/objects/treewidgetitem.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/treewidgetitem.py b/collagraph/renderers/pyside/objects/treewidgetitem.py
index 85993a8..20ee533 100644
--- a/collagraph/renderers/pyside/objects/treewidgetitem.py
+++ b/collagraph/renderers/pyside/objects/treewidgetitem.py
@@ -36,6 +36,10 @@ def remove(self, el: QTreeWidgetItem):
 @PySideRenderer.register_set_attr(QTreeWidgetItem)
 def set_attribute(self, attr, value):
     if attr == "content":
+        # Clear the columns that have no content anymore
+        for col in range(self.columnCount()):
+            if col not in value:
+                self.setText(col, "")
         for col, data in value.items():
             self.setText(col, data)
         return
-- 
2.43.0


From 96f0423f711d1c940571908dc8cef734610d98c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:46 +0000
Subject: [PATCH 27/85] fix: replace the standard buttons of a dialog button
 box

---
 collagraph/renderers/pyside/objects/dialogbuttonbox.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/dialogbuttonbox.py b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
index 3d191e4..00021d3 100644
--- a/collagraph/renderers/pyside/objects/dialogbuttonbox.py
+++ b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
@@ -21,6 +21,11 @@ def insert(self, el, anchor=None):
 @PySideRenderer.register_set_attr(QDialogButtonBox)
 def set_attribute(self, attr, value):
     if attr == "buttons":
+        # Remove the standard buttons that were added before
+        for button in self.buttons():
+            if self.standardButton(button) != QDialogButtonBox.StandardButton.NoButton:
+                self.removeButton(button)
+                button.deleteLater()
         for flag in value:
             flag = (
                 flag
-- 
2.43.0


From aefd4f11f6c4d7cdf8a4c776bb82eb100eca985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:17 +0000
Subject: [PATCH 28/85] fix: remove buttons from a dialog button box

---
 collagraph/renderers/pyside/objects/dialogbuttonbox.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/dialogbuttonbox.py b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
index 00021d3..c5d0154 100644
--- a/collagraph/renderers/pyside/objects/dialogbuttonbox.py
+++ b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
@@ -18,6 +18,12 @@ def insert(self, el, anchor=None):
     raise NotImplementedError
 
 
+@PySideRenderer.register_remove(QDialogButtonBox)
+def remove(self, el):
+    self.removeButton(el)
+    el.setParent(None)
+
+
 @PySideRenderer.register_set_attr(QDialogButtonBox)
 def set_attribute(self, attr, value):
     if attr == "buttons":
-- 
2.43.0


From e3e8bafdfb57e140747793119a65ce1551ed9492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:31 +0000
Subject: [PATCH 29/85] fix: keep rows of form layouts up to date

---
 .../renderers/pyside/objects/layouts.py       | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/layouts.py b/collagraph/renderers/pyside/objects/layouts.py
index 30e79db..05287b3 100644
--- a/collagraph/renderers/pyside/objects/layouts.py
+++ b/collagraph/renderers/pyside/objects/layouts.py
@@ -38,10 +38,24 @@ def box_layout_insert(self, el, anchor=None):
     self.insertWidget(index, el)
 
 
+def take_form_row(layout, el):
+    """Takes the given widget out of the form layout (and gets rid of its label).
+    Returns the row at which the widget was, or -1 if it was not in the layout."""
+    row, _ = layout.getWidgetPosition(el)
+    if row >= 0:
+        # Removing the row deletes all of its widgets, so take out `el` first
+        layout.removeWidget(el)
+        layout.removeRow(row)
+    return row
+
+
 @PySideRenderer.register_insert(QFormLayout)
 def form_insert(self, el, anchor=None):
     if hasattr(el, "form_index"):
         self.insertRow(el.form_index, el.form_label, el)
+    elif anchor is not None:
+        row, _ = self.getWidgetPosition(anchor)
+        self.insertRow(row, el.form_label, el)
     else:
         self.addRow(el.form_label, el)
 
@@ -59,8 +73,8 @@ def remove_layout(self, el):
 
 @PySideRenderer.register_remove(QFormLayout)
 def remove_form(self, el):
-    # Layout also deletes 'el' so no need to unset parent
-    self.removeRow(el)
+    take_form_row(self, el)
+    el.setParent(None)
 
 
 @PySideRenderer.register_set_attr(QLayout)
@@ -110,7 +124,8 @@ def set_form_index(self, attr, value):
     setattr(self, attr, value)
     if parent := self.parent():
         layout = parent.layout()
-        if hasattr(self, "form_label") and hasattr(self, "form_index"):
-            layout.insertRow(self.form_index, self.form_label, self)
-        elif hasattr(self, "form_label"):
-            layout.addRow(self.form_label, self)
+        if hasattr(self, "form_label"):
+            # Replace the current row (if any)
+            row = take_form_row(layout, self)
+            index = getattr(self, "form_index", row)
+            layout.insertRow(index, self.form_label, self)
-- 
2.43.0


From cde458341cb45141a008fedf6fc8df1773b90c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:55 +0000
Subject: [PATCH 30/85] fix: keep the children of a widget when its type of
 layout changes

---
 .../renderers/pyside/objects/layouts.py       | 35 ++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/layouts.py b/collagraph/renderers/pyside/objects/layouts.py
index 05287b3..e9ea0ef 100644
--- a/collagraph/renderers/pyside/objects/layouts.py
+++ b/collagraph/renderers/pyside/objects/layouts.py
@@ -51,6 +51,10 @@ def take_form_row(layout, el):
 
 @PySideRenderer.register_insert(QFormLayout)
 def form_insert(self, el, anchor=None):
+    if not hasattr(el, "form_label"):
+        # Will be added once the label is set
+        return
+
     if hasattr(el, "form_index"):
         self.insertRow(el.form_index, el.form_label, el)
     elif anchor is not None:
@@ -62,7 +66,9 @@ def form_insert(self, el, anchor=None):
 
 @PySideRenderer.register_insert(QGridLayout)
 def grid_insert(self, el, anchor=None):
-    self.addWidget(el, *el.grid_index)
+    # Without index, it will be added once the index is set
+    if hasattr(el, "grid_index"):
+        self.addWidget(el, *el.grid_index)
 
 
 @PySideRenderer.register_remove(QLayout)
@@ -93,6 +99,30 @@ def set_layout_attribute(self, attr, value):
             call_method(method, value)
 
 
+def take_widgets(layout):
+    """Takes all the widgets out of the layout, such that they can be added
+    to another layout. Returns the list of widgets."""
+    widgets = [
+        widget
+        for widget in layout.parentWidget().children()
+        if isinstance(widget, QWidget) and layout.indexOf(widget) >= 0
+    ]
+    if isinstance(layout, QFormLayout):
+        role = QFormLayout.ItemRole.LabelRole
+        widgets = [w for w in widgets if layout.getWidgetPosition(w)[1] != role]
+    widgets.sort(key=layout.indexOf)
+
+    for widget in widgets:
+        if isinstance(layout, QFormLayout):
+            take_form_row(layout, widget)
+        else:
+            layout.removeWidget(widget)
+        if isinstance(layout, QStackedLayout):
+            # Stacked layouts hide all widgets but the current one
+            widget.show()
+    return widgets
+
+
 @PySideRenderer.register_custom_attribute("layout")
 def set_layout_attr(self, attr, value):
     if layout_type := LAYOUT_MAPPING.get(value["type"].lower()):
@@ -100,10 +130,13 @@ def set_layout_attr(self, attr, value):
         if isinstance(layout, layout_type):
             pass
         else:
+            widgets = take_widgets(layout) if layout else []
             if layout:
                 QWidget().setLayout(layout)
             layout = PySideRenderer.create_object(value["type"].lower())
             self.setLayout(layout)
+            for widget in widgets:
+                layout.insert(widget)
 
         for key, val in value.items():
             layout.set_attribute(key, val)
-- 
2.43.0


From 7b23da3cc6792d5886314f5948bbab458be82499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:56 +0000
Subject: [PATCH 31/85] fix: attributes with value None in the DOM renderer

---
 collagraph/renderers/dom_renderer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collagraph/renderers/dom_renderer.py b/collagraph/renderers/dom_renderer.py
index ee0df49..7b0fef7 100644
--- a/collagraph/renderers/dom_renderer.py
+++ b/collagraph/renderers/dom_renderer.py
@@ -25,6 +25,10 @@ class DomRenderer(Renderer):
         el.textContent = value
 
     def set_attribute(self, el, attr: str, value):
+        if value is None:
+            # The DOM would turn the value into text
+            el.removeAttribute(attr)
+            return
         el.setAttribute(attr, value)
 
     def remove_attribute(self, el, attr: str, value):
-- 
2.43.0


From c694b27b97dad841df62141ec4046233ed992b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:44 +0000
Subject: [PATCH 32/85] fix: removing an attribute that was never set because
 it was None

---
 collagraph/renderers/pyside_renderer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 4296daf..8335743 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -378,6 +378,10 @@ class PySideRenderer(Renderer):
             meta_property.write(el, default_value)
             return
 
+        if value is None:
+            # An attribute that is None initially will not have been set
+            return
+
         raise NotImplementedError(f"Can't remove {attr}: {value}")
 
     def add_event_listener(self, el: Any, event_type: str, value: Callable):
-- 
2.43.0


From e4a60f5503dd98d250b949ef0baa8061a87d0905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:32 +0000
Subject: [PATCH 33/85] fix: removing custom attributes of pygfx objects

---
 collagraph/renderers/pygfx_renderer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/collagraph/renderers/pygfx_renderer.py b/collagraph/renderers/pygfx_renderer.py
index ddcce23..77f8224 100644
--- a/collagraph/renderers/pygfx_renderer.py
+++ b/collagraph/renderers/pygfx_renderer.py
@@ -4,6 +4,8 @@ from . import Renderer
 
 ELEMENT_TYPE_CACHE = {}
 DEFAULT_ATTR_CACHE = {}
+# Marks custom attributes: attributes that don't exist by default
+CUSTOM_ATTR = object()
 
 
 class PygfxRenderer(Renderer):
@@ -57,6 +59,8 @@ class PygfxRenderer(Renderer):
                     DEFAULT_ATTR_CACHE[key] = default_value.copy()
                 else:
                     DEFAULT_ATTR_CACHE[key] = default_value
+            else:
+                DEFAULT_ATTR_CACHE[key] = CUSTOM_ATTR
 
         setattr(obj, attr, value)
 
@@ -69,14 +73,15 @@ class PygfxRenderer(Renderer):
         for attribute in attrs:
             obj = getattr(obj, attribute)
 
-        if key in DEFAULT_ATTR_CACHE:
-            default_value = DEFAULT_ATTR_CACHE[key]
+        default_value = DEFAULT_ATTR_CACHE.get(key, CUSTOM_ATTR)
+        if default_value is not CUSTOM_ATTR:
             if hasattr(default_value, "copy"):
                 val = default_value.copy()
             else:
                 val = default_value
             setattr(obj, attr, val)
-        else:
+        elif attr in getattr(obj, "__dict__", ()):
+            # An attribute that is None initially will not have been set
             delattr(obj, attr)
 
     def add_event_listener(self, el, event_type, value):
-- 
2.43.0


From 6f536c826a54f4f934b57a25e2ce9f5d01e6b4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:33 +0000
Subject: [PATCH 34/85] fix: reloading of cgx modules

---
 collagraph/cgx/importer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/collagraph/cgx/importer.py b/collagraph/cgx/importer.py
index a6e55ef..38fb914 100644
--- a/collagraph/cgx/importer.py
+++ b/collagraph/cgx/importer.py
@@ -36,8 +36,15 @@ class CgxImporter:
         """Executing the module means reading the cgx file"""
         component, context = cgx.load(self.cgx_path)
         # Add the default module keys to the context such that
-        # __file__, __name__ and such are available to the loaded module
-        context.update(module.__dict__)
+        # __file__, __name__ and such are available to the loaded module.
+        # Any other keys are outdated definitions from before a reload.
+        context.update(
+            {
+                key: value
+                for key, value in module.__dict__.items()
+                if key.startswith("__") and key.endswith("__")
+            }
+        )
 
         module.__dict__.update(context)
         module.__dict__[component.__name__] = component
-- 
2.43.0


From e0232a7f717d610cec1a839228b53e91fc8d4340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:22 +0000
Subject: [PATCH 35/85] fix: arguments of which the names are swapped make for
 other functions

---
 collagraph/compare.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collagraph/compare.py b/collagraph/compare.py
index 7dbcf5f..61244a7 100644
--- a/collagraph/compare.py
+++ b/collagraph/compare.py
@@ -96,6 +96,10 @@ def equivalent_code(a, b):
             # be different but should be similar at least in length
             if len(attr_a) != len(attr_b):
                 return False
+            # The same name should not refer to another variable: functions can
+            # be called with keyword arguments
+            if any(x != y and y in attr_a for x, y in zip(attr_a, attr_b)):
+                return False
         elif not equivalent_values(attr_a, attr_b):
             return False
 
-- 
2.43.0


From 1565449521fc991c91c24e8744de8b8ff03b0115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:31 +0000
Subject: [PATCH 36/85] fix: functions that differ in what is caught are not
 equivalent

---
 collagraph/compare.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collagraph/compare.py b/collagraph/compare.py
index 61244a7..73b8e66 100644
--- a/collagraph/compare.py
+++ b/collagraph/compare.py
@@ -80,6 +80,7 @@ def equivalent_code(a, b):
         "co_cellvars",
         "co_code",
         "co_consts",
+        "co_exceptiontable",
         "co_filename",
         "co_flags",
         "co_freevars",
-- 
2.43.0


From a5910ddb880b3f44ea9bf14d61e11399c30c662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:15 +0000
Subject: [PATCH 37/85] fix: state that is passed as props while it is still
 empty

---
 collagraph/collagraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 267bccc..300344f 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -61,7 +61,7 @@ def create_element(type, props=None, *children) -> VNode:
         # If children is 1 callable item, then it becomes the default slot
         elif callable(children[0]):
             children = {"default": children[0]}
-    return VNode(type, reactive(props or {}), children or tuple(), key)
+    return VNode(type, reactive({} if props is None else props), children or tuple(), key)
 
 
 def create_text_element(text):
-- 
2.43.0


From 6b17082b05aa9592b295426b7dbf0f7499ecd425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:58 +0000
Subject: [PATCH 38/85] fix: expanded and selected of tree items were not
 updated and got lost on a move

---
 .../pyside/objects/treewidgetitem.py          | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/treewidgetitem.py b/collagraph/renderers/pyside/objects/treewidgetitem.py
index 20ee533..22af0b1 100644
--- a/collagraph/renderers/pyside/objects/treewidgetitem.py
+++ b/collagraph/renderers/pyside/objects/treewidgetitem.py
@@ -19,13 +19,20 @@ def insert(self, el: QTreeWidgetItem, anchor=None):
 
     # After mounting, process some attributes that can only
     # be adjusted when the item is mounted in the tree structure
+    if self.treeWidget():
+        restore_state(el)
+
+
+def restore_state(el: QTreeWidgetItem):
+    """Set the attributes that get lost when items are not part of a tree"""
     if hasattr(el, "_expanded"):
         el.setExpanded(el._expanded)
-        delattr(el, "_expanded")
 
     if hasattr(el, "_selected"):
         el.setSelected(el._selected)
-        delattr(el, "_selected")
+
+    for index in range(el.childCount()):
+        restore_state(el.child(index))
 
 
 @PySideRenderer.register_remove(QTreeWidgetItem)
@@ -44,15 +51,13 @@ def set_attribute(self, attr, value):
             self.setText(col, data)
         return
     elif attr == "expanded":
-        if not self.parent():
-            self._expanded = value
-        else:
+        self._expanded = value
+        if self.treeWidget():
             self.setExpanded(value)
         return
     elif attr == "selected":
-        if not self.parent():
-            self._selected = value
-        else:
+        self._selected = value
+        if self.treeWidget():
             self.setSelected(value)
         return
 
-- 
2.43.0


From 97995a27f7536bdfeb52254e189d8a3441813b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:58 +0000
Subject: [PATCH 39/85] fix: toolbars with an area raised TypeError

---
 collagraph/renderers/pyside/objects/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/window.py b/collagraph/renderers/pyside/objects/window.py
index c7890ec..851a902 100644
--- a/collagraph/renderers/pyside/objects/window.py
+++ b/collagraph/renderers/pyside/objects/window.py
@@ -15,7 +15,7 @@ def insert(self, el, anchor=None):
         el.setParent(self)
     elif isinstance(el, QToolBar):
         if area := getattr(el, "area", None):
-            self.addToolBar(el, area)
+            self.addToolBar(area, el)
         else:
             self.addToolBar(el)
         el.setParent(self)
-- 
2.43.0


From 7039fe36681760907a014d842d5c56e1b4f2e6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:14 +0000
Subject: [PATCH 40/85] fix: removing a selection model crashed, replacing the
 model of a view dropped the selection model

---
 collagraph/renderers/pyside/objects/listview.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/listview.py b/collagraph/renderers/pyside/objects/listview.py
index 868e593..e3e57f3 100644
--- a/collagraph/renderers/pyside/objects/listview.py
+++ b/collagraph/renderers/pyside/objects/listview.py
@@ -11,10 +11,15 @@ from ... import PySideRenderer
 def insert(self, el: Union[QStandardItemModel, QItemSelectionModel], anchor=None):
     if isinstance(el, QStandardItemModel):
         self.setModel(el)
+        # Setting the model resets the selection model
+        if selection_model := getattr(self, "_selection_model", None):
+            selection_model.setModel(el)
+            self.setSelectionModel(selection_model)
     elif isinstance(el, QItemSelectionModel):
         if model := self.model():
             el.setModel(model)
             self.setSelectionModel(el)
+            self._selection_model = el
         else:
             raise RuntimeError(
                 "Can't set a selection model because no item model was set (yet). "
@@ -30,7 +35,10 @@ def remove(self, el: Union[QStandardItemModel, QItemSelectionModel]):
     if isinstance(el, QStandardItemModel):
         self.setModel(None)
     elif isinstance(el, QItemSelectionModel):
-        self.setSelectionModel(None)
+        # Views can't do without a selection model (segmentation fault)
+        self._selection_model = None
+        if self.selectionModel() is el:
+            self.setSelectionModel(QItemSelectionModel(self.model(), self))
     else:
         raise NotImplementedError(type(el).__name__)
 
-- 
2.43.0


From 61054eb0c40dc585a2754797ca7165f2a2ceb29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:15 +0000
Subject: [PATCH 41/85] fix: label of a tab was not updated

---
 collagraph/renderers/pyside/objects/tab.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/tab.py b/collagraph/renderers/pyside/objects/tab.py
index 41611ec..b8fb387 100644
--- a/collagraph/renderers/pyside/objects/tab.py
+++ b/collagraph/renderers/pyside/objects/tab.py
@@ -21,3 +21,13 @@ def remove(self, el: QWidget):
     index = self.indexOf(el)
     if index >= 0:
         self.removeTab(index)
+
+
+@PySideRenderer.register_custom_attribute("tab_label")
+def set_tab_label(self, attr, value):
+    self.set_attribute(attr, value)
+    if isinstance(self, QWidget) and self.parent():
+        # The parent of the widget of a tab is a stacked widget within the tab widget
+        parent = self.parent().parent()
+        if isinstance(parent, QTabWidget):
+            parent.setTabText(parent.indexOf(self), value)
-- 
2.43.0


From 441520dd27f7d5e76615547834a0b68004d24df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:39 +0000
Subject: [PATCH 42/85] fix: area of dock widgets and toolbars was not updated

---
 collagraph/renderers/pyside/objects/window.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/window.py b/collagraph/renderers/pyside/objects/window.py
index 851a902..4516aaf 100644
--- a/collagraph/renderers/pyside/objects/window.py
+++ b/collagraph/renderers/pyside/objects/window.py
@@ -30,3 +30,13 @@ def insert(self, el, anchor=None):
         # central widget of the QMainWindow
         self.setCentralWidget(el)
         el.setParent(self)
+
+
+@PySideRenderer.register_custom_attribute("area")
+def set_area(self, attr, value):
+    self.set_attribute(attr, value)
+    if isinstance(self, (QDockWidget, QToolBar)):
+        parent = self.parent()
+        if isinstance(parent, QMainWindow):
+            # Adding it again moves it to the new area
+            parent.insert(self)
-- 
2.43.0


From 29b9002f188cc6e981d3726a59b18b073f4082c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:39 +0000
Subject: [PATCH 43/85] fix: role of buttons was not updated

---
 .../renderers/pyside/objects/dialogbuttonbox.py      | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/dialogbuttonbox.py b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
index c5d0154..f116107 100644
--- a/collagraph/renderers/pyside/objects/dialogbuttonbox.py
+++ b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
@@ -1,4 +1,4 @@
-from PySide6.QtWidgets import QDialogButtonBox
+from PySide6.QtWidgets import QAbstractButton, QDialogButtonBox
 
 from .widget import set_attribute as widget_set_attribute
 from ... import PySideRenderer
@@ -41,3 +41,13 @@ def set_attribute(self, attr, value):
             self.addButton(flag)
     else:
         widget_set_attribute(self, attr, value)
+
+
+@PySideRenderer.register_custom_attribute("role")
+def set_role(self, attr, value):
+    self.set_attribute(attr, value)
+    if isinstance(self, QAbstractButton):
+        parent = self.parent()
+        if isinstance(parent, QDialogButtonBox):
+            # Adding the button again moves it to its new role
+            parent.insert(self)
-- 
2.43.0


From 6929e2871b2b6f8ba9c4591687ce71bda21bcfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:11 +0000
Subject: [PATCH 44/85] fix: moved widgets of a statusbar were not shown
 anymore

---
 collagraph/renderers/pyside/objects/statusbar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/statusbar.py b/collagraph/renderers/pyside/objects/statusbar.py
index c63718d..9788cc3 100644
--- a/collagraph/renderers/pyside/objects/statusbar.py
+++ b/collagraph/renderers/pyside/objects/statusbar.py
@@ -24,7 +24,8 @@ def insert(self, el, anchor=None):
 
 @PySideRenderer.register_remove(QStatusBar)
 def remove(self, el):
-    self.removeWidget(el)
+    # NOTE: `removeWidget` hides the widget explicitly, so it would not be
+    # shown anymore when it is inserted again
     el.setParent(None)
 
 
-- 
2.43.0


From de8e65097c7b920294c0fed0f3fb3a040779caf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:11 +0000
Subject: [PATCH 45/85] fix: type name progressbar was misspelled

---
 collagraph/renderers/pyside_renderer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 8335743..15a1f07 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -25,6 +25,8 @@ TYPE_MAPPING = {
     "radiobutton": QtWidgets.QRadioButton,
     "dialogbuttonbox": QtWidgets.QDialogButtonBox,
     "groupbox": QtWidgets.QGroupBox,
+    "progressbar": QtWidgets.QProgressBar,
+    # Misspelled, kept for compatibility
     "progessbar": QtWidgets.QProgressBar,
     "scrollarea": QtWidgets.QScrollArea,
     "slider": QtWidgets.QSlider,
-- 
2.43.0


From cfd025abdfca10d9999585c919e4e0e8090eb061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:56 +0000
Subject: [PATCH 46/85] fix: layouts that are registered with dashes or
 underscores were not found

---
 collagraph/renderers/pyside/objects/layouts.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/layouts.py b/collagraph/renderers/pyside/objects/layouts.py
index e9ea0ef..4717777 100644
--- a/collagraph/renderers/pyside/objects/layouts.py
+++ b/collagraph/renderers/pyside/objects/layouts.py
@@ -8,7 +8,7 @@ from PySide6.QtWidgets import (
 )
 
 from .. import attr_name_to_method_name, call_method
-from ...pyside_renderer import LAYOUT_MAPPING, PySideRenderer
+from ...pyside_renderer import LAYOUT_MAPPING, normalize_name, PySideRenderer
 
 DIRECTIONS = {
     "TopToBottom": QBoxLayout.Direction.TopToBottom,
@@ -125,7 +125,7 @@ def take_widgets(layout):
 
 @PySideRenderer.register_custom_attribute("layout")
 def set_layout_attr(self, attr, value):
-    if layout_type := LAYOUT_MAPPING.get(value["type"].lower()):
+    if layout_type := LAYOUT_MAPPING.get(normalize_name(value["type"])):
         layout = self.layout()
         if isinstance(layout, layout_type):
             pass
@@ -133,7 +133,7 @@ def set_layout_attr(self, attr, value):
             widgets = take_widgets(layout) if layout else []
             if layout:
                 QWidget().setLayout(layout)
-            layout = PySideRenderer.create_object(value["type"].lower())
+            layout = PySideRenderer.create_object(normalize_name(value["type"]))
             self.setLayout(layout)
             for widget in widgets:
                 layout.insert(widget)
-- 
2.43.0


From 1f0da6560a0b0ccb3e2db8ca0960d75f8dc5249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:36 +0000
Subject: [PATCH 47/85] fix: elements of renderers that are falsy got no
 attributes and were created again on each update

---
 collagraph/collagraph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 300344f..3f92b88 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -259,7 +259,7 @@ class Collagraph:
 
     def update_host_component(self, fiber: Fiber):
         # Add dom node, but not for template/slot tags (which are virtual tags)
-        if not fiber.dom and fiber.type not in VIRTUAL_NODE_TYPES:
+        if fiber.dom is None and fiber.type not in VIRTUAL_NODE_TYPES:
             fiber.dom = self.create_dom(fiber)
 
         if fiber.alternate:
@@ -549,7 +549,7 @@ class Collagraph:
     def update_dom_or_component(
         self, fiber: Fiber, dom: Any, prev_props: Dict, next_props: Dict
     ):
-        if not dom and not fiber.component:
+        if dom is None and not fiber.component:
             return
 
         if fiber.type == "TEXT_ELEMENT":
@@ -617,7 +617,7 @@ class Collagraph:
             if events_to_remove or events_to_add or attrs_to_remove or attrs_to_update:
                 # Mark the fiber as updated
                 fiber.updated = True
-        elif dom:
+        else:
             for event_type, val in events_to_remove.items():
                 self.renderer.remove_event_listener(dom, event_type, val)
 
-- 
2.43.0


From ed335cef60ea50d3e6febce48602aa2c0bf28a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 48/85] fix: imported object with the name 'name' was not
 available in templates

---
 collagraph/cgx/cgx.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index a55e2f7..d7e2169 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -177,27 +177,27 @@ def create_ast_render_function(node, names):
             f"""
             from warnings import warn as _warn
 
-            for name in {{{names_str}}}:
-                if name in self.state:
+            for _name in {{{names_str}}}:
+                if _name in self.state:
                     _warn(
-                        f"Found imported name '{{name}}' "
+                        f"Found imported name '{{_name}}' "
                         f"as key in self.state: {{self}}.\\n"
                         "If the value from self.state is intended, please resolve by "
-                        f"replacing '{{name}}' with 'state['{{name}}']'"
+                        f"replacing '{{_name}}' with 'state['{{_name}}']'"
                     )
-                if name in self.props:
+                if _name in self.props:
                     _warn(
-                        f"Found imported name '{{name}}' "
+                        f"Found imported name '{{_name}}' "
                         f"as key in self.props: {{self}}.\\n"
                         "If the value from self.props is intended, please resolve by "
-                        f"replacing '{{name}}' with 'props['{{name}}']'"
+                        f"replacing '{{_name}}' with 'props['{{_name}}']'"
                     )
-                if hasattr(self, name):
+                if hasattr(self, _name):
                     _warn(
-                        f"Found imported name '{{name}}' "
+                        f"Found imported name '{{_name}}' "
                         f"as attribute on self: {{self}}.\\n"
                         "If the attribute from self is intended, please resolve by "
-                        f"replacing '{{name}}' with 'self.{{name}}'"
+                        f"replacing '{{_name}}' with 'self.{{_name}}'"
                     )
             """
         )
-- 
2.43.0


From f91a026de30a037332d14ff8366e6e38bd7782d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 49/85] fix: names imported within functions of the script were
 considered global in templates

---
 collagraph/cgx/cgx.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index d7e2169..5a62c8d 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -768,6 +768,13 @@ class ImportsCollector(ast.NodeVisitor):
         for alias in node.names:
             self.names.add(alias.asname or alias.name)
 
+    def visit_FunctionDef(self, node):
+        # Imports within functions and classes are local to these
+        return
+
+    visit_AsyncFunctionDef = visit_FunctionDef
+    visit_ClassDef = visit_FunctionDef
+
 
 class TextElement:
     def __init__(self, content, location=None):
-- 
2.43.0


From 5905e6a239416a3b7e297a8f079b742c0644ff20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 50/85] fix: text within v-for with a variable named 'str' or
 'zip' raised TypeError

---
 collagraph/cgx/cgx.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 5a62c8d..27fe669 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -585,7 +585,7 @@ def args_for_text_element(child, names):
         args.append(
             # The following tree is the ast of the following expression:
             # "".join(
-            #     [x + str(y) for x, y in zip(string_parts, expressions)]
+            #     ["{}{!s}".format(x, y) for x, y in [(string_part, expression), ...]]
             #     + [string_suffix]
             # )
             ast.Call(
@@ -595,14 +595,18 @@ def args_for_text_element(child, names):
                 args=[
                     ast.BinOp(
                         left=ast.ListComp(
-                            elt=ast.BinOp(
-                                left=ast.Name(id="x", ctx=ast.Load()),
-                                op=ast.Add(),
-                                right=ast.Call(
-                                    func=ast.Name(id="str", ctx=ast.Load()),
-                                    args=[ast.Name(id="y", ctx=ast.Load())],
-                                    keywords=[],
+                            # Builtins such as `str` and `zip` might be shadowed
+                            elt=ast.Call(
+                                func=ast.Attribute(
+                                    value=ast.Constant(value="{}{!s}"),
+                                    attr="format",
+                                    ctx=ast.Load(),
                                 ),
+                                args=[
+                                    ast.Name(id="x", ctx=ast.Load()),
+                                    ast.Name(id="y", ctx=ast.Load()),
+                                ],
+                                keywords=[],
                             ),
                             generators=[
                                 ast.comprehension(
@@ -613,16 +617,12 @@ def args_for_text_element(child, names):
                                         ],
                                         ctx=ast.Store(),
                                     ),
-                                    iter=ast.Call(
-                                        func=ast.Name(id="zip", ctx=ast.Load()),
-                                        args=[
-                                            ast.List(
-                                                elts=string_parts,
-                                                ctx=ast.Load(),
-                                            ),
-                                            ast.List(elts=expressions, ctx=ast.Load()),
+                                    iter=ast.List(
+                                        elts=[
+                                            ast.Tuple(elts=[x, y], ctx=ast.Load())
+                                            for x, y in zip(string_parts, expressions)
                                         ],
-                                        keywords=[],
+                                        ctx=ast.Load(),
                                     ),
                                     ifs=[],
                                     is_async=0,
-- 
2.43.0


From 270c893dc0f3e124079125309fb3d949534dbfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 51/85] fix: slot content within v-for with a variable named
 'props' got the props of the slot

---
 collagraph/cgx/cgx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 27fe669..ad9a0a8 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -508,7 +508,8 @@ def convert_node_to_args(node, *, names=None):
                 ast.Lambda(
                     args=ast.arguments(
                         posonlyargs=[],
-                        args=[ast.arg(arg="props")],
+                        # This name should not shadow variables of v-for
+                        args=[ast.arg(arg=f"{AST_GEN_VARIABLE_PREFIX}props")],
                         kwonlyargs=[],
                         kw_defaults=[],
                         defaults=[],
-- 
2.43.0


From 17893a9bbe7565c10acc14873b421a94c497fb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 52/85] fix: call updated when child components are moved

---
 collagraph/collagraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 3f92b88..c8a6689 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -523,9 +523,10 @@ class Collagraph:
                     fiber.dom, dom_parent, anchor=find_anchor(fiber, dom_parent_fiber)
                 )
         elif fiber.effect_tag == EffectTag.UPDATE:
+            if fiber.move:
+                self.mark_updated(fiber)
             if fiber.dom is not None:
                 if fiber.move:
-                    self.mark_updated(fiber)
                     self.renderer.remove(fiber.dom, dom_parent)
                     self.renderer.insert(
                         fiber.dom,
-- 
2.43.0


From c76c791992761df1f5118f51a7dbaea7aacb0eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 53/85] fix: updating an attribute with an array as value
 raised ValueError

---
 collagraph/collagraph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index c8a6689..39f3805 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -698,6 +698,12 @@ def is_new(val, other, key):
     old_value = other.get(key)
     if callable(val) and callable(old_value):
         return not equivalent_functions(old_value, val)
+    shape = getattr(val, "shape", None)
+    if shape != getattr(old_value, "shape", None):
+        return True
+    if isinstance(shape, tuple):
+        # The comparison of arrays results in an array as well
+        return bool((old_value != val).any())
     return xor(old_value is None, val is None) or old_value != val
 
 
-- 
2.43.0


From c8d9246582c81a0aa889a3b27255aa29b01e4570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:33 +0000
Subject: [PATCH 54/85] fix: dock widget used a groupbox as its title bar

---
 collagraph/renderers/pyside/objects/dockwidget.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/dockwidget.py b/collagraph/renderers/pyside/objects/dockwidget.py
index 9266774..577e7bb 100644
--- a/collagraph/renderers/pyside/objects/dockwidget.py
+++ b/collagraph/renderers/pyside/objects/dockwidget.py
@@ -5,7 +5,9 @@ from ... import PySideRenderer
 
 @PySideRenderer.register_insert(QtWidgets.QDockWidget)
 def insert(self, el, anchor=None):
-    if getattr(el, "title", False):
+    # Widgets such as QGroupBox have a method with the name 'title'
+    title = getattr(el, "title", False)
+    if title and not callable(title):
         self.setTitleBarWidget(el)
     else:
         self.setWidget(el)
-- 
2.43.0


From dc68cbaf086562e55bc75612214bfb7a1721c251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 55/85] fix: command line offered renderers that are not
 available

---
 collagraph/__main__.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/collagraph/__main__.py b/collagraph/__main__.py
index 8e8280d..cac1f02 100644
--- a/collagraph/__main__.py
+++ b/collagraph/__main__.py
@@ -1,5 +1,4 @@
 import argparse
-import importlib
 import json
 from pathlib import Path
 
@@ -17,11 +16,9 @@ def available_renderers():
         # TODO: add support for DomRenderer
         # "DomRenderer": "dom",
     }.items():
-        try:
-            importlib.import_module("collagraph", renderer_type)
+        # Renderers are only there when their dependencies are installed
+        if hasattr(cg, renderer_type):
             result.add(name)
-        except ImportError:
-            continue
     return result
 
 
-- 
2.43.0


From 7056f4d0e83d37fd862610751cd8d1f6bcaf424a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:49 +0000
Subject: [PATCH 56/85] fix: long json string as state on the command line
 raised OSError

---
 collagraph/__main__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/collagraph/__main__.py b/collagraph/__main__.py
index cac1f02..372fc8d 100644
--- a/collagraph/__main__.py
+++ b/collagraph/__main__.py
@@ -85,7 +85,13 @@ def existing_component_file(value):
 
 def json_contents(value):
     path = Path(value)
-    if path.is_file():
+    try:
+        is_file = path.is_file()
+    except OSError:
+        # A json string can be too long to be a path
+        is_file = False
+
+    if is_file:
         with path.open(mode="r", encoding="utf-8") as fh:
             try:
                 return json.load(fh)
-- 
2.43.0


From a119dd77a365041cf02329f4a92f5cf1dccd3ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 57/85] fix: dialogs that were moved got deleted

---
 collagraph/renderers/pyside_renderer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 15a1f07..718dcab 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -331,9 +331,9 @@ class PySideRenderer(Renderer):
         if isinstance(el, QtWidgets.QDialog):
             # Hide the dialog to make sure it's not visible anymore
             el.hide()
-            # Then mark the element for deletion, so that it won't trigger
-            # any of 'finished', 'done', 'rejected', 'accepted' signals.
-            el.deleteLater()
+            # Then release the element (it might be inserted again), so that it
+            # won't trigger any of 'finished', 'done', 'rejected', 'accepted' signals.
+            el.setParent(None)
             return
 
         parent.remove(el)
-- 
2.43.0


From fee55e410894a4b9fb19668cd213b00172a8c287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 58/85] fix: names such as __file__ and relative imports didn't
 work in scripts of cgx files

---
 collagraph/cgx/cgx.py      | 10 ++++++----
 collagraph/cgx/importer.py | 16 +++++++---------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index ad9a0a8..066c9e7 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -27,7 +27,7 @@ COMPONENT_CLASS_DEFINITION = re.compile(r"class\s*(.*?)\s*\(.*?\)\s*:")
 MOUSTACHES = re.compile(r"\{\{.*?\}\}")
 
 
-def load(path):
+def load(path, namespace=None):
     """
     Loads and returns a component from a CGX file.
 
@@ -55,12 +55,14 @@ def load(path):
     """
     template = path.read_text()
 
-    return load_from_string(template, path)
+    return load_from_string(template, path, namespace)
 
 
-def load_from_string(template, path=None):
+def load_from_string(template, path=None, namespace=None):
     """
     Load template from a string
+
+    The optional namespace contains the names that are available to the script.
     """
     if path is None:
         path = "<template>"
@@ -72,7 +74,7 @@ def load_from_string(template, path=None):
     code = compile(tree, filename=str(path), mode="exec")
     # Execute the code as module and pass a dictionary that will capture
     # the global and local scope of the module
-    module_namespace = {}
+    module_namespace = {} if namespace is None else namespace
     exec(code, module_namespace)
 
     # Check that the class definition is an actual subclass of Component
diff --git a/collagraph/cgx/importer.py b/collagraph/cgx/importer.py
index 38fb914..4e5d925 100644
--- a/collagraph/cgx/importer.py
+++ b/collagraph/cgx/importer.py
@@ -34,17 +34,15 @@ class CgxImporter:
 
     def exec_module(self, module):
         """Executing the module means reading the cgx file"""
-        component, context = cgx.load(self.cgx_path)
-        # Add the default module keys to the context such that
+        # Add the default module keys to the namespace such that
         # __file__, __name__ and such are available to the loaded module.
         # Any other keys are outdated definitions from before a reload.
-        context.update(
-            {
-                key: value
-                for key, value in module.__dict__.items()
-                if key.startswith("__") and key.endswith("__")
-            }
-        )
+        namespace = {
+            key: value
+            for key, value in module.__dict__.items()
+            if key.startswith("__") and key.endswith("__")
+        }
+        component, context = cgx.load(self.cgx_path, namespace)
 
         module.__dict__.update(context)
         module.__dict__[component.__name__] = component
-- 
2.43.0


From 1362b2f080b126e9989fdbc0e11c30130051785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 59/85] fix: packaging failed on relative imports in cgx files

---
 collagraph/__pyinstaller/hook-collagraph.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/collagraph/__pyinstaller/hook-collagraph.py b/collagraph/__pyinstaller/hook-collagraph.py
index ce32924..68c7265 100644
--- a/collagraph/__pyinstaller/hook-collagraph.py
+++ b/collagraph/__pyinstaller/hook-collagraph.py
@@ -1,4 +1,5 @@
 import ast
+from importlib.util import resolve_name
 from pathlib import Path
 
 from PyInstaller.utils.hooks import collect_data_files
@@ -13,14 +14,16 @@ def hook(hook_api):
     datas = []
     for package, code in collagraph_uses.items():
         filename = Path(code.co_filename)
-        hidden_imports |= collect_hidden_imports(filename.parent)
+        # Modules are part of the package of their folder
+        parent = package if filename.stem == "__init__" else package.rpartition(".")[0]
+        hidden_imports |= collect_hidden_imports(filename.parent, parent)
         datas += collect_data_files(package, includes=["**/*.cgx"])
 
     hook_api.add_imports(*hidden_imports)
     hook_api.add_datas(datas)
 
 
-def collect_hidden_imports(folder):
+def collect_hidden_imports(folder, package=""):
     folder = Path(folder)
 
     hidden_imports = set()
@@ -35,7 +38,8 @@ def collect_hidden_imports(folder):
 
         # Find a list of imported names (or aliases, if any)
         # Those names don't have to be wrapped by `_lookup`
-        imported_names = ImportsCollector()
+        folders = path.parent.relative_to(folder).parts
+        imported_names = ImportsCollector(".".join([package, *folders]).strip("."))
         imported_names.visit(script_tree)
 
         hidden_imports |= imported_names.names
@@ -44,13 +48,16 @@ def collect_hidden_imports(folder):
 
 
 class ImportsCollector(ast.NodeVisitor):
-    def __init__(self):
+    def __init__(self, package=""):
         self.names = set()
+        # Relative imports are relative to the package
+        self.package = package
 
     def visit_ImportFrom(self, node):
+        module = resolve_name("." * node.level + (node.module or ""), self.package)
         for alias in node.names:
-            self.names.add(".".join([node.module, alias.name]))
-        self.names.add(node.module)
+            self.names.add(".".join([module, alias.name]))
+        self.names.add(module)
 
     def visit_Import(self, node):
         for alias in node.names:
-- 
2.43.0


From fa4ccdcbc862b61d0391c080fde7500486fcd610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 60/85] fix: names of attributes, events and slots with colons
 in templates raised or got lost

---
 collagraph/cgx/cgx.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 066c9e7..c913e8e 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -333,7 +333,7 @@ def convert_node_to_args(node, *, names=None):
                     RewriteName(skip=names).visit(ast.parse(val, mode="eval")).body
                 )
             else:
-                _, key = key.split(":")
+                _, key = key.split(":", 1)
                 props_keys.append(ast.Constant(value=key))
                 props_values.append(
                     RewriteName(skip=names).visit(ast.parse(val, mode="eval")).body
@@ -342,7 +342,7 @@ def convert_node_to_args(node, *, names=None):
 
         if key.startswith((DIRECTIVE_ON, "@")):
             split_char = "@" if key.startswith("@") else ":"
-            _, key = key.split(split_char)
+            _, key = key.split(split_char, 1)
             key = f"on_{key}"
             props_keys.append(ast.Constant(value=key))
 
@@ -446,8 +446,9 @@ def convert_node_to_args(node, *, names=None):
 
         for attr in child.attrs.keys():
             if attr.startswith(("v-slot", "#")):
-                slot_name = attr.split(":")[-1].split("#")[-1]
-                if slot_name == "v-slot":
+                # The name itself can contain colons
+                slot_name = attr[1:] if attr[0] == "#" else attr.partition(":")[2]
+                if not slot_name:
                     slot_name = "default"
                 slots[slot_name] = child
 
-- 
2.43.0


From 22a1120c9f82fa95793dfd9b82e628fc4f2177f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 61/85] fix: types with dots in their name raised TypeError
 with PySide renderer

---
 collagraph/renderers/pyside_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 718dcab..ae7661b 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -502,7 +502,7 @@ def name_to_type(name, modules=None, orig=None):
         if element_class is not None:
             if len(parts) > 1:
                 return name_to_type(
-                    ".".join(parts[1:]), modules=[element_class], orig=name
+                    ".".join(parts[1:]), modules=(element_class,), orig=name
                 )
             return element_class
 
-- 
2.43.0


From 976f25d122df65d9dfb1f937e9bcbe8df0ba26aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 62/85] fix: handlers for events with capitals in their name
 were never called

---
 collagraph/component.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/collagraph/component.py b/collagraph/component.py
index c3fab52..75a83ad 100644
--- a/collagraph/component.py
+++ b/collagraph/component.py
@@ -117,16 +117,17 @@ class Component:
     def emit(self, event, *args, **kwargs):
         """Call event handlers for the given event. Any args and kwargs will be passed
         on to the registered handlers."""
-        for handler in self._event_handlers[event].copy():
+        # The names of events are case insensitive, as for elements
+        for handler in self._event_handlers[event.lower()].copy():
             handler(*args, **kwargs)
 
     def add_event_handler(self, event, handler):
         """Adds an event handler for the given event."""
-        self._event_handlers[event].add(handler)
+        self._event_handlers[event.lower()].add(handler)
 
     def remove_event_handler(self, event, handler):
         """Removes an event handler for the given event."""
-        self._event_handlers[event].remove(handler)
+        self._event_handlers[event.lower()].remove(handler)
 
     def _lookup(self, name, context):
         """
-- 
2.43.0


From 81b65e8df264202caf53102fd9e59cbb32676842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 63/85] fix: self could not be used in expressions of templates

---
 collagraph/cgx/cgx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index c913e8e..7f6001f 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -715,7 +715,7 @@ class RewriteName(ast.NodeTransformer):
             return node
 
         # Don't replace any name that should be explicitely skipped
-        if node.id in self.skip:
+        if node.id == "self" or node.id in self.skip:
             return node
 
         return ast.Call(
-- 
2.43.0


From 94a7fc9171c3d6951090e2b572932f9dceb11e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 64/85] fix: text (with expressions) that contains '<' got
 split up

---
 collagraph/cgx/cgx.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 7f6001f..d15c240 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -858,9 +858,13 @@ class CGXParser(HTMLParser):
         node.end = self.getpos()
 
     def handle_data(self, data):
-        if data.strip():
+        siblings = self.stack[-1].children
+        if siblings and isinstance(siblings[-1], TextElement):
+            # The parser splits up text that contains '<'
+            siblings[-1].content += data
+        elif data.strip():
             # Add item as child to the last on the stack
-            self.stack[-1].children.append(
+            siblings.append(
                 TextElement(content=data, location=self.getpos())
             )
 
-- 
2.43.0


From 594a14479fbdec259b3096b8e85c1f851b2eaf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 65/85] fix: expressions in text were not evaluated when on
 multiple lines

---
 collagraph/cgx/cgx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index d15c240..4061a3b 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -24,7 +24,7 @@ DIRECTIVE_ON = f"{DIRECTIVE_PREFIX}on"
 AST_GEN_VARIABLE_PREFIX = "_ast_"
 
 COMPONENT_CLASS_DEFINITION = re.compile(r"class\s*(.*?)\s*\(.*?\)\s*:")
-MOUSTACHES = re.compile(r"\{\{.*?\}\}")
+MOUSTACHES = re.compile(r"\{\{.*?\}\}", re.DOTALL)
 
 
 def load(path, namespace=None):
-- 
2.43.0


From 080d6140822c209bcecd86fcb03a0dd779e1e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 66/85] fix: expressions of directives could not start with
 whitespace

---
 collagraph/cgx/cgx.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 4061a3b..6d868e2 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -330,13 +330,13 @@ def convert_node_to_args(node, *, names=None):
                 # Use 'None' to mark this is a binding of multiple attributes
                 props_keys.append(None)
                 props_values.append(
-                    RewriteName(skip=names).visit(ast.parse(val, mode="eval")).body
+                    RewriteName(skip=names).visit(parse_expression(val)).body
                 )
             else:
                 _, key = key.split(":", 1)
                 props_keys.append(ast.Constant(value=key))
                 props_values.append(
-                    RewriteName(skip=names).visit(ast.parse(val, mode="eval")).body
+                    RewriteName(skip=names).visit(parse_expression(val)).body
                 )
             continue
 
@@ -347,7 +347,7 @@ def convert_node_to_args(node, *, names=None):
             props_keys.append(ast.Constant(value=key))
 
             props_values.append(
-                RewriteName(skip=names).visit(ast.parse(val, mode="eval")).body
+                RewriteName(skip=names).visit(parse_expression(val)).body
             )
             continue
 
@@ -580,7 +580,7 @@ def args_for_text_element(child, names):
             string_parts.append(ast.Constant(value=child.content[offset : span[0]]))
             expr = (child.content[span[0] + 2 : span[1] - 2]).strip()
             expressions.append(
-                RewriteName(skip=names).visit(ast.parse(expr, mode="eval")).body
+                RewriteName(skip=names).visit(parse_expression(expr)).body
             )
             offset = span[1]
 
@@ -659,7 +659,7 @@ def create_control_flow_ast(control_flow, *, names):
 
     rewrite_name = RewriteName(skip=names)
 
-    test = ast.parse(if_node.attrs[if_directive], mode="eval")
+    test = parse_expression(if_node.attrs[if_directive])
     root_statement = ast.IfExp(
         test=rewrite_name.visit(test).body,
         body=call_create_element(if_node, names=names),
@@ -668,7 +668,7 @@ def create_control_flow_ast(control_flow, *, names):
     current_statement = root_statement
 
     for directive, node in if_else_statements:
-        test = ast.parse(node.attrs[directive], mode="eval")
+        test = parse_expression(node.attrs[directive])
         if_else_tree = ast.IfExp(
             test=rewrite_name.visit(test).body,
             body=call_create_element(node, names=names),
@@ -683,6 +683,11 @@ def create_control_flow_ast(control_flow, *, names):
     return root_statement
 
 
+def parse_expression(expression):
+    """Returns the AST of an expression, which can be surrounded by whitespace"""
+    return ast.parse(expression.strip(), mode="eval")
+
+
 def is_directive(key):
     return key.startswith((DIRECTIVE_PREFIX, ":", "@"))
 
-- 
2.43.0


From 3bcb946a783939415734f78e76837365a52606a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 67/85] fix: tags with dots that start with a capital raised
 NameError

---
 collagraph/cgx/cgx.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 6d868e2..6ec1541 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -298,11 +298,7 @@ def convert_node_to_args(node, *, names=None):
     Converts the node to args that can be passed to `collagraph.create_element()`.
     """
     # Construct the first argument: type of node
-    if not node.tag[0].islower():
-        # If the tag does not start with a capital, then it is assumed to be
-        # a class or function, so a Name node is inserted in the ast tree
-        type_arg = ast.Name(id=node.tag, ctx=ast.Load())
-    elif "." in node.tag:
+    if "." in node.tag:
         # If a dot is found in the tag, then it is assumed that the tag represents
         # a package/module attribute lookup
         name, *attributes = node.tag.split(".")
@@ -310,6 +306,10 @@ def convert_node_to_args(node, *, names=None):
         for attr in attributes:
             result = ast.Attribute(value=result, attr=attr, ctx=ast.Load())
         type_arg = result
+    elif not node.tag[0].islower():
+        # If the tag does not start with a capital, then it is assumed to be
+        # a class or function, so a Name node is inserted in the ast tree
+        type_arg = ast.Name(id=node.tag, ctx=ast.Load())
     else:
         # Otherwise it is just a constant string
         type_arg = ast.Constant(value=node.tag)
-- 
2.43.0


From af843260100a4f995b1c37e9af4c207a3ae32ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 68/85] fix: line numbers of code in scripts did not match the
 lines of the CGX file

---
 collagraph/cgx/cgx.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 6ec1541..a2010a2 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -153,13 +153,12 @@ def get_script_ast(parser, path):
     script_node = parser.root.child_with_tag("script")
     assert isinstance(script_node.children[0], TextElement)
     script = script_node.children[0].content
-    line, _ = script_node.location
+    line, _ = script_node.children[0].location
 
     # Create an AST from the script
-    script_tree = ast.parse(script, filename=str(path), mode="exec")
     # Make sure that the lineno's match up with the lines in the CGX file
-    ast.increment_lineno(script_tree, n=line)
-    return script_tree
+    script = "\n" * (line - 1) + script
+    return ast.parse(script, filename=str(path), mode="exec")
 
 
 def create_ast_render_function(node, names):
-- 
2.43.0


From 038882d501df8bd228e9221afe1330115123136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 69/85] fix: CGX files were read with the encoding of the
 locale

---
 collagraph/__pyinstaller/hook-collagraph.py | 2 +-
 collagraph/cgx/cgx.py                       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/collagraph/__pyinstaller/hook-collagraph.py b/collagraph/__pyinstaller/hook-collagraph.py
index 68c7265..cfaa719 100644
--- a/collagraph/__pyinstaller/hook-collagraph.py
+++ b/collagraph/__pyinstaller/hook-collagraph.py
@@ -28,7 +28,7 @@ def collect_hidden_imports(folder, package=""):
 
     hidden_imports = set()
     for path in folder.glob("**/*.cgx"):
-        template = path.read_text()
+        template = path.read_text(encoding="utf-8")
         # Parse the file component into a tree of Node instances
         parser = CGXParser()
         parser.feed(template)
diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index a2010a2..985a60f 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -53,7 +53,7 @@ def load(path, namespace=None):
         </script>
 
     """
-    template = path.read_text()
+    template = path.read_text(encoding="utf-8")
 
     return load_from_string(template, path, namespace)
 
@@ -96,7 +96,7 @@ def construct_ast(path, template=None):
     class definition as `render` function.
     """
     if not template:
-        template = Path(path).read_text()
+        template = Path(path).read_text(encoding="utf-8")
 
     # Parse the file component into a tree of Node instances
     parser = CGXParser()
-- 
2.43.0


From 52a2bd4eb7e49a364ec462d87a6c1a84cb9ddbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 70/85] fix: functions of CGX modules did not share their
 global names with the module

---
 collagraph/cgx/importer.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/collagraph/cgx/importer.py b/collagraph/cgx/importer.py
index 4e5d925..9ad2eda 100644
--- a/collagraph/cgx/importer.py
+++ b/collagraph/cgx/importer.py
@@ -34,18 +34,10 @@ class CgxImporter:
 
     def exec_module(self, module):
         """Executing the module means reading the cgx file"""
-        # Add the default module keys to the namespace such that
-        # __file__, __name__ and such are available to the loaded module.
-        # Any other keys are outdated definitions from before a reload.
-        namespace = {
-            key: value
-            for key, value in module.__dict__.items()
-            if key.startswith("__") and key.endswith("__")
-        }
-        component, context = cgx.load(self.cgx_path, namespace)
-
-        module.__dict__.update(context)
-        module.__dict__[component.__name__] = component
+        # Execute the script in the namespace of the module itself such that
+        # __file__, __name__ and such are available to the loaded module
+        # and its functions share their global names with the module
+        cgx.load(self.cgx_path, module.__dict__)
 
 
 # Add the Cgx importer at the end of the list of finders
-- 
2.43.0


From 07b56e4b7ef15707bb27be5873900f63a9779a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 71/85] fix: text within the content of components was not
 rendered

---
 collagraph/cgx/cgx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 985a60f..7a116d9 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -364,7 +364,8 @@ def convert_node_to_args(node, *, names=None):
         default_slot_content = [
             child
             for child in node.children
-            if isinstance(child, Element) and child.tag != "template"
+            if isinstance(child, TextElement)
+            or (isinstance(child, Element) and child.tag != "template")
         ]
 
         if default_slot_content:
-- 
2.43.0


From bf4d4479638308b0e95e20b6cd73f03d1bfc8481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 72/85] fix: names of modules that are imported by a dotted
 name are imported names in templates

---
 collagraph/cgx/cgx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 7a116d9..f758939 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -775,7 +775,8 @@ class ImportsCollector(ast.NodeVisitor):
 
     def visit_Import(self, node):
         for alias in node.names:
-            self.names.add(alias.asname or alias.name)
+            # `import a.b` makes just the name `a` available
+            self.names.add(alias.asname or alias.name.partition(".")[0])
 
     def visit_FunctionDef(self, node):
         # Imports within functions and classes are local to these
-- 
2.43.0


From bb26aacd2da63ccd4cae916e8cf1963af5fdd6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:23 +0000
Subject: [PATCH 73/85] fix: default values of Qt properties were those of
 elements that were changed already

The default value was read when the attribute was set for the first time, on an
element that might have been changed by the user by then (a text that was typed),
and then used for all elements of that type.
---
 collagraph/renderers/pyside_renderer.py | 54 +++++++++++++++----------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index ae7661b..280d604 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -63,9 +63,9 @@ DEFAULT_ARGS = {
 # Cache for wrapped types
 WRAPPED_TYPES = {}
 
-# Default values for attributes. Used when an attribute
-# is 'removed', then the default value (if one exists)
-# is restored.
+# Default values for attributes, for each of the types. Used
+# when an attribute is 'removed', then the default value (if
+# one exists) is restored.
 DEFAULT_VALUES = {}
 
 # Custom methods that are registered for specific attribute names
@@ -292,7 +292,9 @@ class PySideRenderer(Renderer):
         # Update the default arguments map with the new wrapped type
         DEFAULT_ARGS[wrapped_type] = DEFAULT_ARGS.get(original_type, ((), {}))
 
-        return create_instance(WRAPPED_TYPES[type_name])
+        element = create_instance(WRAPPED_TYPES[type_name])
+        store_default_values(element)
+        return element
 
     def create_text_element(self):
         raise NotImplementedError
@@ -343,21 +345,9 @@ class PySideRenderer(Renderer):
 
     def set_attribute(self, el: Any, attr: str, value: Any):
         """Set the attribute `attr` of the element `el` to the value `value`."""
-        key = f"{type(el).__name__}.{attr}"
-        if key not in DEFAULT_VALUES:
-            if not hasattr(el, "metaObject"):
-                logger.debug(f"{el} does not have metaObject")
-            else:
-                method_name = attr_name_to_method_name(attr, setter=False)
-
-                meta_object = el.metaObject()
-                property_idx = meta_object.indexOfProperty(method_name)
-                if property_idx >= 0:
-                    meta_property = meta_object.property(property_idx)
-                    result = meta_property.read(el)
-                    DEFAULT_VALUES[key] = (meta_property, result)
-                else:
-                    logger.debug(f"'{attr}' is not a Qt property on {type(el)}")
+        if type(el).__name__ not in DEFAULT_VALUES:
+            # Element that was not created by the renderer
+            store_default_values(el)
 
         # Check for registered methods for custom attributes
         if set_attr := CUSTOM_ATTRIBUTES.get(attr):
@@ -374,9 +364,10 @@ class PySideRenderer(Renderer):
                 delattr(el, attr)
                 return
 
-        key = f"{type(el).__name__}.{attr}"
-        if key in DEFAULT_VALUES:
-            meta_property, default_value = DEFAULT_VALUES[key]
+        property_name = attr_name_to_method_name(attr, setter=False)
+        default_values = DEFAULT_VALUES.get(type(el).__name__, {})
+        if property_name in default_values:
+            meta_property, default_value = default_values[property_name]
             meta_property.write(el, default_value)
             return
 
@@ -456,6 +447,25 @@ def create_instance(pyside_type):
     return pyside_type(*args, **kwargs)
 
 
+def store_default_values(el):
+    """Stores the values of all the Qt properties of a new element as default values.
+    Later on, the values might have been changed already (by the user for instance)."""
+    default_values = DEFAULT_VALUES[type(el).__name__] = {}
+    if not hasattr(el, "metaObject"):
+        logger.debug(f"{el} does not have metaObject")
+        return
+
+    meta_object = el.metaObject()
+    for index in range(meta_object.propertyCount()):
+        meta_property = meta_object.property(index)
+        try:
+            default_value = meta_property.read(el)
+        except NotImplementedError:
+            logger.debug(f"'{meta_property.name()}' is abstract on {type(el)}")
+            continue
+        default_values[meta_property.name()] = (meta_property, default_value)
+
+
 def normalize_name(name):
     """Transforms given name to lower case and removes underscores and dashes"""
     return name.lower().replace("_", "").replace("-", "")
-- 
2.43.0


From eb288a449beaa3703b521b00f20c9c23b5a450f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 74/85] fix: default values of attributes of pygfx objects were
 those of objects that were changed already

The default value was read when the attribute was set for the first time, on an
object that might have been changed by then, and then used for all objects of
that type.
---
 collagraph/renderers/pygfx_renderer.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/collagraph/renderers/pygfx_renderer.py b/collagraph/renderers/pygfx_renderer.py
index 77f8224..d9e252b 100644
--- a/collagraph/renderers/pygfx_renderer.py
+++ b/collagraph/renderers/pygfx_renderer.py
@@ -8,6 +8,19 @@ DEFAULT_ATTR_CACHE = {}
 CUSTOM_ATTR = object()
 
 
+def create_nested(element_type, attrs):
+    """Returns the object for the given (nested) attributes of a new element: existing
+    elements might have been changed already, so can't be used for default values.
+    Returns None when there is no such object by default."""
+    try:
+        obj = element_type()
+        for attribute in attrs:
+            obj = getattr(obj, attribute)
+        return obj
+    except (AttributeError, TypeError):
+        return None
+
+
 class PygfxRenderer(Renderer):
     """Renderer for Pygfx objects"""
 
@@ -44,7 +57,8 @@ class PygfxRenderer(Renderer):
         raise NotImplementedError
 
     def set_attribute(self, obj, attr, value):
-        key = f"{type(obj).__name__}.{attr}"
+        element_type = type(obj)
+        key = f"{element_type.__name__}.{attr}"
 
         # Split the given attr on dots to allow for
         # local.position for instance to be set
@@ -53,8 +67,9 @@ class PygfxRenderer(Renderer):
             obj = getattr(obj, attribute)
 
         if key not in DEFAULT_ATTR_CACHE:
-            if hasattr(obj, attr):
-                default_value = getattr(obj, attr)
+            new_obj = create_nested(element_type, attrs) or obj
+            if hasattr(new_obj, attr):
+                default_value = getattr(new_obj, attr)
                 if hasattr(default_value, "copy"):
                     DEFAULT_ATTR_CACHE[key] = default_value.copy()
                 else:
-- 
2.43.0


From 23fc2357f8fd9c5070c613575c642e2dc3c25b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:01 +0000
Subject: [PATCH 75/85] fix: attributes of PySide elements that are not Qt
 properties could not be removed

The label of a tab, the area of a tool bar and invisible widgets remained as they
were, and items, buttons, content, expanded and selected (and the text of status
bars and standard items) resulted in a NotImplementedError.
---
 collagraph/renderers/pyside_renderer.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 280d604..318f3d1 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -68,6 +68,20 @@ WRAPPED_TYPES = {}
 # one exists) is restored.
 DEFAULT_VALUES = {}
 
+# Values that undo attributes that are not Qt properties: mapping
+# from (type, attribute) to value
+UNSET_VALUES = {
+    (QtWidgets.QComboBox, "items"): (),
+    (QtWidgets.QDialogButtonBox, "buttons"): (),
+    (QtWidgets.QStatusBar, "text"): "",
+    (QtWidgets.QToolBar, "area"): QtCore.Qt.ToolBarArea.TopToolBarArea,
+    (QtWidgets.QTreeWidgetItem, "content"): {},
+    (QtWidgets.QTreeWidgetItem, "expanded"): False,
+    (QtWidgets.QTreeWidgetItem, "selected"): False,
+    (QtWidgets.QWidget, "tab_label"): "",
+    (QtGui.QStandardItem, "text"): "",
+}
+
 # Custom methods that are registered for specific attribute names
 CUSTOM_ATTRIBUTES = {}
 
@@ -358,6 +372,16 @@ class PySideRenderer(Renderer):
 
     def remove_attribute(self, el: Any, attr: str, value: Any):
         """Remove the attribute `attr` from the element `el`."""
+        for cls in type(el).__mro__:
+            if (cls, attr) in UNSET_VALUES:
+                self.set_attribute(el, attr, UNSET_VALUES[(cls, attr)])
+                return
+
+        if attr == "visible" and isinstance(el, QtWidgets.QWidget):
+            # New widgets are not visible until they are inserted
+            el.setVisible(self.autoshow or el.parent() is not None)
+            return
+
         # Make it possible to delete custom attributes
         if hasattr(el, attr):
             if getattr(el, attr) == value:
-- 
2.43.0


From baa8295d13dbb61f93f58e42e03f744444a3c41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 76/85] fix: components that are falsy (with a length of 0 for
 instance) were not rendered

---
 collagraph/collagraph.py | 29 ++++++++++++++++-------------
 collagraph/component.py  |  2 +-
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 39f3805..cac8df0 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -208,12 +208,14 @@ class Collagraph:
             next_fiber = next_fiber.parent
 
     def update_class_component(self, fiber: Fiber):
-        component = fiber.component or fiber.alternate and fiber.alternate.component
-        if not component:
+        component = fiber.component
+        if component is None and fiber.alternate:
+            component = fiber.alternate.component
+        if component is None:
             parent_component = None
             parent_fiber = fiber.parent
             while parent_fiber is not None:
-                if parent_fiber.component:
+                if parent_fiber.component is not None:
                     parent_component = parent_fiber.component
                     break
                 parent_fiber = parent_fiber.parent
@@ -235,7 +237,8 @@ class Collagraph:
             fiber.watcher.evaluate()
         else:
             fiber.watcher = watch(
-                component.render,
+                # The watcher does not call methods of components that are falsy
+                lambda: component.render(),
                 lambda: self.state_updated(fiber),
             )
 
@@ -440,16 +443,16 @@ class Collagraph:
                 component_hooks.put((fiber.child, True))
                 continue
 
-            if fiber.component:
+            if fiber.component is not None:
                 fiber.component._element = find_element(fiber)
 
             if fiber.mounted:
-                if fiber.component:
+                if fiber.component is not None:
                     fiber.component.mounted()
                 fiber.mounted = False
                 fiber.updated = False
             elif fiber.updated:
-                if fiber.component:
+                if fiber.component is not None:
                     fiber.component.updated()
                 fiber.updated = False
 
@@ -470,7 +473,7 @@ class Collagraph:
         the fibers with a dom element that can be removed.
         Clears the child and dom attributes of the fiber.
         """
-        if fiber.component:
+        if fiber.component is not None:
             if not fiber.unmounted:
                 fiber.component.before_unmount()
                 fiber.unmounted = True
@@ -478,7 +481,7 @@ class Collagraph:
         def traverse_before_unmount(fiber):
             if fiber is None:
                 return
-            if fiber.component:
+            if fiber.component is not None:
                 if not fiber.unmounted:
                     fiber.component.before_unmount()
                     fiber.unmounted = True
@@ -513,7 +516,7 @@ class Collagraph:
 
         if fiber.effect_tag == EffectTag.PLACEMENT:
             self.mark_updated(fiber)
-            if fiber.component:
+            if fiber.component is not None:
                 self.update_dom_or_component(
                     fiber, None, prev_props={}, next_props=fiber.props
                 )
@@ -550,7 +553,7 @@ class Collagraph:
     def update_dom_or_component(
         self, fiber: Fiber, dom: Any, prev_props: Dict, next_props: Dict
     ):
-        if dom is None and not fiber.component:
+        if dom is None and fiber.component is None:
             return
 
         if fiber.type == "TEXT_ELEMENT":
@@ -594,7 +597,7 @@ class Collagraph:
                 if is_new(val, prev_props, key):
                     attrs_to_update[key] = val
 
-        if fiber.component:
+        if fiber.component is not None:
             # Get a writable reference to the read-only props of the component
             props = reactive(fiber.component.props)
 
@@ -638,7 +641,7 @@ class Collagraph:
         """Climb up the tree to find first component to mark as updated"""
         parent = fiber.parent
         while parent:
-            if parent.component:
+            if parent.component is not None:
                 # Mark the fiber as updated
                 parent.updated = True
                 break
diff --git a/collagraph/component.py b/collagraph/component.py
index 75a83ad..72fff44 100644
--- a/collagraph/component.py
+++ b/collagraph/component.py
@@ -16,7 +16,7 @@ class Component:
         self._element = None
         self._slots = {}
         self._event_handlers = defaultdict(set)
-        self._parent = ref(parent) if parent else None
+        self._parent = ref(parent) if parent is not None else None
         self._provided = {}
 
     @property
-- 
2.43.0


From 8b599aeaadba4ed04c6f8b6bfc64d42197785bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:13 +0000
Subject: [PATCH 77/85] fix: event handlers that are not hashable could not be
 registered

---
 collagraph/compare.py                   | 13 ++++++++++++-
 collagraph/component.py                 |  9 +++++----
 collagraph/renderers/dict_renderer.py   |  6 +++---
 collagraph/renderers/pyside_renderer.py | 13 +++++++------
 4 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/collagraph/compare.py b/collagraph/compare.py
index 73b8e66..eb0ff12 100644
--- a/collagraph/compare.py
+++ b/collagraph/compare.py
@@ -21,7 +21,8 @@ def equivalent_functions(a: Callable, b: Callable, visited=frozenset()):
                 and equivalent_functions(a.func, b.func, visited)
             )
 
-        return a == b
+        # Callable objects that are mutable might be equal right now, but can diverge
+        return handler_key(a) == handler_key(b)
 
     return (
         # Methods are only equivalent when bound to the same instance
@@ -34,6 +35,16 @@ def equivalent_functions(a: Callable, b: Callable, visited=frozenset()):
     )
 
 
+def handler_key(handler):
+    """Returns a value that can be used to look up the given event handler, which
+    itself might not be hashable. Handlers that are equal have the same key."""
+    try:
+        hash(handler)
+    except TypeError:
+        return id(handler)
+    return handler
+
+
 def equivalent_values(a, b, visited=frozenset()):
     """Returns whether value a can be exchanged for value b."""
     if a is b:
diff --git a/collagraph/component.py b/collagraph/component.py
index 72fff44..5c8ee5e 100644
--- a/collagraph/component.py
+++ b/collagraph/component.py
@@ -5,6 +5,7 @@ from weakref import ref
 from observ import reactive, readonly
 
 from collagraph import render_slot
+from collagraph.compare import handler_key
 
 
 class Component:
@@ -15,7 +16,7 @@ class Component:
         self._state = reactive({})
         self._element = None
         self._slots = {}
-        self._event_handlers = defaultdict(set)
+        self._event_handlers = defaultdict(dict)
         self._parent = ref(parent) if parent is not None else None
         self._provided = {}
 
@@ -118,16 +119,16 @@ class Component:
         """Call event handlers for the given event. Any args and kwargs will be passed
         on to the registered handlers."""
         # The names of events are case insensitive, as for elements
-        for handler in self._event_handlers[event.lower()].copy():
+        for handler in list(self._event_handlers[event.lower()].values()):
             handler(*args, **kwargs)
 
     def add_event_handler(self, event, handler):
         """Adds an event handler for the given event."""
-        self._event_handlers[event.lower()].add(handler)
+        self._event_handlers[event.lower()][handler_key(handler)] = handler
 
     def remove_event_handler(self, event, handler):
         """Removes an event handler for the given event."""
-        self._event_handlers[event.lower()].remove(handler)
+        del self._event_handlers[event.lower()][handler_key(handler)]
 
     def _lookup(self, name, context):
         """
diff --git a/collagraph/renderers/dict_renderer.py b/collagraph/renderers/dict_renderer.py
index 90950b9..a071ece 100644
--- a/collagraph/renderers/dict_renderer.py
+++ b/collagraph/renderers/dict_renderer.py
@@ -17,7 +17,7 @@ class DictRenderer(Renderer):
     * type: str
     * children: list
     * attributes: dict
-    * event_listeners: defaultdict(set)
+    * event_listeners: defaultdict(list)
     * text: str (only for TEXT_ELEMENT items)
     """
 
@@ -50,8 +50,8 @@ class DictRenderer(Renderer):
             del attributes[attr]
 
     def add_event_listener(self, el, event_type, value):
-        event_listeners = el.setdefault("handlers", defaultdict(set))
-        event_listeners[event_type].add(value)
+        event_listeners = el.setdefault("handlers", defaultdict(list))
+        event_listeners[event_type].append(value)
 
     def remove_event_listener(self, el, event_type, value):
         event_listeners = el.get("handlers", None)
diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 318f3d1..0974782 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -6,6 +6,7 @@ from warnings import warn
 
 from PySide6 import QtCore, QtGui, QtWidgets
 
+from collagraph.compare import handler_key
 from collagraph.types import EventLoopType
 from . import Renderer
 from .pyside import attr_name_to_method_name, camel_case
@@ -94,17 +95,17 @@ class EventFilter(QtCore.QObject):
 
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
-        self._event_handlers = defaultdict(set)
+        self._event_handlers = defaultdict(dict)
 
     def add_event_handler(self, event, handler):
-        self._event_handlers[event].add(handler)
+        self._event_handlers[event][handler_key(handler)] = handler
 
     def remove_event_handler(self, event, handler):
-        self._event_handlers[event].remove(handler)
+        del self._event_handlers[event][handler_key(handler)]
 
     def eventFilter(self, obj, event):  # noqa: N802
         if handlers := self._event_handlers[event.type().name]:
-            for handler in handlers.copy():
+            for handler in list(handlers.values()):
                 handler(event)
 
         return super().eventFilter(obj, event)
@@ -411,7 +412,7 @@ class PySideRenderer(Renderer):
         if signal and hasattr(signal, "connect"):
             # Add a slots attribute to hold all the generated slots, keyed on event_type
             if not hasattr(el, "slots"):
-                el.slots = defaultdict(set)
+                el.slots = defaultdict(list)
 
             # Create a slot with the given value
             # Note that the slot apparently does not need arguments to specify the type
@@ -430,7 +431,7 @@ class PySideRenderer(Renderer):
                 slot = QtCore.Slot()(lambda *args: value(*args))
                 # Keep track of the value to be able to disconnect the slot
                 slot.handler = value
-            el.slots[event_type].add(slot)
+            el.slots[event_type].append(slot)
 
             signal.connect(slot)
         else:
-- 
2.43.0


From 490d0de006a51dc54ba03e2df04d6aed9d8dae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:34 +0000
Subject: [PATCH 78/85] fix: handlers of events with names that only differ in
 case got lost

---
 collagraph/collagraph.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index cac8df0..7a7dd07 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -566,18 +566,11 @@ class Collagraph:
         attrs_to_remove = {}
         attrs_to_update = {}
         events_to_add = {}
-        equivalent_event_handlers = set()
+        event_keys = {}
 
+        # The names of events are case insensitive: the last handler of an event prevails
         for key, val in prev_props.items():
             if is_event(key):
-                if key in next_props and is_equivalent_event_handler(
-                    val, next_props, key
-                ):
-                    equivalent_event_handlers.add(key)
-                    # Keep track of the handler that is actually registered
-                    next_props[key] = val
-                    continue
-
                 event_type = key_to_event(key)
                 events_to_remove[event_type] = val
             else:
@@ -587,16 +580,22 @@ class Collagraph:
 
         for key, val in next_props.items():
             if is_event(key):
-                if key in equivalent_event_handlers:
-                    continue
-
                 event_type = key_to_event(key)
-                events_to_add[event_type] = next_props[key]
+                events_to_add[event_type] = val
+                event_keys[event_type] = key
             else:
                 # Is key new or changed?
                 if is_new(val, prev_props, key):
                     attrs_to_update[key] = val
 
+        for event_type, key in event_keys.items():
+            if event_type in events_to_remove and is_equivalent_event_handler(
+                events_to_remove[event_type], events_to_add, event_type
+            ):
+                # Keep track of the handler that is actually registered
+                next_props[key] = events_to_remove.pop(event_type)
+                del events_to_add[event_type]
+
         if fiber.component is not None:
             # Get a writable reference to the read-only props of the component
             props = reactive(fiber.component.props)
-- 
2.43.0


From f883ebb83067d44aa8e9dec7abfa10ae6f71f5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:52 +0000
Subject: [PATCH 79/85] fix: handlers that are None were registered

---
 collagraph/collagraph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 7a7dd07..5fecefe 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -568,9 +568,11 @@ class Collagraph:
         events_to_add = {}
         event_keys = {}
 
-        # The names of events are case insensitive: the last handler of an event prevails
+        # The names of events are case insensitive: the last handler prevails
         for key, val in prev_props.items():
             if is_event(key):
+                if val is None:
+                    continue
                 event_type = key_to_event(key)
                 events_to_remove[event_type] = val
             else:
@@ -580,6 +582,9 @@ class Collagraph:
 
         for key, val in next_props.items():
             if is_event(key):
+                # An event without handler
+                if val is None:
+                    continue
                 event_type = key_to_event(key)
                 events_to_add[event_type] = val
                 event_keys[event_type] = key
-- 
2.43.0


From 00b31ba4b1df5f7801fd3e678cb733153c63832c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 80/85] fix: handlers in the props of a component were outdated

---
 collagraph/collagraph.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 5fecefe..04289cb 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -608,13 +608,17 @@ class Collagraph:
             for event_type, val in events_to_remove.items():
                 fiber.component.remove_event_handler(event_type, val)
 
-            for key in attrs_to_remove:
-                props.pop(key, None)
+            for key in prev_props:
+                if key not in next_props:
+                    props.pop(key, None)
 
             # Props with value None have to be passed to the component as well
             for key, val in next_props.items():
                 if val is None and key not in prev_props and not is_event(key):
                     props[key] = None
+                # The component might pass its handlers on
+                if is_event(key) and (key not in props or props[key] is not val):
+                    props[key] = val
 
             # Pass on the actual values: next_props can be a (detached) snapshot
             props.update({key: fiber.props[key] for key in attrs_to_update})
-- 
2.43.0


From 99ce86568fbd234c4a578d498449247fa77042e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:06 +0000
Subject: [PATCH 81/85] fix: new props with the value None went by unnoticed

A component whose render depends on the presence of a prop (for instance
because it passes all of its props on) was not rendered again when its
parent started to pass that prop with the value None.
---
 collagraph/collagraph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 04289cb..a62eebc 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -614,7 +614,9 @@ class Collagraph:
 
             # Props with value None have to be passed to the component as well
             for key, val in next_props.items():
-                if val is None and key not in prev_props and not is_event(key):
+                if val is None and key not in prev_props:
+                    # Assigning None to a new key goes by unnoticed
+                    props[key] = False
                     props[key] = None
                 # The component might pass its handlers on
                 if is_event(key) and (key not in props or props[key] is not val):
-- 
2.43.0


From 1aa685401b808b7e70d54be44e34d466754f9ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:49 +0000
Subject: [PATCH 82/85] fix: state changes after rendering another description
 raised AttributeError

The root fiber that is reused still had the child of an earlier pass.
---
 collagraph/collagraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index a62eebc..deb612f 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -294,6 +294,7 @@ class Collagraph:
         self._wip_root.props = self._current_root.props
         self._wip_root.children = self._current_root.children
         self._wip_root.alternate = self._current_root
+        self._wip_root.child = None
         self._next_unit_of_work = self._wip_root
         self._deletions = []
         self._dirty = False
-- 
2.43.0


From d6f10a805d4872fe42890d4a5fc42bddba602e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:53 +0000
Subject: [PATCH 83/85] fix: components wrote the props of other components
 into state that is used as props

With state itself as the props of components (h(Item, item)), a component that
got other props (for instance because the items were reordered) assigned these to
the first state that it was given. So components now have props of their own.
---
 collagraph/collagraph.py | 56 +++++++++++++++++++++++++---------------
 collagraph/component.py  |  1 +
 2 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index deb612f..8184466 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -220,7 +220,19 @@ class Collagraph:
                     break
                 parent_fiber = parent_fiber.parent
 
-            component = fiber.type(props=fiber.props, parent=parent_component)
+            # Components have their own props: the given props might be state
+            component = fiber.type(
+                props=reactive({**fiber.props}), parent=parent_component
+            )
+        else:
+            update_props(component, fiber.props)
+
+        # When the given props are state, then they can change as well
+        props = fiber.props
+        component._props_watcher = watch(
+            lambda: props.items(),
+            lambda: update_props(component, props),
+        )
 
         # Attach the component instance to the fiber
         fiber.component = component
@@ -603,29 +615,9 @@ class Collagraph:
                 del events_to_add[event_type]
 
         if fiber.component is not None:
-            # Get a writable reference to the read-only props of the component
-            props = reactive(fiber.component.props)
-
             for event_type, val in events_to_remove.items():
                 fiber.component.remove_event_handler(event_type, val)
 
-            for key in prev_props:
-                if key not in next_props:
-                    props.pop(key, None)
-
-            # Props with value None have to be passed to the component as well
-            for key, val in next_props.items():
-                if val is None and key not in prev_props:
-                    # Assigning None to a new key goes by unnoticed
-                    props[key] = False
-                    props[key] = None
-                # The component might pass its handlers on
-                if is_event(key) and (key not in props or props[key] is not val):
-                    props[key] = val
-
-            # Pass on the actual values: next_props can be a (detached) snapshot
-            props.update({key: fiber.props[key] for key in attrs_to_update})
-
             for event_type, val in events_to_add.items():
                 fiber.component.add_event_handler(event_type, val)
 
@@ -699,6 +691,28 @@ def find_anchor(fiber: Fiber, dom_parent_fiber: Fiber) -> Any:
             node = node.child
 
 
+def update_props(component, next_props: Dict):
+    """Passes the props on to the given component"""
+    # Get a writable reference to the read-only props of the component
+    props = reactive(component.props)
+
+    for key in [key for key in props if key not in next_props]:
+        props.pop(key)
+
+    changes = {}
+    for key, val in next_props.items():
+        if key not in props:
+            if val is None:
+                # Assigning None to a new key goes by unnoticed
+                props[key] = False
+            changes[key] = val
+        elif val is not props[key] and is_new(
+            to_raw(val), {key: to_raw(props[key])}, key
+        ):
+            changes[key] = val
+    props.update(changes)
+
+
 def is_event(key):
     return key.startswith("on_")
 
diff --git a/collagraph/component.py b/collagraph/component.py
index 5c8ee5e..15ebb21 100644
--- a/collagraph/component.py
+++ b/collagraph/component.py
@@ -19,6 +19,7 @@ class Component:
         self._event_handlers = defaultdict(dict)
         self._parent = ref(parent) if parent is not None else None
         self._provided = {}
+        self._props_watcher = None
 
     @property
     def props(self):
-- 
2.43.0


From cecc3c37450d3ecc1f5e6f1df00d190596c09a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 84/85] fix: components were lost when another description was
 rendered before the previous was finished

---
 collagraph/collagraph.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 8184466..2344366 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -111,6 +111,9 @@ class Collagraph:
         self._dirty = False
 
     def render(self, element: VNode, container, callback=None):
+        if self._next_unit_of_work:
+            self.abandon_work()
+
         self._wip_root = Fiber(
             dom=container,
             props={},
@@ -312,6 +315,19 @@ class Collagraph:
         self._dirty = False
         self.request_idle_work()
 
+    def abandon_work(self):
+        """Gives the components in the unfinished tree back to the current tree"""
+        fibers = [self._wip_root]
+        while fibers:
+            fiber = fibers.pop()
+            if fiber.component is not None:
+                if fiber.alternate:
+                    fiber.alternate.component = fiber.component
+                    fiber.alternate.watcher = fiber.watcher
+                fiber.component = None
+                fiber.watcher = None
+            fibers.extend(fib for fib in (fiber.child, fiber.sibling) if fib)
+
     def state_updated(self, fiber: Fiber):
         self._dirty = True
 
-- 
2.43.0


From 88aed65d5496258e58cc63b546c30b493f5f07dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:01 +0000
Subject: [PATCH 85/85] fix: calling render from a lifecycle hook left two
 trees in the container

---
 collagraph/collagraph.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 2344366..d54bdca 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -109,8 +109,16 @@ class Collagraph:
         self._qt_timer = None
         self._work = LifoQueue()
         self._dirty = False
+        # Whether the DOM is being updated, and what is to be rendered after that
+        self._committing = False
+        self._next_render = None
 
     def render(self, element: VNode, container, callback=None):
+        if self._committing:
+            # Called by a hook or handler: first finish the current update
+            self._next_render = (element, container, callback)
+            return
+
         if self._next_unit_of_work:
             self.abandon_work()
 
@@ -177,7 +185,17 @@ class Collagraph:
             # All the preparations to build the new WIP root have been performed,
             # so it's time to walk through the new WIP root fiber tree and update
             # the actual DOM
-            self.commit_root()
+            self._committing = True
+            try:
+                self.commit_root()
+            finally:
+                self._committing = False
+                next_render, self._next_render = self._next_render, None
+
+            if next_render:
+                self.render(*next_render)
+                return
+
             # A state change happened during this pass: either in between
             # units of work or during updating of the DOM
             if self._dirty:
-- 
2.43.0

