From fd7fac2f6b531da18177461e7411c4f4359aaec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 01/64] fix: DictRenderer addresses elements by identity

---
 collagraph/renderers/dict_renderer.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/collagraph/renderers/dict_renderer.py b/collagraph/renderers/dict_renderer.py
index 2856270..5849d72 100644
--- a/collagraph/renderers/dict_renderer.py
+++ b/collagraph/renderers/dict_renderer.py
@@ -21,12 +21,23 @@ class DictRenderer(Renderer):
 
     def insert(self, el, parent, anchor=None):
         children = parent.setdefault("children", [])
-        anchor_idx = children.index(anchor) if anchor else len(children)
+        anchor_idx = len(children)
+        if anchor is not None:
+            anchor_idx = self._index(children, anchor)
         children.insert(anchor_idx, el)
 
     def remove(self, el, parent):
         children = parent["children"]
-        children.remove(el)
+        del children[self._index(children, el)]
+
+    @staticmethod
+    def _index(children, el):
+        # Elements are plain dicts, so siblings might be equal to
+        # each other: look for the very same element
+        for idx, child in enumerate(children):
+            if child is el:
+                return idx
+        raise ValueError(f"{el} is not in children")
 
     def set_element_text(self, el: dict, value: str):
         el["text"] = value
-- 
2.43.0


From 3043f924a08cd8e501e421e8c44a75bb832f1445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:30 +0000
Subject: [PATCH 02/64] fix: DictRenderer.remove_attribute on element without
 attributes

---
 collagraph/renderers/dict_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collagraph/renderers/dict_renderer.py b/collagraph/renderers/dict_renderer.py
index 5849d72..55eeea9 100644
--- a/collagraph/renderers/dict_renderer.py
+++ b/collagraph/renderers/dict_renderer.py
@@ -47,7 +47,7 @@ class DictRenderer(Renderer):
         attributes[attr] = value
 
     def remove_attribute(self, obj, attr: str, value):
-        attributes = obj["attrs"]
+        attributes = obj.get("attrs", {})
         if attr in attributes:
             del attributes[attr]
 
-- 
2.43.0


From 2b439c89886684f026a0b883ee10c5169916981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 03/64] fix: template names resolve per instance and
 evaluation, not once per class

---
 collagraph/component.py | 33 +++++++--------------------------
 1 file changed, 7 insertions(+), 26 deletions(-)

diff --git a/collagraph/component.py b/collagraph/component.py
index b0f14fd..c5a40dd 100644
--- a/collagraph/component.py
+++ b/collagraph/component.py
@@ -10,15 +10,12 @@ from collagraph import render_slot
 class Component:
     """Abstract base class for components"""
 
-    __lookup_cache__ = defaultdict(dict)
-
     def __init__(self, props=None, parent=None):
         self._props = readonly({} if props is None else props)
         self._state = reactive({})
         self._element = None
         self._slots = {}
         self._event_handlers = defaultdict(set)
-        self._lookup_cache = Component.__lookup_cache__[type(self)]
         self._parent = ref(parent) if parent else None
         self._provided = {}
 
@@ -138,30 +135,14 @@ class Component:
         This provides some syntactic sugar so that users can leave out `self`,
         `self.state` and `self.props`.
         """
-        cache = self._lookup_cache
-        if method := cache.get(name):
-            return method(self, name, context)
-
-        def props_lookup(self, name, context):
+        # NOTE: where a name is found can differ between instances and over
+        # time (props and state come and go) so the result can't be cached
+        if name in self.props:
             return self.props[name]
-
-        def state_lookup(self, name, context):
+        if name in self.state:
             return self.state[name]
-
-        def self_lookup(self, name, context):
+        if hasattr(self, name):
             return getattr(self, name)
-
-        def global_lookup(self, name, context):
+        if name in context:
             return context[name]
-
-        if name in self.props:
-            cache[name] = props_lookup
-        elif name in self.state:
-            cache[name] = state_lookup
-        elif hasattr(self, name):
-            cache[name] = self_lookup
-        elif name in context:
-            cache[name] = global_lookup
-        else:
-            raise NameError(f"name '{name}' is not defined")
-        return self._lookup(name, context)
+        raise NameError(f"name '{name}' is not defined")
-- 
2.43.0


From 7e569c7a8b56815d1a386ede89f1c7354560bf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 04/64] fix: event handlers are equivalent only when bound to
 the same objects, defaults and arguments

---
 collagraph/compare.py | 101 +++++++++++++++++++++++++++++++-----------
 1 file changed, 75 insertions(+), 26 deletions(-)

diff --git a/collagraph/compare.py b/collagraph/compare.py
index 5e9133d..975eb2a 100644
--- a/collagraph/compare.py
+++ b/collagraph/compare.py
@@ -1,24 +1,75 @@
 from functools import partial
+from types import FunctionType, MethodType
 from typing import Callable
 
 
+# Types of which equal values are interchangeable
+VALUE_TYPES = (type(None), bool, int, float, complex, str, bytes)
+
+
 def equivalent_functions(a: Callable, b: Callable):
     """Returns whether function a is equivalent to function b.
 
     ``functools.partial`` functions are also supported (but only when both
     argument a and b are partial).
     """
-    if not hasattr(a, "__code__") or not hasattr(b, "__code__"):
-        if isinstance(a, partial) and isinstance(b, partial):
-            return (
-                a.args == b.args
-                and a.keywords == b.keywords
-                and equivalent_functions(a.func, b.func)
-            )
+    return _equivalent_functions(a, b, set())
+
+
+def _equivalent_functions(a: Callable, b: Callable, seen: set):
+    if a is b:
+        return True
+
+    # Functions can refer to themselves through their closure
+    pair = (id(a), id(b))
+    if pair in seen:
+        return True
+    seen.add(pair)
+
+    if isinstance(a, MethodType) and isinstance(b, MethodType):
+        return a.__self__ is b.__self__ and a.__func__ is b.__func__
+
+    if isinstance(a, partial) and isinstance(b, partial):
+        return (
+            _equivalent_values(a.args, b.args, seen)
+            and _equivalent_keywords(a.keywords, b.keywords, seen)
+            and _equivalent_functions(a.func, b.func, seen)
+        )
+
+    if not isinstance(a, FunctionType) or not isinstance(b, FunctionType):
+        return a == b
+
+    return (
+        a.__globals__ is b.__globals__
+        and equivalent_code(a.__code__, b.__code__)
+        and _equivalent_values(a.__defaults__, b.__defaults__, seen)
+        and _equivalent_keywords(a.__kwdefaults__, b.__kwdefaults__, seen)
+        and equivalent_closure_values(a, b, seen)
+    )
 
+
+def _equivalent_values(a, b, seen: set):
+    """Returns whether values a and b, which functions hold on to (arguments,
+    defaults and closures), are interchangeable. Objects that merely look the
+    same are not: the function would act on the wrong object."""
+    if a is b:
+        return True
+    if type(a) is not type(b):
+        return callable(a) and callable(b) and _equivalent_functions(a, b, seen)
+    if isinstance(a, VALUE_TYPES):
         return a == b
+    if isinstance(a, tuple):
+        return len(a) == len(b) and all(
+            _equivalent_values(x, y, seen) for x, y in zip(a, b)
+        )
+    return callable(a) and callable(b) and _equivalent_functions(a, b, seen)
+
 
-    return equivalent_code(a.__code__, b.__code__) and equivalent_closure_values(a, b)
+def _equivalent_keywords(a, b, seen: set):
+    a, b = a or {}, b or {}
+    return a.keys() == b.keys() and all(
+        _equivalent_values(a[key], b[key], seen) for key in a
+    )
 
 
 def equivalent_code(a, b):
@@ -58,27 +109,25 @@ def equivalent_code(a, b):
         elif attr_a != attr_b:
             return False
 
-    return True
+    # Constants of different types can be equal to each other (`1 == True`)
+    return _const_types(a.co_consts) == _const_types(b.co_consts)
 
 
-def equivalent_closure_values(a, b):
+def _const_types(consts):
+    return [_const_types(c) if isinstance(c, tuple) else type(c) for c in consts]
+
+
+def equivalent_closure_values(a, b, seen: set):
     """Compare the cell contents of the __closure__ attribute for the given
     functions. This method assumes that the code for a and be is already
     equivalent."""
-    if (closure_a := getattr(a, "__closure__", None)) and (
-        closure_b := getattr(b, "__closure__", None)
-    ):
-        values_a = [cell.cell_contents for cell in closure_a]
-        values_b = [cell.cell_contents for cell in closure_b]
-        if len(values_a) != len(values_b):
-            return False
-
-        for a, b in zip(values_a, values_b):
-            if callable(a) and callable(b):
-                if not equivalent_functions(a, b):
-                    return False
-            else:
-                if a != b:
-                    return False
+    cells_a = a.__closure__ or ()
+    cells_b = b.__closure__ or ()
+    try:
+        values_a = tuple(cell.cell_contents for cell in cells_a)
+        values_b = tuple(cell.cell_contents for cell in cells_b)
+    except ValueError:
+        # There is a variable that is not assigned (yet)
+        return False
 
-    return True
+    return _equivalent_values(values_a, values_b, seen)
-- 
2.43.0


From b5e7afa45c4cb106b9ae4cb483a1f59f2e80759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:43 +0000
Subject: [PATCH 05/64] fix: remember which of two equivalent event handlers is
 attached

---
 collagraph/collagraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 84008d7..471676e 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -549,6 +549,9 @@ class Collagraph:
                     val, next_props, key
                 ):
                     equivalent_event_handlers.add(key)
+                    # The current handler stays attached, so that's the
+                    # one that has to be removed later on
+                    next_props[key] = val
                     continue
 
                 event_type = key_to_event(key)
-- 
2.43.0


From 9300ba12029dfe923a66812cf5985850c9c0e915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 06/64] fix: state changes during building of the fiber tree
 are not lost

---
 collagraph/collagraph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 471676e..46f515e 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -119,6 +119,7 @@ class Collagraph:
         )
 
         self._deletions = []
+        self._dirty = False
         self._next_unit_of_work = self._wip_root
         self._render_callback = callback
 
@@ -173,9 +174,9 @@ class Collagraph:
             # All the preparations to build the new WIP root have been performed,
             # so it's time to walk through the new WIP root fiber tree and update
             # the actual DOM
-            self._dirty = False
             self.commit_root()
-            # A state change happened during updating of the DOM
+            # A state change happened while building the new WIP root
+            # or during updating of the DOM
             if self._dirty:
                 self.prepare_next_iteration_of_work()
 
@@ -292,6 +293,7 @@ class Collagraph:
         self._wip_root.alternate = self._current_root
         self._next_unit_of_work = self._wip_root
         self._deletions = []
+        self._dirty = False
         self.request_idle_work()
 
     def state_updated(self, fiber: Fiber):
-- 
2.43.0


From ab201952e5ba0adaa800fc791ebb24c27b44f1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 07/64] fix: reset the reused root fiber before building a new
 tree

---
 collagraph/collagraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 46f515e..0a56c01 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -291,6 +291,7 @@ class Collagraph:
         self._wip_root.props = self._current_root.props
         self._wip_root.children = self._current_root.children
         self._wip_root.alternate = self._current_root
+        self._wip_root.child = None
         self._next_unit_of_work = self._wip_root
         self._deletions = []
         self._dirty = False
-- 
2.43.0


From c334638565eb99da13573f8335d781bbac6994f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 08/64] fix: schedule at most one chain of work

---
 collagraph/collagraph.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 0a56c01..93bedc4 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -106,6 +106,8 @@ class Collagraph:
         self._deletions: List[Fiber] = None
         self._render_callback: Callable = None
         self._request = None
+        # Whether a call to `work_loop` is scheduled (or in progress, when in sync mode)
+        self._work_requested = False
         self._qt_timer = None
         self._work = SimpleQueue()
         self._dirty = False
@@ -133,12 +135,23 @@ class Collagraph:
             deadline: targetted deadline for until when work can be done. If
                 no deadline is given, then it will be set to 16ms from now.
         """
+        # There should be one chain of work at most
+        if self._work_requested:
+            return
+        self._work_requested = True
+
         # current in ns
         if not deadline:
             deadline = time.perf_counter_ns() + 16 * 1000000
 
         if self.event_loop_type is EventLoopType.SYNC:
-            self.work_loop(deadline=None)
+            # Changes made while performing the work will
+            # be processed here as well
+            try:
+                while self._next_unit_of_work:
+                    self.work_loop(deadline=None)
+            finally:
+                self._work_requested = False
             return
 
         if not self._request:
@@ -160,6 +173,9 @@ class Collagraph:
         NOTE: when sync is True, the deadline is not taken into account and all
         work will be done in sync until there is no more work.
         """
+        if self.event_loop_type is not EventLoopType.SYNC:
+            self._work_requested = False
+
         should_yield = False
         while self._next_unit_of_work and not should_yield:
             self._next_unit_of_work = self.perform_unit_of_work(self._next_unit_of_work)
-- 
2.43.0


From 17079a9f1bed9f8094704834fa7c401097dee52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 09/64] fix: a render() during work in progress keeps mounted
 components and their watchers

---
 collagraph/collagraph.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 93bedc4..1d1720d 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -224,8 +224,10 @@ class Collagraph:
             next_fiber = next_fiber.parent
 
     def update_class_component(self, fiber: Fiber):
-        component = fiber.component or fiber.alternate and fiber.alternate.component
-        if not component:
+        # NOTE: The alternate keeps its component and watcher until the commit,
+        # because the work in progress might not be finished at all
+        component = fiber.alternate and fiber.alternate.component
+        if component is None:
             parent_component = None
             parent_fiber = fiber.parent
             while parent_fiber is not None:
@@ -242,9 +244,7 @@ class Collagraph:
         component._slots = fiber.children if isinstance(fiber.children, dict) else {}
 
         if fiber.alternate:
-            fiber.alternate.component = None
             fiber.watcher = fiber.alternate.watcher
-            fiber.alternate.watcher = None
 
         if fiber.watcher:
             # Re-evaluate the watcher to get the new value
@@ -258,9 +258,6 @@ class Collagraph:
         self.reconcile_children(fiber, [fiber.watcher.value])
 
     def update_function_component(self, fiber: Fiber):
-        if fiber.alternate:
-            fiber.alternate.watcher = None
-
         def render():
             if isinstance(fiber.children, dict):
                 return [fiber.type(fiber.props, fiber.children)]
@@ -278,9 +275,6 @@ class Collagraph:
         if not fiber.dom and fiber.type not in VIRTUAL_NODE_TYPES:
             fiber.dom = self.create_dom(fiber)
 
-        if fiber.alternate:
-            fiber.alternate.watcher = None
-
         fiber.watcher = watch(
             lambda: fiber.props.keys(),
             lambda: self.state_updated(fiber),
@@ -375,6 +369,10 @@ class Collagraph:
                 new_fiber.sibling = None
                 new_fiber.effect_tag = EffectTag.UPDATE
                 new_fiber.watcher = None
+                new_fiber.component = None
+                new_fiber.mounted = False
+                new_fiber.updated = False
+                new_fiber.unmounted = False
                 new_fiber.move = new_fiber.key in operations
                 new_fiber.anchor = operations.get(new_fiber.key)
             if element and not same_type:
@@ -392,6 +390,10 @@ class Collagraph:
                 new_fiber.sibling = None
                 new_fiber.effect_tag = EffectTag.PLACEMENT
                 new_fiber.watcher = None
+                new_fiber.component = None
+                new_fiber.mounted = False
+                new_fiber.updated = False
+                new_fiber.unmounted = False
                 new_fiber.move = False
                 new_fiber.anchor = operations.get(new_fiber.key)
                 # NOTE: If there is an old_fiber, then it will be
@@ -539,6 +541,9 @@ class Collagraph:
                 prev_props=fiber.alternate.props_snapshot,
                 next_props=fiber.props_snapshot,
             )
+            # The alternate is history now
+            fiber.alternate.component = None
+            fiber.alternate.watcher = None
         elif fiber.effect_tag == EffectTag.DELETION:
             self.commit_deletion(fiber, dom_parent)
 
-- 
2.43.0


From 3732ef79a5a12af896e070b2084b68643467f54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 10/64] fix: stop watching for fibers that are deleted or
 abandoned

---
 collagraph/collagraph.py | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 1d1720d..2557908 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -38,6 +38,10 @@ class NotifyChangeWatcher(Watcher):
         """On update, simply run the callback."""
         self.callback()
 
+    def stop(self):
+        """Stop watching: without functions, nothing is called or kept alive."""
+        self.fn = self.callback = lambda: None
+
 
 def watch(fn, cb, lazy=False, deep=False, **kwargs):
     """Create custom watcher for the given expression: fn.
@@ -113,6 +117,7 @@ class Collagraph:
         self._dirty = False
 
     def render(self, element: VNode, container, callback=None):
+        self.discard_wip_tree()
         self._wip_root = Fiber(
             dom=container,
             props={},
@@ -488,9 +493,12 @@ class Collagraph:
                 fiber.component.before_unmount()
                 fiber.unmounted = True
 
+        self.stop_watcher(fiber)
+
         def traverse_before_unmount(fiber):
             if fiber is None:
                 return
+            self.stop_watcher(fiber)
             if fiber.component:
                 if not fiber.unmounted:
                     fiber.component.before_unmount()
@@ -509,6 +517,31 @@ class Collagraph:
         fiber.child = None
         fiber.sibling = None
 
+    def stop_watcher(self, fiber: Fiber):
+        """Changes in state should not cause work anymore for the fiber"""
+        if fiber.watcher:
+            fiber.watcher.stop()
+            fiber.watcher = None
+
+    def discard_wip_tree(self):
+        """
+        Release everything of the WIP fiber tree that is not part of the
+        current tree, because the WIP tree is not going to be committed.
+        """
+        fibers = [self._wip_root] if self._wip_root else []
+        while fibers:
+            fiber = fibers.pop()
+            alternate = fiber.alternate
+            if alternate and alternate.watcher is fiber.watcher:
+                fiber.watcher = None
+            self.stop_watcher(fiber)
+            fiber.component = None
+            if fiber.sibling:
+                fibers.append(fiber.sibling)
+            if fiber.child:
+                fibers.append(fiber.child)
+        self._wip_root = None
+
     def commit_work(self, fiber: Fiber):
         if not fiber:
             return
@@ -543,6 +576,8 @@ class Collagraph:
             )
             # The alternate is history now
             fiber.alternate.component = None
+            if fiber.alternate.watcher is not fiber.watcher:
+                self.stop_watcher(fiber.alternate)
             fiber.alternate.watcher = None
         elif fiber.effect_tag == EffectTag.DELETION:
             self.commit_deletion(fiber, dom_parent)
-- 
2.43.0


From 8b5df6cf52b5c89a6815d4fab2f284780ab318ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 11/64] fix: a failure while building the fiber tree does not
 block later updates

---
 collagraph/collagraph.py | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 2557908..522f990 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -115,6 +115,8 @@ class Collagraph:
         self._qt_timer = None
         self._work = SimpleQueue()
         self._dirty = False
+        # Whether building of the WIP tree failed
+        self._failed = False
 
     def render(self, element: VNode, container, callback=None):
         self.discard_wip_tree()
@@ -127,6 +129,7 @@ class Collagraph:
 
         self._deletions = []
         self._dirty = False
+        self._failed = False
         self._next_unit_of_work = self._wip_root
         self._render_callback = callback
 
@@ -183,7 +186,20 @@ class Collagraph:
 
         should_yield = False
         while self._next_unit_of_work and not should_yield:
-            self._next_unit_of_work = self.perform_unit_of_work(self._next_unit_of_work)
+            fiber = self._next_unit_of_work
+            try:
+                next_unit_of_work = self.perform_unit_of_work(fiber)
+            except BaseException:
+                # The current tree stays as it is. The WIP tree is kept in order to
+                # start over as soon as anything that it depends on changes.
+                if self._next_unit_of_work is fiber:
+                    self._next_unit_of_work = None
+                    self._failed = True
+                raise
+            # NOTE: When `render` is called from a component, then
+            # there is a new WIP tree to work on
+            if self._next_unit_of_work is fiber:
+                self._next_unit_of_work = next_unit_of_work
             # yield if time is up
             now = time.perf_counter_ns()
             should_yield = (
@@ -191,7 +207,7 @@ class Collagraph:
                 and (deadline - now) < 1 * 1000000
             )
 
-        if not self._next_unit_of_work and self._wip_root:
+        if not self._next_unit_of_work and self._wip_root and not self._failed:
             # All the preparations to build the new WIP root have been performed,
             # so it's time to walk through the new WIP root fiber tree and update
             # the actual DOM
@@ -258,7 +274,11 @@ class Collagraph:
             fiber.watcher = watch(
                 component.render,
                 lambda: self.state_updated(fiber),
+                lazy=True,
             )
+            # Evaluate when the watcher is in place: when evaluation
+            # fails, then its dependencies are still being watched
+            fiber.watcher.evaluate()
 
         self.reconcile_children(fiber, [fiber.watcher.value])
 
@@ -271,7 +291,9 @@ class Collagraph:
         fiber.watcher = watch(
             render,
             lambda: self.state_updated(fiber),
+            lazy=True,
         )
+        fiber.watcher.evaluate()
 
         self.reconcile_children(fiber, fiber.watcher.value)
 
@@ -299,23 +321,27 @@ class Collagraph:
 
     def prepare_next_iteration_of_work(self):
         # Request an update to start building/update the wip fiber tree
+        # NOTE: after a failure, the WIP root is what should have been rendered
+        source = self._wip_root or self._current_root
+        self.discard_wip_tree()
         self._wip_root = (
             self._current_root and self._current_root.alternate
         ) or Fiber()
-        self._wip_root.dom = self._current_root.dom
-        self._wip_root.props = self._current_root.props
-        self._wip_root.children = self._current_root.children
+        self._wip_root.dom = source.dom
+        self._wip_root.props = source.props
+        self._wip_root.children = source.children
         self._wip_root.alternate = self._current_root
         self._wip_root.child = None
         self._next_unit_of_work = self._wip_root
         self._deletions = []
         self._dirty = False
+        self._failed = False
         self.request_idle_work()
 
     def state_updated(self, fiber: Fiber):
         self._dirty = True
 
-        if not self._wip_root:
+        if not self._wip_root or self._failed:
             self.prepare_next_iteration_of_work()
 
     def reconcile_children(self, wip_fiber: Fiber, elements: List[VNode]):
-- 
2.43.0


From b4096ca08ede858cf24ae06d9d936cc8d8b0c1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:14 +0000
Subject: [PATCH 12/64] fix: a failing hook or renderer call does not keep an
 update from completing

---
 collagraph/collagraph.py | 54 ++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 522f990..0dfbe92 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -115,6 +115,8 @@ class Collagraph:
         self._qt_timer = None
         self._work = SimpleQueue()
         self._dirty = False
+        # Failures that happened while applying an update
+        self._errors = []
         # Whether building of the WIP tree failed
         self._failed = False
 
@@ -155,11 +157,17 @@ class Collagraph:
         if self.event_loop_type is EventLoopType.SYNC:
             # Changes made while performing the work will
             # be processed here as well
+            error = None
             try:
                 while self._next_unit_of_work:
-                    self.work_loop(deadline=None)
+                    try:
+                        self.work_loop(deadline=None)
+                    except Exception as e:
+                        error = error or e
             finally:
                 self._work_requested = False
+            if error:
+                raise error
             return
 
         if not self._request:
@@ -223,6 +231,13 @@ class Collagraph:
             if self._render_callback:
                 self._render_callback()
 
+        if self._errors:
+            error, *others = self._errors
+            self._errors = []
+            for other in others:
+                logger.error("Failure while updating the UI", exc_info=other)
+            raise error
+
     def perform_unit_of_work(self, fiber: Fiber) -> Optional[Fiber]:
         is_function_or_class_component = callable(fiber.type)
         if is_function_or_class_component:
@@ -451,14 +466,23 @@ class Collagraph:
         the work starts with the `child` attribute of the `_wip_root` (once all fibers
         that have been marked for deletion have been removed.
         """
+        # From here on, the new tree is the current tree. Changes that are made
+        # while it is being applied will end up in the next tree.
+        root = self._wip_root
+        self._current_root = root
+        self._wip_root = None
+
         for deletion in self._deletions:
             self._work.put(deletion)
         self._deletions = []
-        self._work.put(self._wip_root.child)
+        self._work.put(root.child)
 
         while not self._work.empty():
             work = self._work.get()
-            self.commit_work(work)
+            self.attempt(self.commit_work, work)
+            if work and work.effect_tag is not EffectTag.DELETION:
+                self._work.put(work.child)
+                self._work.put(work.sibling)
 
         # Use a queue to walk through the whole tree of fibers in order to
         # call component hooks (e.g: mounted, updated). The walk starts with
@@ -470,7 +494,7 @@ class Collagraph:
         # the parent node have been processed, hence we can call the component
         # hooks on the way up.
         component_hooks = SimpleQueue()
-        component_hooks.put((self._wip_root, True))
+        component_hooks.put((root, True))
 
         # parent_component = None
         while not component_hooks.empty():
@@ -489,12 +513,12 @@ class Collagraph:
             if fiber.mounted:
                 if fiber.component:
                     fiber.component._element = fiber.child.dom
-                    fiber.component.mounted()
+                    self.attempt(fiber.component.mounted)
                 fiber.mounted = False
                 fiber.updated = False
             elif fiber.updated:
                 if fiber.component:
-                    fiber.component.updated()
+                    self.attempt(fiber.component.updated)
                 fiber.updated = False
 
             if fiber.sibling:
@@ -504,8 +528,15 @@ class Collagraph:
                 # parent that we're walking back
                 component_hooks.put((fiber.parent, False))
 
-        self._current_root = self._wip_root
-        self._wip_root = None
+    def attempt(self, fn: Callable, *args):
+        """
+        Call function that is part of an update. A failure should not keep the
+        rest of the update from being applied, so it is raised afterwards.
+        """
+        try:
+            fn(*args)
+        except Exception as e:
+            self._errors.append(e)
 
     def commit_deletion(self, fiber: Fiber, dom_parent: Any):
         """
@@ -516,7 +547,7 @@ class Collagraph:
         """
         if fiber.component:
             if not fiber.unmounted:
-                fiber.component.before_unmount()
+                self.attempt(fiber.component.before_unmount)
                 fiber.unmounted = True
 
         self.stop_watcher(fiber)
@@ -527,7 +558,7 @@ class Collagraph:
             self.stop_watcher(fiber)
             if fiber.component:
                 if not fiber.unmounted:
-                    fiber.component.before_unmount()
+                    self.attempt(fiber.component.before_unmount)
                     fiber.unmounted = True
             traverse_before_unmount(fiber.child)
             traverse_before_unmount(fiber.sibling)
@@ -608,9 +639,6 @@ class Collagraph:
         elif fiber.effect_tag == EffectTag.DELETION:
             self.commit_deletion(fiber, dom_parent)
 
-        self._work.put(fiber.child)
-        self._work.put(fiber.sibling)
-
     def update_dom_or_component(
         self, fiber: Fiber, dom: Any, prev_props: Dict, next_props: Dict
     ):
-- 
2.43.0


From 8793bdcc5a48fb9ab7cbd6479b63593739082692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 13/64] fix: remove all elements of deleted templates, slots
 and components

---
 collagraph/collagraph.py | 47 +++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 0dfbe92..9224907 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -541,39 +541,33 @@ class Collagraph:
     def commit_deletion(self, fiber: Fiber, dom_parent: Any):
         """
         Remove an item from the dom. If the given fiber does not reference
-        a dom element, then it will try its child (recursively) until it finds
-        a fiber with a dom element that can be removed.
+        a dom element, then all of the topmost dom elements of its children
+        (recursively) will be removed.
         Clears the child and dom attributes of the fiber.
         """
-        if fiber.component:
-            if not fiber.unmounted:
-                self.attempt(fiber.component.before_unmount)
-                fiber.unmounted = True
-
-        self.stop_watcher(fiber)
-
-        def traverse_before_unmount(fiber):
-            if fiber is None:
-                return
-            self.stop_watcher(fiber)
-            if fiber.component:
-                if not fiber.unmounted:
-                    self.attempt(fiber.component.before_unmount)
-                    fiber.unmounted = True
-            traverse_before_unmount(fiber.child)
-            traverse_before_unmount(fiber.sibling)
-
-        traverse_before_unmount(fiber.child)
+        self.before_unmount(fiber)
 
         if fiber.dom is not None:
             self.renderer.remove(fiber.dom, dom_parent)
             fiber.dom = None
         else:
-            self.commit_deletion(fiber.child, dom_parent)
+            for child in children_of(fiber):
+                self.commit_deletion(child, dom_parent)
 
         fiber.child = None
         fiber.sibling = None
 
+    def before_unmount(self, fiber: Fiber):
+        """Call hook for all components in the given fiber tree"""
+        self.stop_watcher(fiber)
+        if fiber.component:
+            if not fiber.unmounted:
+                fiber.unmounted = True
+                self.attempt(fiber.component.before_unmount)
+
+        for child in children_of(fiber):
+            self.before_unmount(child)
+
     def stop_watcher(self, fiber: Fiber):
         """Changes in state should not cause work anymore for the fiber"""
         if fiber.watcher:
@@ -730,6 +724,15 @@ class Collagraph:
                     parent = parent.parent
 
 
+def children_of(fiber: Fiber) -> List[Fiber]:
+    children = []
+    child = fiber.child
+    while child:
+        children.append(child)
+        child = child.sibling
+    return children
+
+
 def is_event(key):
     return key.startswith("on_")
 
-- 
2.43.0


From 2d8412d26446282bb82977829e40a86c05d56cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:50 +0000
Subject: [PATCH 14/64] fix: place elements in document order, whatever they
 are wrapped in

---
 collagraph/collagraph.py | 83 ++++++++++++++++++++++++----------------
 1 file changed, 50 insertions(+), 33 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 9224907..019b829 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -113,7 +113,7 @@ class Collagraph:
         # Whether a call to `work_loop` is scheduled (or in progress, when in sync mode)
         self._work_requested = False
         self._qt_timer = None
-        self._work = SimpleQueue()
+        self._work: List[Fiber] = []
         self._dirty = False
         # Failures that happened while applying an update
         self._errors = []
@@ -377,22 +377,16 @@ class Collagraph:
 
         ordered_old_fibers, removals = compare(elements, old_fibers, match=matcher)
 
-        operations = {}
-        if len(elements) > 1:
-            new_keys = [el.key for el in elements if el and el.key]
-            old_keys = [fib.key for fib in old_fibers if fib and fib.key]
-
-            ops = create_ops(old_keys, new_keys)
-
-            for op in ops:
-                if op["op"] is not OpType.DEL:
-                    if "anchor" in op:
-
-                        def match(el, key):
-                            return el.key == key
-
-                        anchor = first(old_fibers, match, op["anchor"])
-                        operations[op["value"]] = anchor.dom
+        # Figure out which of the old fibers have to be moved. Use ids because
+        # keys are optional (and might be falsy).
+        kept = {id(fiber): fiber for fiber in ordered_old_fibers if fiber}
+        current = [id(fiber) for fiber in old_fibers if id(fiber) in kept]
+        future = list(kept)
+        ops = create_ops(current, future) if current != future else []
+        moved = {op["value"] for op in ops}
+        # When the fiber itself doesn't have a dom element, then
+        # its children are the ones that need to be moved
+        move_all = wip_fiber.move and wip_fiber.dom is None
 
         # In here, all the 'new' elements are compared to the old/current fiber/state
         prev_sibling = None
@@ -419,8 +413,8 @@ class Collagraph:
                 new_fiber.mounted = False
                 new_fiber.updated = False
                 new_fiber.unmounted = False
-                new_fiber.move = new_fiber.key in operations
-                new_fiber.anchor = operations.get(new_fiber.key)
+                new_fiber.move = move_all or id(old_fiber) in moved
+                new_fiber.anchor = None
             if element and not same_type:
                 # Configure a fiber for creating a new DOM element
                 new_fiber = (old_fiber and old_fiber.alternate) or Fiber()
@@ -441,7 +435,7 @@ class Collagraph:
                 new_fiber.updated = False
                 new_fiber.unmounted = False
                 new_fiber.move = False
-                new_fiber.anchor = operations.get(new_fiber.key)
+                new_fiber.anchor = None
                 # NOTE: If there is an old_fiber, then it will be
                 # marked for deletion in the next if statement
             if old_fiber and not same_type:
@@ -473,16 +467,21 @@ class Collagraph:
         self._wip_root = None
 
         for deletion in self._deletions:
-            self._work.put(deletion)
+            self.attempt(self.commit_work, deletion)
         self._deletions = []
-        self._work.put(root.child)
 
-        while not self._work.empty():
-            work = self._work.get()
+        # Walk through the tree in document order
+        self.assign_anchors(root)
+        self._work.append(root.child)
+        while self._work:
+            work = self._work.pop()
+            if not work:
+                continue
             self.attempt(self.commit_work, work)
-            if work and work.effect_tag is not EffectTag.DELETION:
-                self._work.put(work.child)
-                self._work.put(work.sibling)
+            if work.dom is not None:
+                self.assign_anchors(work)
+            self._work.append(work.sibling)
+            self._work.append(work.child)
 
         # Use a queue to walk through the whole tree of fibers in order to
         # call component hooks (e.g: mounted, updated). The walk starts with
@@ -528,6 +527,30 @@ class Collagraph:
                 # parent that we're walking back
                 component_hooks.put((fiber.parent, False))
 
+    def assign_anchors(self, fiber: Fiber):
+        """
+        Determine for all the dom elements that will be in the dom element of
+        the given fiber what their anchor is: the first dom element that follows
+        which is already in the right place.
+        """
+        fibers = []
+        stack = [fiber.child]
+        while stack:
+            child = stack.pop()
+            if not child:
+                continue
+            stack.append(child.sibling)
+            if child.dom is not None:
+                fibers.append(child)
+            else:
+                stack.append(child.child)
+
+        anchor = None
+        for child in reversed(fibers):
+            child.anchor = anchor
+            if child.effect_tag is EffectTag.UPDATE and not child.move:
+                anchor = child.dom
+
     def attempt(self, fn: Callable, *args):
         """
         Call function that is part of an update. A failure should not keep the
@@ -760,12 +783,6 @@ def indexOf(items: Iterable, match: Callable, *args):
             return idx
 
 
-def first(items: Iterable, match: Callable, *args):
-    """Returns the first item for which the `match` function returns True."""
-    idx = indexOf(items, match, *args)
-    return items[idx] if idx is not None else None
-
-
 def compare(a: Iterable, b: Iterable, match: Callable):
     """Returns a list of `matches` between a and b and `removals` which contain
     items that are in b but not in a.
-- 
2.43.0


From f85599dbdf261e0797e3a8c632f23aeb304f2fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 15/64] fix: keep the element of a component up to date

---
 collagraph/collagraph.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 019b829..a0ab69d 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -511,7 +511,6 @@ class Collagraph:
 
             if fiber.mounted:
                 if fiber.component:
-                    fiber.component._element = fiber.child.dom
                     self.attempt(fiber.component.mounted)
                 fiber.mounted = False
                 fiber.updated = False
@@ -625,6 +624,9 @@ class Collagraph:
             dom_parent_fiber = dom_parent_fiber.parent
         dom_parent = dom_parent_fiber.dom
 
+        if fiber.component and fiber.effect_tag is not EffectTag.DELETION:
+            fiber.component._element = first_dom(fiber)
+
         if fiber.effect_tag == EffectTag.PLACEMENT:
             if fiber.component:
                 self.update_dom_or_component(
@@ -756,6 +758,15 @@ def children_of(fiber: Fiber) -> List[Fiber]:
     return children
 
 
+def first_dom(fiber: Fiber) -> Any:
+    """Returns the first dom element of the given fiber"""
+    if fiber.dom is not None:
+        return fiber.dom
+    for child in children_of(fiber):
+        if (dom := first_dom(child)) is not None:
+            return dom
+
+
 def is_event(key):
     return key.startswith("on_")
 
-- 
2.43.0


From a97490826a6eb685e93b11835eb703e0c7b9ca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 16/64] fix: call updated for changed texts and added, removed
 and moved elements

---
 collagraph/collagraph.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index a0ab69d..6c8160e 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -441,6 +441,7 @@ class Collagraph:
             if old_fiber and not same_type:
                 # Mark the old fiber for deletion so that DOM element will be removed
                 old_fiber.effect_tag = EffectTag.DELETION
+                old_fiber.parent = wip_fiber
                 self._deletions.append(old_fiber)
 
             # And we add it to the fiber tree setting it either as a child or as a
@@ -633,9 +634,14 @@ class Collagraph:
                     fiber, None, prev_props={}, next_props=fiber.props
                 )
                 fiber.mounted = True
+            if fiber.dom is not None or fiber.component:
+                self.mark_updated(fiber.parent)
             if fiber.dom is not None:
                 self.renderer.insert(fiber.dom, dom_parent, anchor=fiber.anchor)
         elif fiber.effect_tag == EffectTag.UPDATE:
+            parent = fiber.parent
+            if fiber.move and not (parent.move and parent.dom is None):
+                self.mark_updated(parent)
             if fiber.dom is not None:
                 if fiber.move:
                     self.renderer.remove(fiber.dom, dom_parent)
@@ -656,6 +662,7 @@ class Collagraph:
                 self.stop_watcher(fiber.alternate)
             fiber.alternate.watcher = None
         elif fiber.effect_tag == EffectTag.DELETION:
+            self.mark_updated(fiber.parent)
             self.commit_deletion(fiber, dom_parent)
 
     def update_dom_or_component(
@@ -667,6 +674,7 @@ class Collagraph:
         if fiber.type == "TEXT_ELEMENT":
             if (new_content := next_props["content"]) != prev_props.get("content"):
                 self.renderer.set_element_text(dom, new_content)
+                self.mark_updated(fiber.parent)
                 return
 
         events_to_remove = {}
@@ -736,17 +744,16 @@ class Collagraph:
             for event_type, val in events_to_add.items():
                 self.renderer.add_event_listener(dom, event_type, val)
 
-            # Climb up the tree to find first component to mark as updated
             if events_to_remove or events_to_add or attrs_to_remove or attrs_to_update:
-                parent = fiber.parent
-                component = None
-                while parent:
-                    component = parent.component
-                    if component:
-                        # Mark the fiber as updated
-                        parent.updated = True
-                        break
-                    parent = parent.parent
+                self.mark_updated(fiber.parent)
+
+    def mark_updated(self, fiber: Fiber):
+        """Climb up the tree to find first component to mark as updated"""
+        while fiber:
+            if fiber.component:
+                fiber.updated = True
+                break
+            fiber = fiber.parent
 
 
 def children_of(fiber: Fiber) -> List[Fiber]:
-- 
2.43.0


From dccbe2cfda7de1b4f26053e99e2e1961904ba6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:59 +0000
Subject: [PATCH 17/64] fix: components receive live props, as part of the same
 update

---
 collagraph/collagraph.py | 97 ++++++++++++++++++++++++++++++----------
 1 file changed, 73 insertions(+), 24 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 6c8160e..36bf6fb 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -6,6 +6,7 @@ import time
 from typing import Any, Callable, Dict, Iterable, List, Optional
 
 from observ import reactive, scheduler, to_raw
+from observ.proxy import Proxy
 from observ.watcher import Watcher
 
 from .compare import equivalent_functions
@@ -34,13 +35,16 @@ class NotifyChangeWatcher(Watcher):
     the new value.
     """
 
+    # Number of the pass in which this watcher was evaluated
+    evaluated_in = None
+
     def update(self):
         """On update, simply run the callback."""
-        self.callback()
+        self.callback(self)
 
     def stop(self):
         """Stop watching: without functions, nothing is called or kept alive."""
-        self.fn = self.callback = lambda: None
+        self.fn = self.callback = lambda *args: None
 
 
 def watch(fn, cb, lazy=False, deep=False, **kwargs):
@@ -117,6 +121,8 @@ class Collagraph:
         self._dirty = False
         # Failures that happened while applying an update
         self._errors = []
+        # Number of the pass: the construction of one WIP tree
+        self._pass = 0
         # Whether building of the WIP tree failed
         self._failed = False
 
@@ -132,6 +138,7 @@ class Collagraph:
         self._deletions = []
         self._dirty = False
         self._failed = False
+        self._pass += 1
         self._next_unit_of_work = self._wip_root
         self._render_callback = callback
 
@@ -273,6 +280,8 @@ class Collagraph:
                 parent_fiber = parent_fiber.parent
 
             component = fiber.type(props=fiber.props, parent=parent_component)
+        else:
+            self.update_props(component, fiber.props)
 
         # Attach the component instance to the fiber
         fiber.component = component
@@ -282,21 +291,47 @@ class Collagraph:
         if fiber.alternate:
             fiber.watcher = fiber.alternate.watcher
 
-        if fiber.watcher:
-            # Re-evaluate the watcher to get the new value
-            fiber.watcher.evaluate()
-        else:
+        if not fiber.watcher:
             fiber.watcher = watch(
                 component.render,
-                lambda: self.state_updated(fiber),
+                lambda watcher: self.state_updated(watcher),
                 lazy=True,
             )
-            # Evaluate when the watcher is in place: when evaluation
-            # fails, then its dependencies are still being watched
-            fiber.watcher.evaluate()
+        # (Re-)evaluate the watcher to get the new value
+        self.evaluate_watcher(fiber)
 
         self.reconcile_children(fiber, [fiber.watcher.value])
 
+    def evaluate_watcher(self, fiber: Fiber):
+        # NOTE: Evaluate when the watcher is in place: when evaluation
+        # fails, then its dependencies are still being watched
+        fiber.watcher.evaluated_in = self._pass
+        fiber.watcher.evaluate()
+
+    def update_props(self, component, passed):
+        """
+        Make sure that the component has the props as they are passed now.
+        This is done right before the component renders, so its output will
+        be part of the same update. The component gets the very same objects
+        (instead of copies), such that changes in those will be noticed.
+        """
+        # Get a writable reference to the read-only props of the component
+        props = reactive(component.props)
+        current, passed = unwrap(props), unwrap(passed)
+        if current is passed:
+            return
+
+        for key in [key for key in current if key not in passed]:
+            del props[key]
+
+        changed = {
+            key: val
+            for key, val in passed.items()
+            if key not in current or is_new_prop(val, current[key])
+        }
+        if changed:
+            props.update(changed)
+
     def update_function_component(self, fiber: Fiber):
         def render():
             if isinstance(fiber.children, dict):
@@ -305,10 +340,10 @@ class Collagraph:
 
         fiber.watcher = watch(
             render,
-            lambda: self.state_updated(fiber),
+            lambda watcher: self.state_updated(watcher),
             lazy=True,
         )
-        fiber.watcher.evaluate()
+        self.evaluate_watcher(fiber)
 
         self.reconcile_children(fiber, fiber.watcher.value)
 
@@ -319,8 +354,10 @@ class Collagraph:
 
         fiber.watcher = watch(
             lambda: fiber.props.keys(),
-            lambda: self.state_updated(fiber),
+            lambda watcher: self.state_updated(watcher),
+            lazy=True,
         )
+        self.evaluate_watcher(fiber)
 
         # Create new fibers
         self.reconcile_children(fiber, fiber.children)
@@ -351,13 +388,16 @@ class Collagraph:
         self._deletions = []
         self._dirty = False
         self._failed = False
+        self._pass += 1
         self.request_idle_work()
 
-    def state_updated(self, fiber: Fiber):
-        self._dirty = True
-
+    def state_updated(self, watcher: NotifyChangeWatcher):
         if not self._wip_root or self._failed:
             self.prepare_next_iteration_of_work()
+        elif watcher.evaluated_in == self._pass:
+            # What has been built already, is based on state that is outdated by now.
+            # Otherwise, the watcher will still be evaluated as part of this pass.
+            self._dirty = True
 
     def reconcile_children(self, wip_fiber: Fiber, elements: List[VNode]):
         # The old fiber, which holds the state as it was rendered to DOM
@@ -714,17 +754,10 @@ class Collagraph:
                     attrs_to_update[key] = val
 
         if fiber.component:
-            # Get a writable reference to the read-only props of the component
-            props = reactive(fiber.component.props)
-
+            # NOTE: the props of the component are already up to date
             for event_type, val in events_to_remove.items():
                 fiber.component.remove_event_handler(event_type, val)
 
-            for key in attrs_to_remove:
-                del props[key]
-
-            props.update(attrs_to_update)
-
             for event_type, val in events_to_add.items():
                 fiber.component.add_event_handler(event_type, val)
 
@@ -788,6 +821,22 @@ def is_new(val, other, key):
     return xor(old_value is None, val is None) or old_value != val
 
 
+def is_new_prop(val, current):
+    val, current = unwrap(val), unwrap(current)
+    if val is current:
+        return False
+    if callable(val) and callable(current):
+        return not equivalent_functions(val, current)
+    if isinstance(val, (dict, list, set)) or isinstance(current, (dict, list, set)):
+        # State can change in place, so equal content is not enough
+        return True
+    return type(val) is not type(current) or val != current
+
+
+def unwrap(val):
+    return val.target if isinstance(val, Proxy) else val
+
+
 def is_equivalent_event_handler(val, other, key):
     alt = other.get(key)
     return equivalent_functions(val, alt)
-- 
2.43.0


From 636e5019cb5bed53228c28b40e1357688410f7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:04 +0000
Subject: [PATCH 18/64] fix: a prop that was passed as None can be removed

---
 collagraph/collagraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 36bf6fb..e340637 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -329,6 +329,9 @@ class Collagraph:
             for key, val in passed.items()
             if key not in current or is_new_prop(val, current[key])
         }
+        for key in [key for key in changed if key not in current]:
+            # NOTE: `update` doesn't register new keys that have None as value
+            props[key] = changed.pop(key)
         if changed:
             props.update(changed)
 
-- 
2.43.0


From d5fd9019abed35266aec359aac9f277e58b3beab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:40 +0000
Subject: [PATCH 19/64] fix: call updated also for moved elements within a
 moved component

---
 collagraph/collagraph.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index e340637..ddf0db1 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -427,6 +427,8 @@ class Collagraph:
         future = list(kept)
         ops = create_ops(current, future) if current != future else []
         moved = {op["value"] for op in ops}
+        if moved:
+            self.mark_updated(wip_fiber)
         # When the fiber itself doesn't have a dom element, then
         # its children are the ones that need to be moved
         move_all = wip_fiber.move and wip_fiber.dom is None
@@ -682,9 +684,6 @@ class Collagraph:
             if fiber.dom is not None:
                 self.renderer.insert(fiber.dom, dom_parent, anchor=fiber.anchor)
         elif fiber.effect_tag == EffectTag.UPDATE:
-            parent = fiber.parent
-            if fiber.move and not (parent.move and parent.dom is None):
-                self.mark_updated(parent)
             if fiber.dom is not None:
                 if fiber.move:
                     self.renderer.remove(fiber.dom, dom_parent)
-- 
2.43.0


From cbff59828ac7296ccea95899ea270a364aed06ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:54 +0000
Subject: [PATCH 20/64] fix: report all failures in synchronous mode

---
 collagraph/collagraph.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index ddf0db1..b012bc8 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -164,17 +164,16 @@ class Collagraph:
         if self.event_loop_type is EventLoopType.SYNC:
             # Changes made while performing the work will
             # be processed here as well
-            error = None
+            errors = []
             try:
                 while self._next_unit_of_work:
                     try:
                         self.work_loop(deadline=None)
                     except Exception as e:
-                        error = error or e
+                        errors.append(e)
             finally:
                 self._work_requested = False
-            if error:
-                raise error
+            raise_first(errors)
             return
 
         if not self._request:
@@ -238,12 +237,8 @@ class Collagraph:
             if self._render_callback:
                 self._render_callback()
 
-        if self._errors:
-            error, *others = self._errors
-            self._errors = []
-            for other in others:
-                logger.error("Failure while updating the UI", exc_info=other)
-            raise error
+        errors, self._errors = self._errors, []
+        raise_first(errors)
 
     def perform_unit_of_work(self, fiber: Fiber) -> Optional[Fiber]:
         is_function_or_class_component = callable(fiber.type)
@@ -791,6 +786,14 @@ class Collagraph:
             fiber = fiber.parent
 
 
+def raise_first(errors: List[Exception]):
+    """Raises the first of the errors. The others are logged."""
+    for error in errors[1:]:
+        logger.error("Failure while updating the UI", exc_info=error)
+    if errors:
+        raise errors[0]
+
+
 def children_of(fiber: Fiber) -> List[Fiber]:
     children = []
     child = fiber.child
-- 
2.43.0


From 1ba5abce45c0734b3e59a5063ebfc876aa28fe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:57 +0000
Subject: [PATCH 21/64] fix: a failing renderer call does not keep other
 changes of the update from being applied

---
 collagraph/collagraph.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index b012bc8..aca7165 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -762,17 +762,22 @@ class Collagraph:
                 # Mark the fiber as updated
                 fiber.updated = True
         elif dom:
+            # NOTE: while updating the UI, a failure (for instance in an event handler
+            # that is triggered by a change) should not keep the other changes from
+            # being applied. A new element is either completely set up or not used.
+            apply = self.attempt if fiber.dom is not None else call
+
             for event_type, val in events_to_remove.items():
-                self.renderer.remove_event_listener(dom, event_type, val)
+                apply(self.renderer.remove_event_listener, dom, event_type, val)
 
             for key, val in attrs_to_remove.items():
-                self.renderer.remove_attribute(dom, key, val)
+                apply(self.renderer.remove_attribute, dom, key, val)
 
             for key, val in attrs_to_update.items():
-                self.renderer.set_attribute(dom, key, val)
+                apply(self.renderer.set_attribute, dom, key, val)
 
             for event_type, val in events_to_add.items():
-                self.renderer.add_event_listener(dom, event_type, val)
+                apply(self.renderer.add_event_listener, dom, event_type, val)
 
             if events_to_remove or events_to_add or attrs_to_remove or attrs_to_update:
                 self.mark_updated(fiber.parent)
@@ -786,6 +791,10 @@ class Collagraph:
             fiber = fiber.parent
 
 
+def call(fn: Callable, *args):
+    return fn(*args)
+
+
 def raise_first(errors: List[Exception]):
     """Raises the first of the errors. The others are logged."""
     for error in errors[1:]:
-- 
2.43.0


From b40a488cf8050b190d4a6b4bec9ed651ce749582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:10 +0000
Subject: [PATCH 22/64] fix: elements and components that are falsy are not
 mistaken for missing ones

---
 collagraph/collagraph.py | 27 +++++++++++++++------------
 collagraph/component.py  |  2 +-
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index aca7165..0cc7abf 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -269,7 +269,7 @@ class Collagraph:
             parent_component = None
             parent_fiber = fiber.parent
             while parent_fiber is not None:
-                if parent_fiber.component:
+                if parent_fiber.component is not None:
                     parent_component = parent_fiber.component
                     break
                 parent_fiber = parent_fiber.parent
@@ -347,7 +347,7 @@ class Collagraph:
 
     def update_host_component(self, fiber: Fiber):
         # Add dom node, but not for template/slot tags (which are virtual tags)
-        if not fiber.dom and fiber.type not in VIRTUAL_NODE_TYPES:
+        if fiber.dom is None and fiber.type not in VIRTUAL_NODE_TYPES:
             fiber.dom = self.create_dom(fiber)
 
         fiber.watcher = watch(
@@ -551,12 +551,12 @@ class Collagraph:
                 continue
 
             if fiber.mounted:
-                if fiber.component:
+                if fiber.component is not None:
                     self.attempt(fiber.component.mounted)
                 fiber.mounted = False
                 fiber.updated = False
             elif fiber.updated:
-                if fiber.component:
+                if fiber.component is not None:
                     self.attempt(fiber.component.updated)
                 fiber.updated = False
 
@@ -623,7 +623,7 @@ class Collagraph:
     def before_unmount(self, fiber: Fiber):
         """Call hook for all components in the given fiber tree"""
         self.stop_watcher(fiber)
-        if fiber.component:
+        if fiber.component is not None:
             if not fiber.unmounted:
                 fiber.unmounted = True
                 self.attempt(fiber.component.before_unmount)
@@ -665,16 +665,19 @@ class Collagraph:
             dom_parent_fiber = dom_parent_fiber.parent
         dom_parent = dom_parent_fiber.dom
 
-        if fiber.component and fiber.effect_tag is not EffectTag.DELETION:
+        if (
+            fiber.component is not None
+            and fiber.effect_tag is not EffectTag.DELETION
+        ):
             fiber.component._element = first_dom(fiber)
 
         if fiber.effect_tag == EffectTag.PLACEMENT:
-            if fiber.component:
+            if fiber.component is not None:
                 self.update_dom_or_component(
                     fiber, None, prev_props={}, next_props=fiber.props
                 )
                 fiber.mounted = True
-            if fiber.dom is not None or fiber.component:
+            if fiber.dom is not None or fiber.component is not None:
                 self.mark_updated(fiber.parent)
             if fiber.dom is not None:
                 self.renderer.insert(fiber.dom, dom_parent, anchor=fiber.anchor)
@@ -705,7 +708,7 @@ class Collagraph:
     def update_dom_or_component(
         self, fiber: Fiber, dom: Any, prev_props: Dict, next_props: Dict
     ):
-        if not dom and not fiber.component:
+        if dom is None and fiber.component is None:
             return
 
         if fiber.type == "TEXT_ELEMENT":
@@ -750,7 +753,7 @@ class Collagraph:
                 if is_new(val, prev_props, key):
                     attrs_to_update[key] = val
 
-        if fiber.component:
+        if fiber.component is not None:
             # NOTE: the props of the component are already up to date
             for event_type, val in events_to_remove.items():
                 fiber.component.remove_event_handler(event_type, val)
@@ -761,7 +764,7 @@ class Collagraph:
             if events_to_remove or events_to_add or attrs_to_remove or attrs_to_update:
                 # Mark the fiber as updated
                 fiber.updated = True
-        elif dom:
+        elif dom is not None:
             # NOTE: while updating the UI, a failure (for instance in an event handler
             # that is triggered by a change) should not keep the other changes from
             # being applied. A new element is either completely set up or not used.
@@ -785,7 +788,7 @@ class Collagraph:
     def mark_updated(self, fiber: Fiber):
         """Climb up the tree to find first component to mark as updated"""
         while fiber:
-            if fiber.component:
+            if fiber.component is not None:
                 fiber.updated = True
                 break
             fiber = fiber.parent
diff --git a/collagraph/component.py b/collagraph/component.py
index c5a40dd..10689db 100644
--- a/collagraph/component.py
+++ b/collagraph/component.py
@@ -16,7 +16,7 @@ class Component:
         self._element = None
         self._slots = {}
         self._event_handlers = defaultdict(set)
-        self._parent = ref(parent) if parent else None
+        self._parent = ref(parent) if parent is not None else None
         self._provided = {}
 
     @property
-- 
2.43.0


From 67aa251cb9103e2c8e17a2baea455c4048c40031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:43 +0000
Subject: [PATCH 23/64] fix: functions in a v-for see the variables of their
 own iteration

---
 collagraph/cgx/cgx.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 451305a..37e553a 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -376,7 +376,24 @@ def convert_node_to_args(node, *, names=None):
             local_names = names.union(name_collector.names)
             RewriteName(skip=local_names).visit(for_tree)
 
-            for_tree.elt = call_create_element(child, names=local_names)
+            # Create the element within the scope of a function that is called with
+            # the variables of the iteration. Functions like event handlers and
+            # slots would otherwise all see the variables of the last iteration.
+            variables = sorted(name_collector.names)
+            for_tree.elt = ast.Call(
+                func=ast.Lambda(
+                    args=ast.arguments(
+                        posonlyargs=[],
+                        args=[ast.arg(arg=name) for name in variables],
+                        kwonlyargs=[],
+                        kw_defaults=[],
+                        defaults=[],
+                    ),
+                    body=call_create_element(child, names=local_names),
+                ),
+                args=[ast.Name(id=name, ctx=ast.Load()) for name in variables],
+                keywords=[],
+            )
 
             result = ast.Starred(value=for_tree, ctx=ast.Load())
             children_args.append(result)
-- 
2.43.0


From 776d1206464a562b6f624ec684f5e2cc84d1915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:47 +0000
Subject: [PATCH 24/64] fix: keep the order of v-if and the texts and loops
 that follow it

---
 collagraph/cgx/cgx.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 37e553a..fe9fd16 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -345,6 +345,8 @@ def convert_node_to_args(node, *, names=None):
 
     slots = {}
     control_flow = []
+    # Position of the control flow among the children
+    control_flow_idx = 0
     for child in node.children:
         if isinstance(child, Comment):
             # Ignore comments
@@ -402,8 +404,12 @@ def convert_node_to_args(node, *, names=None):
         # Handle control flow directives
         if directive := child.control_flow():
             if directive == "v-if" and control_flow:
-                children_args.append(create_control_flow_ast(control_flow, names=names))
+                children_args.insert(
+                    control_flow_idx, create_control_flow_ast(control_flow, names=names)
+                )
                 control_flow = []
+            if not control_flow:
+                control_flow_idx = len(children_args)
             control_flow.append((directive, child))
 
         # Gather all the non-template children within a component tag and
@@ -429,7 +435,9 @@ def convert_node_to_args(node, *, names=None):
 
         if not directive:
             if control_flow:
-                children_args.append(create_control_flow_ast(control_flow, names=names))
+                children_args.insert(
+                    control_flow_idx, create_control_flow_ast(control_flow, names=names)
+                )
                 control_flow = []
             if child.tag == "slot":
                 children_args.append(call_render_slot(child, names=names))
@@ -437,7 +445,9 @@ def convert_node_to_args(node, *, names=None):
                 children_args.append(call_create_element(child, names=names))
 
     if control_flow:
-        children_args.append(create_control_flow_ast(control_flow, names=names))
+        children_args.insert(
+            control_flow_idx, create_control_flow_ast(control_flow, names=names)
+        )
         control_flow = []
 
     # Create a starred list comprehension that when called, will generate
-- 
2.43.0


From 1eb7fe607697f34394c9744c876c80758fc35c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:12 +0000
Subject: [PATCH 25/64] fix: loops, texts and templates in a component tag are
 default slot content

---
 collagraph/cgx/cgx.py | 48 +++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index fe9fd16..f4e297d 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -344,6 +344,22 @@ def convert_node_to_args(node, *, names=None):
     children_args = []
 
     slots = {}
+
+    # Gather all the children within a component tag (except for those that are
+    # meant for a named slot) and treat them as the content for the default slot
+    if node.tag[0].isupper() or "." in node.tag:
+        default_slot_content = [
+            child
+            for child in node.children
+            if isinstance(child, TextElement)
+            or (isinstance(child, Element) and not child.slot_name())
+        ]
+
+        if default_slot_content:
+            virtual_template_node = Element("template")
+            virtual_template_node.children = default_slot_content
+            slots["default"] = virtual_template_node
+
     control_flow = []
     # Position of the control flow among the children
     control_flow_idx = 0
@@ -412,26 +428,8 @@ def convert_node_to_args(node, *, names=None):
                 control_flow_idx = len(children_args)
             control_flow.append((directive, child))
 
-        # Gather all the non-template children within a component tag and
-        # treat them as the content for the default slot
-        if node.tag[0].isupper() or "." in node.tag:
-            default_slot_content = [
-                child
-                for child in node.children
-                if isinstance(child, Element) and child.tag != "template"
-            ]
-
-            if default_slot_content:
-                virtual_template_node = Element("template")
-                virtual_template_node.children = default_slot_content
-                slots["default"] = virtual_template_node
-
-        for attr in child.attrs.keys():
-            if attr.startswith(("v-slot", "#")):
-                slot_name = attr.split(":")[-1].split("#")[-1]
-                if slot_name == "v-slot":
-                    slot_name = "default"
-                slots[slot_name] = child
+        if slot_name := child.slot_name():
+            slots[slot_name] = child
 
         if not directive:
             if control_flow:
@@ -769,6 +767,16 @@ class Element:
             if attr in CONTROL_FLOW_DIRECTIVES:
                 return attr
 
+    def slot_name(self):
+        """Returns the name of the slot for which the node is the content, if any."""
+        name = None
+        for attr in self.attrs:
+            if attr.startswith(("v-slot", "#")):
+                name = attr.split(":")[-1].split("#")[-1]
+                if name == "v-slot":
+                    name = "default"
+        return name
+
     def child_with_tag(self, tag):
         for child in self.children:
             if getattr(child, "tag", None) == tag:
-- 
2.43.0


From 69ae49756124ae4957ec883969b5aa0bd25970c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:38 +0000
Subject: [PATCH 26/64] fix: a slot shows its content also within control flow
 and as root

---
 collagraph/cgx/cgx.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index f4e297d..9252714 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -236,7 +236,11 @@ def call_create_element(node, *, names):
     )
 
 
-def call_render_slot(node, *, names=None):
+def call_render_slot(node, fallback):
+    """
+    Returns a starred expression for the content of the slot, or the given fallback
+    (an expression for a list of elements) when there is no content for the slot.
+    """
     slot_name = node.attrs.get("name", "default")
 
     return ast.Starred(
@@ -265,10 +269,7 @@ def call_render_slot(node, *, names=None):
                 keywords=[],
             ),
             # Otherwise, we render the fallback content
-            orelse=ast.List(
-                elts=[call_create_element(node, names=names)],
-                ctx=ast.Load(),
-            ),
+            orelse=fallback,
         ),
         ctx=ast.Load(),
     )
@@ -437,10 +438,7 @@ def convert_node_to_args(node, *, names=None):
                     control_flow_idx, create_control_flow_ast(control_flow, names=names)
                 )
                 control_flow = []
-            if child.tag == "slot":
-                children_args.append(call_render_slot(child, names=names))
-            else:
-                children_args.append(call_create_element(child, names=names))
+            children_args.append(call_create_element(child, names=names))
 
     if control_flow:
         children_args.insert(
@@ -483,6 +481,9 @@ def convert_node_to_args(node, *, names=None):
         ),
         ctx=ast.Load(),
     )
+    if node.tag == "slot":
+        # What's inside of the slot is the fallback content
+        starred_expr = call_render_slot(node, fallback=starred_expr.value)
     if slots:
         starred_expr = ast.Dict(
             keys=[ast.Constant(value=key) for key in slots.keys()],
@@ -539,7 +540,7 @@ def convert_node_to_args(node, *, names=None):
         )
 
     # Return all the arguments
-    if not slots and not children_args:
+    if not slots and not children_args and node.tag != "slot":
         return [type_arg, attr_expression]
     return [type_arg, attr_expression, starred_expr]
 
-- 
2.43.0


From 77946dd53affe614ee8bd45212877c8ce9072c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:18 +0000
Subject: [PATCH 27/64] fix: names of lambdas and comprehensions in templates
 have their own scope

---
 collagraph/cgx/cgx.py | 53 +++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 9252714..c9a8b6a 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -329,12 +329,7 @@ def convert_node_to_args(node, *, names=None):
             props_keys.append(ast.Constant(value=key))
 
             tree = ast.parse(val, mode="eval")
-            # v-on directives allow for lambdas which define arguments
-            # which need to be skipped by the RewriteName visitor
-            lambda_names = LambdaNamesCollector()
-            lambda_names.visit(tree)
-            RewriteName(skip=names | lambda_names.names).visit(tree)
-            props_values.append(tree.body)
+            props_values.append(RewriteName(skip=names).visit(tree).body)
             continue
 
         if key.startswith((DIRECTIVE_FOR)):
@@ -393,7 +388,7 @@ def convert_node_to_args(node, *, names=None):
                     name_collector.generic_visit(generator.target)
 
             local_names = names.union(name_collector.names)
-            RewriteName(skip=local_names).visit(for_tree)
+            for_tree = RewriteName(skip=names).visit(for_tree)
 
             # Create the element within the scope of a function that is called with
             # the variables of the iteration. Functions like event handlers and
@@ -677,21 +672,6 @@ class NameCollector(ast.NodeVisitor):
         self.names.add(node.id)
 
 
-class LambdaNamesCollector(ast.NodeVisitor):
-    def __init__(self):
-        self.names = set()
-
-    def visit_Lambda(self, node):
-        # For some reason the body of a lambda is not visited
-        # so we need to do it manually.
-        visitor = LambdaNamesCollector()
-        visitor.visit(node.body)
-        self.names.update(visitor.names)
-
-        for arg in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
-            self.names.add(arg.arg)
-
-
 class RewriteName(ast.NodeTransformer):
     """AST node transformer that will try to replace static Name nodes with
     a call to `_lookup` with the name of the node."""
@@ -699,6 +679,35 @@ class RewriteName(ast.NodeTransformer):
     def __init__(self, skip):
         self.skip = skip
 
+    def visit_Lambda(self, node):
+        # The defaults are evaluated outside of the lambda
+        args = node.args
+        args.defaults = [self.visit(default) for default in args.defaults]
+        args.kw_defaults = [
+            default and self.visit(default) for default in args.kw_defaults
+        ]
+        # The arguments are only known within the body
+        all_args = [*args.posonlyargs, *args.args, *args.kwonlyargs]
+        all_args.extend(arg for arg in (args.vararg, args.kwarg) if arg)
+        node.body = self.within(arg.arg for arg in all_args).visit(node.body)
+        return node
+
+    def visit_comprehension_expression(self, node):
+        # The variables of a comprehension are only known within that comprehension
+        name_collector = NameCollector()
+        for generator in node.generators:
+            name_collector.visit(generator.target)
+        return self.within(name_collector.names).generic_visit(node)
+
+    visit_ListComp = visit_comprehension_expression
+    visit_SetComp = visit_comprehension_expression
+    visit_DictComp = visit_comprehension_expression
+    visit_GeneratorExp = visit_comprehension_expression
+
+    def within(self, names):
+        """Returns visitor for the scope in which the given names are known as well."""
+        return RewriteName(skip=self.skip.union(names))
+
     def visit_Name(self, node):
         # Don't try and replace any item from the __builtins__
         if node.id in __builtins__:
-- 
2.43.0


From f4025c73346b4142478cefc68649dc3bf9284b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:46 +0000
Subject: [PATCH 28/64] fix: reloading a .cgx module shows its new contents

---
 collagraph/cgx/cgx.py      |  9 +++++----
 collagraph/cgx/importer.py | 15 +++++++++++++--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index c9a8b6a..83ce296 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -27,7 +27,7 @@ COMPONENT_CLASS_DEFINITION = re.compile(r"class\s*(.*?)\s*\(.*?\)\s*:")
 MOUSTACHES = re.compile(r"\{\{.*?\}\}")
 
 
-def load(path):
+def load(path, namespace=None):
     """
     Loads and returns a component from a CGX file.
 
@@ -52,13 +52,14 @@ def load(path):
             pass
         </script>
 
+    The module is executed with the items of the (optional) namespace as globals.
     """
     template = path.read_text()
 
-    return load_from_string(template, path)
+    return load_from_string(template, path, namespace)
 
 
-def load_from_string(template, path=None):
+def load_from_string(template, path=None, namespace=None):
     """
     Load template from a string
     """
@@ -72,7 +73,7 @@ def load_from_string(template, path=None):
     code = compile(tree, filename=str(path), mode="exec")
     # Execute the code as module and pass a dictionary that will capture
     # the global and local scope of the module
-    module_namespace = {}
+    module_namespace = dict(namespace or {})
     exec(code, module_namespace)
 
     # Check that the class definition is an actual subclass of Component
diff --git a/collagraph/cgx/importer.py b/collagraph/cgx/importer.py
index a6e55ef..1115a25 100644
--- a/collagraph/cgx/importer.py
+++ b/collagraph/cgx/importer.py
@@ -4,6 +4,16 @@ import sys
 
 from . import cgx
 
+# Keys that are set by the import system
+MODULE_KEYS = {
+    "__cached__",
+    "__file__",
+    "__loader__",
+    "__name__",
+    "__package__",
+    "__spec__",
+}
+
 
 class CgxImporter:
     def __init__(self, cgx_path):
@@ -34,10 +44,11 @@ class CgxImporter:
 
     def exec_module(self, module):
         """Executing the module means reading the cgx file"""
-        component, context = cgx.load(self.cgx_path)
         # Add the default module keys to the context such that
         # __file__, __name__ and such are available to the loaded module
-        context.update(module.__dict__)
+        # NOTE: when reloading, the module contains the previous contents as well
+        defaults = {k: v for k, v in vars(module).items() if k in MODULE_KEYS}
+        component, context = cgx.load(self.cgx_path, defaults)
 
         module.__dict__.update(context)
         module.__dict__[component.__name__] = component
-- 
2.43.0


From a91a2dd897afd77654f928a149bd7d5dcd01970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:04 +0000
Subject: [PATCH 29/64] fix: refuse a .cgx file that ends halfway its template

---
 collagraph/cgx/cgx.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 83ce296..c2a582f 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -119,6 +119,8 @@ def construct_ast(path, template=None):
 
     # Create render function as AST and inject into the ClassDef
     template_node = parser.root.child_with_tag("template")
+    if template_node is not None and template_node.end is None:
+        raise ValueError(f"The template of {path} is incomplete: it's not closed.")
     elements = [el for el in template_node.children if isinstance(el, Element)]
     if len(elements) != 1:
         raise ValueError(
@@ -830,10 +832,12 @@ class CGXParser(HTMLParser):
         self.stack.append(node)
 
     def handle_endtag(self, tag):
-        # TODO: pop it till popping the same tag in order to
-        # work around unclosed tags?
-        # Pop the stack
-        node = self.stack.pop()
+        # Pop the stack until popping the same tag (there might be unclosed tags)
+        # NOTE: The tag parameter is lower-cased by the HTMLParser.
+        if tag not in [node.tag.lower() for node in self.stack[1:]]:
+            return
+        while (node := self.stack.pop()).tag.lower() != tag:
+            pass
         node.end = self.getpos()
 
     def handle_data(self, data):
-- 
2.43.0


From 20e926570966609023c3573e7f15dcdca94fc463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:49 +0000
Subject: [PATCH 30/64] fix: the first iterable of a comprehension is evaluated
 outside of its scope

---
 collagraph/cgx/cgx.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index c2a582f..129d83a 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -696,11 +696,16 @@ class RewriteName(ast.NodeTransformer):
         return node
 
     def visit_comprehension_expression(self, node):
-        # The variables of a comprehension are only known within that comprehension
+        # The variables of a comprehension are only known within that comprehension,
+        # except for the first iterable, which is evaluated outside of it
+        first_iterable = self.visit(node.generators[0].iter)
+        node.generators[0].iter = ast.Constant(value=None)
         name_collector = NameCollector()
         for generator in node.generators:
             name_collector.visit(generator.target)
-        return self.within(name_collector.names).generic_visit(node)
+        node = self.within(name_collector.names).generic_visit(node)
+        node.generators[0].iter = first_iterable
+        return node
 
     visit_ListComp = visit_comprehension_expression
     visit_SetComp = visit_comprehension_expression
-- 
2.43.0


From c2ba22e170d10ce5fb3fa9a524e897e05746ee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:44 +0000
Subject: [PATCH 31/64] fix: computed values are outdated by the time a
 synchronous update starts

---
 collagraph/collagraph.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 0cc7abf..c8509cb 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -38,6 +38,13 @@ class NotifyChangeWatcher(Watcher):
     # Number of the pass in which this watcher was evaluated
     evaluated_in = None
 
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
+        # NOTE: Watchers are notified in order of their id. In synchronous mode the UI
+        # is updated right away, so by then all computed values have to know already
+        # that they are outdated, no matter when they were created.
+        self.id += 1 << 62
+
     def update(self):
         """On update, simply run the callback."""
         self.callback(self)
-- 
2.43.0


From 5589a2ca692ddb97496e3fd8b4e775e900be9bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 32/64] fix: a failing synchronous update does not keep other
 UIs from noticing the change

---
 collagraph/collagraph.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index c8509cb..d6b8982 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -37,6 +37,8 @@ class NotifyChangeWatcher(Watcher):
 
     # Number of the pass in which this watcher was evaluated
     evaluated_in = None
+    # The UI for which is being watched
+    ui = None
 
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
@@ -47,11 +49,25 @@ class NotifyChangeWatcher(Watcher):
 
     def update(self):
         """On update, simply run the callback."""
-        self.callback(self)
+        deps = list(self._deps)
+        try:
+            self.callback(self)
+        except Exception:
+            # The failure of a synchronous update ends the notification of the change,
+            # so make sure that it reaches the other UIs that depend on it
+            watchers = {watcher for dep in deps for watcher in dep._subs or ()}
+            for watcher in sorted(watchers, key=lambda watcher: watcher.id):
+                if watcher.id > self.id and watcher.ui is not self.ui:
+                    try:
+                        watcher.update()
+                    except Exception as e:
+                        logger.error("Failure while updating the UI", exc_info=e)
+            raise
 
     def stop(self):
         """Stop watching: without functions, nothing is called or kept alive."""
         self.fn = self.callback = lambda *args: None
+        self.ui = None
 
 
 def watch(fn, cb, lazy=False, deep=False, **kwargs):
@@ -307,6 +323,7 @@ class Collagraph:
     def evaluate_watcher(self, fiber: Fiber):
         # NOTE: Evaluate when the watcher is in place: when evaluation
         # fails, then its dependencies are still being watched
+        fiber.watcher.ui = self
         fiber.watcher.evaluated_in = self._pass
         fiber.watcher.evaluate()
 
-- 
2.43.0


From 004ecdfd5af207cc5da6edcb8e2290e9ce5df89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 33/64] fix: pygfx attributes are restored to the defaults of a
 new element

The defaults were read from the first element on which the attribute was
set, after other attributes could have changed them, and an attribute that
did not exist at that time was never deleted again.
---
 collagraph/renderers/pygfx_renderer.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/collagraph/renderers/pygfx_renderer.py b/collagraph/renderers/pygfx_renderer.py
index ddcce23..05522c7 100644
--- a/collagraph/renderers/pygfx_renderer.py
+++ b/collagraph/renderers/pygfx_renderer.py
@@ -5,6 +5,9 @@ from . import Renderer
 ELEMENT_TYPE_CACHE = {}
 DEFAULT_ATTR_CACHE = {}
 
+# Marks the attributes that an element doesn't have by default
+MISSING = object()
+
 
 class PygfxRenderer(Renderer):
     """Renderer for Pygfx objects"""
@@ -43,6 +46,7 @@ class PygfxRenderer(Renderer):
 
     def set_attribute(self, obj, attr, value):
         key = f"{type(obj).__name__}.{attr}"
+        el = obj
 
         # Split the given attr on dots to allow for
         # local.position for instance to be set
@@ -51,12 +55,18 @@ class PygfxRenderer(Renderer):
             obj = getattr(obj, attribute)
 
         if key not in DEFAULT_ATTR_CACHE:
-            if hasattr(obj, attr):
-                default_value = getattr(obj, attr)
-                if hasattr(default_value, "copy"):
-                    DEFAULT_ATTR_CACHE[key] = default_value.copy()
-                else:
-                    DEFAULT_ATTR_CACHE[key] = default_value
+            # Look at a new element: the attributes of the given element
+            # might have been changed already (by setting another attribute)
+            new = type(el)()
+            try:
+                for attribute in attrs:
+                    new = getattr(new, attribute)
+            except AttributeError:
+                new = obj
+            default_value = getattr(new, attr, MISSING)
+            if hasattr(default_value, "copy"):
+                default_value = default_value.copy()
+            DEFAULT_ATTR_CACHE[key] = default_value
 
         setattr(obj, attr, value)
 
@@ -69,8 +79,8 @@ class PygfxRenderer(Renderer):
         for attribute in attrs:
             obj = getattr(obj, attribute)
 
-        if key in DEFAULT_ATTR_CACHE:
-            default_value = DEFAULT_ATTR_CACHE[key]
+        default_value = DEFAULT_ATTR_CACHE.get(key, MISSING)
+        if default_value is not MISSING:
             if hasattr(default_value, "copy"):
                 val = default_value.copy()
             else:
-- 
2.43.0


From e248bac511aab1f56930baad394e493a5fe42a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:00 +0000
Subject: [PATCH 34/64] fix: tabs are inserted in order, released when removed
 and keep their label up to date

---
 collagraph/renderers/pyside/objects/tab.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/tab.py b/collagraph/renderers/pyside/objects/tab.py
index 54d50ab..e643518 100644
--- a/collagraph/renderers/pyside/objects/tab.py
+++ b/collagraph/renderers/pyside/objects/tab.py
@@ -8,10 +8,11 @@ def insert(self, el: QWidget, anchor: QWidget = None):
     index = getattr(el, "tab_index", -1)
     label = getattr(el, "tab_label", "")
 
-    if index >= 0:
-        self.insertTab(index, el, label)
-    else:
-        self.addTab(el, label)
+    if index < 0 and anchor is not None:
+        index = self.indexOf(anchor)
+
+    # An index of -1 appends the tab
+    self.insertTab(index, el, label)
 
 
 @PySideRenderer.register_remove(QTabWidget)
@@ -19,3 +20,16 @@ def remove(self, el: QWidget):
     index = self.indexOf(el)
     if index >= 0:
         self.removeTab(index)
+    el.setParent(None)
+
+
+@PySideRenderer.register_custom_attribute("tab_label")
+def set_tab_label(self, attr, value):
+    self.set_attribute(attr, value)
+    # The pages are children of a stack which is a child of the tab widget
+    stack = self.parent() if isinstance(self, QWidget) else None
+    tabs = stack.parent() if stack is not None else None
+    if isinstance(tabs, QTabWidget):
+        index = tabs.indexOf(self)
+        if index >= 0:
+            tabs.setTabText(index, value)
-- 
2.43.0


From ef1df99d3bb88a45569943ff95d5008e9577defc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 35/64] fix: slots of callables that can't be compared with
 their slot are disconnected

---
 collagraph/renderers/pyside_renderer.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 36a0250..3fa3d9d 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -390,7 +390,7 @@ class PySideRenderer(Renderer):
         if signal and hasattr(signal, "connect"):
             # Add a slots attribute to hold all the generated slots, keyed on event_type
             if not hasattr(el, "slots"):
-                el.slots = defaultdict(set)
+                el.slots = defaultdict(list)
 
             # Create a slot with the given value
             # Note that the slot apparently does not need arguments to specify the type
@@ -407,7 +407,9 @@ class PySideRenderer(Renderer):
                 # TODO: with some inspection we might be able to figure out the
                 # signature of the 'value' function and adjust the lambda accordingly
                 slot = QtCore.Slot()(lambda *args: value(*args))
-            el.slots[event_type].add(slot)
+            # Remember the slot together with the value that it was created
+            # for: the slot can't always be compared with the value
+            el.slots[event_type].append((value, slot))
 
             signal.connect(slot)
         else:
@@ -428,11 +430,11 @@ class PySideRenderer(Renderer):
             el._event_filter.remove_event_handler(event_name, value)
             return
 
-        for slot in el.slots[event_type]:
-            # Slot can be compared to its value
-            if slot == value:
+        for item in el.slots[event_type]:
+            handler, slot = item
+            if handler == value:
                 signal.disconnect(slot)
-                el.slots[event_type].remove(slot)
+                el.slots[event_type].remove(item)
                 break
 
 
-- 
2.43.0


From 908837868caeac32d2e234f75f17f7d6bd7af74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 36/64] fix: menus keep their entries and action when moved,
 and can be an anchor

---
 collagraph/renderers/pyside/objects/menu.py    | 7 +++++--
 collagraph/renderers/pyside/objects/menubar.py | 6 +++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/menu.py b/collagraph/renderers/pyside/objects/menu.py
index 9c2b199..e5dab17 100644
--- a/collagraph/renderers/pyside/objects/menu.py
+++ b/collagraph/renderers/pyside/objects/menu.py
@@ -6,6 +6,9 @@ from ... import PySideRenderer
 
 @PySideRenderer.register_insert(QMenu)
 def insert(self, el, anchor=None):
+    if isinstance(anchor, QMenu):
+        anchor = anchor.menuAction()
+
     if isinstance(el, QMenu):
         if anchor is not None:
             action = self.insertMenu(anchor, el)
@@ -26,7 +29,7 @@ def remove(self, el):
         self.removeAction(el)
         el.setParent(None)
     elif isinstance(el, QMenu):
-        el.clear()
         menu_action = el.menuAction()
         self.removeAction(menu_action)
-        menu_action.setParent(None)
+        # The action belongs to the menu again
+        menu_action.setParent(el)
diff --git a/collagraph/renderers/pyside/objects/menubar.py b/collagraph/renderers/pyside/objects/menubar.py
index 15b073e..ce8f06c 100644
--- a/collagraph/renderers/pyside/objects/menubar.py
+++ b/collagraph/renderers/pyside/objects/menubar.py
@@ -6,7 +6,7 @@ from ... import PySideRenderer
 @PySideRenderer.register_insert(QMenuBar)
 def insert(self, el: QMenu, anchor: QMenu = None):
     if anchor is not None:
-        action = self.insertMenu(anchor, el)
+        action = self.insertMenu(anchor.menuAction(), el)
     else:
         action = self.addMenu(el)
     # Use the window property of the menubar to set
@@ -21,7 +21,7 @@ def insert(self, el: QMenu, anchor: QMenu = None):
 
 @PySideRenderer.register_remove(QMenuBar)
 def remove(self, el: QMenu):
-    el.clear()
     menu_action = el.menuAction()
     self.removeAction(menu_action)
-    menu_action.setParent(None)
+    # The action belongs to the menu again
+    menu_action.setParent(el)
-- 
2.43.0


From 3b938ec05433eddf2ef4465194134b732ca71574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 37/64] fix: widgets in a toolbar are removed together with
 their action, and can be an anchor

---
 .../renderers/pyside/objects/toolbar.py       | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/toolbar.py b/collagraph/renderers/pyside/objects/toolbar.py
index 4636e3b..48ffb5b 100644
--- a/collagraph/renderers/pyside/objects/toolbar.py
+++ b/collagraph/renderers/pyside/objects/toolbar.py
@@ -1,13 +1,26 @@
 from PySide6.QtGui import QAction
-from PySide6.QtWidgets import QToolBar, QWidget
+from PySide6.QtWidgets import QToolBar, QWidget, QWidgetAction
 
 from ... import PySideRenderer
 
 
+def widget_action(toolbar, widget):
+    """Returns the action that shows the widget in the toolbar (if there is one)"""
+    for action in toolbar.findChildren(QWidgetAction):
+        if action.defaultWidget() is widget:
+            return action
+
+
 @PySideRenderer.register_insert(QToolBar)
 def insert(self, el, anchor=None):
+    if isinstance(anchor, QWidget):
+        anchor = widget_action(self, anchor)
+
     if isinstance(el, QWidget):
-        if anchor is not None:
+        if action := widget_action(self, el):
+            # The widget was part of this toolbar before
+            self.insertAction(anchor, action)
+        elif anchor is not None:
             action = self.insertWidget(anchor, el)
         else:
             action = self.addWidget(el)
@@ -26,4 +39,6 @@ def remove(self, el):
         self.removeAction(el)
         el.setParent(None)
     elif isinstance(el, QWidget):
+        if action := widget_action(self, el):
+            self.removeAction(action)
         el.setParent(None)
-- 
2.43.0


From efdae64372605ad30ebbf2baa418f78fe9bce8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 38/64] fix: removing or replacing what a window, scroll area
 or view shows leaves the rest intact

---
 collagraph/renderers/pyside/objects/listview.py   |  6 ++++--
 collagraph/renderers/pyside/objects/scrollarea.py |  7 ++++++-
 collagraph/renderers/pyside/objects/window.py     | 14 ++++++++++++++
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/listview.py b/collagraph/renderers/pyside/objects/listview.py
index 868e593..ec1d8f6 100644
--- a/collagraph/renderers/pyside/objects/listview.py
+++ b/collagraph/renderers/pyside/objects/listview.py
@@ -28,9 +28,11 @@ def insert(self, el: Union[QStandardItemModel, QItemSelectionModel], anchor=None
 @PySideRenderer.register_remove(QListView, QTableView, QTreeView)
 def remove(self, el: Union[QStandardItemModel, QItemSelectionModel]):
     if isinstance(el, QStandardItemModel):
-        self.setModel(None)
+        if self.model() is el:
+            self.setModel(None)
     elif isinstance(el, QItemSelectionModel):
-        self.setSelectionModel(None)
+        if self.selectionModel() is el:
+            self.setSelectionModel(None)
     else:
         raise NotImplementedError(type(el).__name__)
 
diff --git a/collagraph/renderers/pyside/objects/scrollarea.py b/collagraph/renderers/pyside/objects/scrollarea.py
index c4fcec8..81a9587 100644
--- a/collagraph/renderers/pyside/objects/scrollarea.py
+++ b/collagraph/renderers/pyside/objects/scrollarea.py
@@ -5,11 +5,16 @@ from ... import PySideRenderer
 
 @PySideRenderer.register_insert(QScrollArea)
 def insert(self, el: QWidget, anchor=None):
+    if widget := self.takeWidget():
+        # Otherwise the scroll area would delete the widget that is replaced
+        widget.setParent(None)
     el.setParent(self)
     self.setWidget(el)
 
 
 @PySideRenderer.register_remove(QScrollArea)
 def remove(self, el: QWidget):
-    self.setWidget(None)
+    if self.widget() is el:
+        # Note that `setWidget(None)` would delete the widget
+        self.takeWidget()
     el.setParent(None)
diff --git a/collagraph/renderers/pyside/objects/window.py b/collagraph/renderers/pyside/objects/window.py
index c7890ec..46bc5b6 100644
--- a/collagraph/renderers/pyside/objects/window.py
+++ b/collagraph/renderers/pyside/objects/window.py
@@ -28,5 +28,19 @@ def insert(self, el, anchor=None):
     else:
         # Let's assume any other given widget is just the
         # central widget of the QMainWindow
+        if central := self.takeCentralWidget():
+            # Otherwise the window would delete the widget that is replaced
+            central.setParent(None)
         self.setCentralWidget(el)
         el.setParent(self)
+
+
+@PySideRenderer.register_remove(QMainWindow)
+def remove(self, el):
+    if isinstance(el, QDockWidget):
+        self.removeDockWidget(el)
+    elif isinstance(el, QToolBar):
+        self.removeToolBar(el)
+    elif el is self.centralWidget():
+        self.takeCentralWidget()
+    el.setParent(None)
-- 
2.43.0


From d745c9db1dd3655c0a8b9d181634dac8cdbcb241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 39/64] fix: a group box in a dock widget is not its title bar

---
 collagraph/renderers/pyside/objects/dockwidget.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/dockwidget.py b/collagraph/renderers/pyside/objects/dockwidget.py
index 9266774..024c55b 100644
--- a/collagraph/renderers/pyside/objects/dockwidget.py
+++ b/collagraph/renderers/pyside/objects/dockwidget.py
@@ -5,7 +5,9 @@ from ... import PySideRenderer
 
 @PySideRenderer.register_insert(QtWidgets.QDockWidget)
 def insert(self, el, anchor=None):
-    if getattr(el, "title", False):
+    title = getattr(el, "title", False)
+    # Widgets such as QGroupBox have a `title` method
+    if title and not callable(title):
         self.setTitleBarWidget(el)
     else:
         self.setWidget(el)
-- 
2.43.0


From f3555997aadfa5a778f5a31e3b9fca71ff129d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 40/64] fix: rows of a form are inserted in order, updated in
 place and removed without deleting the element

---
 .../renderers/pyside/objects/layouts.py       | 38 ++++++++++++++-----
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/layouts.py b/collagraph/renderers/pyside/objects/layouts.py
index 30e79db..db272f4 100644
--- a/collagraph/renderers/pyside/objects/layouts.py
+++ b/collagraph/renderers/pyside/objects/layouts.py
@@ -40,10 +40,27 @@ def box_layout_insert(self, el, anchor=None):
 
 @PySideRenderer.register_insert(QFormLayout)
 def form_insert(self, el, anchor=None):
+    row = -1
     if hasattr(el, "form_index"):
-        self.insertRow(el.form_index, el.form_label, el)
-    else:
-        self.addRow(el.form_label, el)
+        row = el.form_index
+    elif anchor is not None:
+        row = form_row(self, anchor)
+    # A row of -1 appends the element
+    self.insertRow(row, el.form_label, el)
+
+
+def form_row(layout, el):
+    """Returns the index of the row with the given element (-1 if not found)"""
+    # `getWidgetPosition` returns either a position or a role in the last element
+    return layout.getWidgetPosition(el)[0] if layout.indexOf(el) >= 0 else -1
+
+
+def take_form_row(layout, row):
+    """Takes the row from the layout without deleting its field, returns the field"""
+    result = layout.takeRow(row)
+    if result.labelItem is not None and (label := result.labelItem.widget()):
+        label.deleteLater()
+    return result.fieldItem.widget() if result.fieldItem is not None else None
 
 
 @PySideRenderer.register_insert(QGridLayout)
@@ -59,8 +76,10 @@ def remove_layout(self, el):
 
 @PySideRenderer.register_remove(QFormLayout)
 def remove_form(self, el):
-    # Layout also deletes 'el' so no need to unset parent
-    self.removeRow(el)
+    row = form_row(self, el)
+    if row >= 0:
+        take_form_row(self, row)
+    el.setParent(None)
 
 
 @PySideRenderer.register_set_attr(QLayout)
@@ -110,7 +129,8 @@ def set_form_index(self, attr, value):
     setattr(self, attr, value)
     if parent := self.parent():
         layout = parent.layout()
-        if hasattr(self, "form_label") and hasattr(self, "form_index"):
-            layout.insertRow(self.form_index, self.form_label, self)
-        elif hasattr(self, "form_label"):
-            layout.addRow(self.form_label, self)
+        row = form_row(layout, self) if isinstance(layout, QFormLayout) else -1
+        if row >= 0 and hasattr(self, "form_label"):
+            # Replace the row
+            take_form_row(layout, row)
+            layout.insertRow(getattr(self, "form_index", row), self.form_label, self)
-- 
2.43.0


From 071647eb9862cb667e7ba34ef4860066efba89da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 41/64] fix: changing the type of a layout keeps its widgets

---
 .../renderers/pyside/objects/layouts.py       | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/layouts.py b/collagraph/renderers/pyside/objects/layouts.py
index db272f4..00cc549 100644
--- a/collagraph/renderers/pyside/objects/layouts.py
+++ b/collagraph/renderers/pyside/objects/layouts.py
@@ -98,6 +98,34 @@ def set_layout_attribute(self, attr, value):
             call_method(method, value)
 
 
+def take_widgets(layout):
+    """Takes all the widgets from the layout (in order) and returns them"""
+    widgets = []
+    if isinstance(layout, QFormLayout):
+        while layout.rowCount():
+            widgets.append(take_form_row(layout, 0))
+    else:
+        while item := layout.takeAt(0):
+            widgets.append(item.widget())
+    widgets = [widget for widget in widgets if widget is not None]
+    if isinstance(layout, QStackedLayout):
+        # A stacked layout hides all the widgets except for the current one
+        for widget in widgets:
+            widget.show()
+    return widgets
+
+
+def transfer_widget(layout, el):
+    """Adds a widget that was part of another layout. The attributes for the position
+    of the widget in the new layout might be set later."""
+    if isinstance(layout, QFormLayout) and not hasattr(el, "form_label"):
+        layout.addRow(el)
+    elif isinstance(layout, QGridLayout) and not hasattr(el, "grid_index"):
+        layout.addWidget(el)
+    else:
+        layout.insert(el)
+
+
 @PySideRenderer.register_custom_attribute("layout")
 def set_layout_attr(self, attr, value):
     if layout_type := LAYOUT_MAPPING.get(value["type"].lower()):
@@ -105,10 +133,13 @@ def set_layout_attr(self, attr, value):
         if isinstance(layout, layout_type):
             pass
         else:
+            widgets = take_widgets(layout) if layout else []
             if layout:
                 QWidget().setLayout(layout)
             layout = PySideRenderer.create_object(value["type"].lower())
             self.setLayout(layout)
+            for widget in widgets:
+                transfer_widget(layout, widget)
 
         for key, val in value.items():
             layout.set_attribute(key, val)
-- 
2.43.0


From 441547fde07797ad6978061ddf48a80bcb18ee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 42/64] fix: items of a combobox replace the previous items

---
 collagraph/renderers/pyside/objects/combobox.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/combobox.py b/collagraph/renderers/pyside/objects/combobox.py
index 1f95076..6a7730e 100644
--- a/collagraph/renderers/pyside/objects/combobox.py
+++ b/collagraph/renderers/pyside/objects/combobox.py
@@ -7,6 +7,11 @@ from ... import PySideRenderer
 @PySideRenderer.register_set_attr(QtWidgets.QComboBox)
 def set_attribute(self, attr, value):
     if attr == "items":
+        text = self.currentText()
+        self.clear()
         self.addItems(value)
+        # Keep the current item (if there still is one with that text)
+        if (index := self.findText(text)) >= 0:
+            self.setCurrentIndex(index)
     else:
         widget.set_attribute(self, attr, value)
-- 
2.43.0


From d5ac8c0e692e9ed47f90c06fdd63ae8f46a5a10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 43/64] fix: buttons of a dialog button box are removed and
 follow their role

---
 .../pyside/objects/dialogbuttonbox.py         | 39 +++++++++++++++----
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/dialogbuttonbox.py b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
index 3d191e4..9b6ef84 100644
--- a/collagraph/renderers/pyside/objects/dialogbuttonbox.py
+++ b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
@@ -1,4 +1,4 @@
-from PySide6.QtWidgets import QDialogButtonBox
+from PySide6.QtWidgets import QAbstractButton, QDialogButtonBox
 
 from .widget import set_attribute as widget_set_attribute
 from ... import PySideRenderer
@@ -18,15 +18,38 @@ def insert(self, el, anchor=None):
     raise NotImplementedError
 
 
+@PySideRenderer.register_remove(QDialogButtonBox)
+def remove(self, el):
+    self.removeButton(el)
+    el.setParent(None)
+
+
+@PySideRenderer.register_custom_attribute("role")
+def set_role(self, attr, value):
+    self.set_attribute(attr, value)
+    parent = self.parent() if isinstance(self, QAbstractButton) else None
+    if isinstance(parent, QDialogButtonBox) and self in parent.buttons():
+        # Adding the button again moves it to its new role
+        parent.insert(self)
+
+
 @PySideRenderer.register_set_attr(QDialogButtonBox)
 def set_attribute(self, attr, value):
     if attr == "buttons":
-        for flag in value:
-            flag = (
-                flag
-                if isinstance(flag, QDialogButtonBox.StandardButton)
-                else getattr(QDialogButtonBox, flag)
-            )
-            self.addButton(flag)
+        flags = [
+            flag
+            if isinstance(flag, QDialogButtonBox.StandardButton)
+            else getattr(QDialogButtonBox, flag)
+            for flag in value
+        ]
+        # Remove the standard buttons that are not described anymore
+        for button in self.buttons():
+            flag = self.standardButton(button)
+            if flag != QDialogButtonBox.StandardButton.NoButton and flag not in flags:
+                self.removeButton(button)
+                button.deleteLater()
+        for flag in flags:
+            if self.button(flag) is None:
+                self.addButton(flag)
     else:
         widget_set_attribute(self, attr, value)
-- 
2.43.0


From d8bf30fb08a83773e213c77dd92f4e2e21c3a6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 44/64] fix: tree widget items keep their expanded and selected
 state, also when nested

---
 .../pyside/objects/treewidgetitem.py          | 45 ++++++++++++++-----
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/treewidgetitem.py b/collagraph/renderers/pyside/objects/treewidgetitem.py
index 85993a8..964504f 100644
--- a/collagraph/renderers/pyside/objects/treewidgetitem.py
+++ b/collagraph/renderers/pyside/objects/treewidgetitem.py
@@ -17,22 +17,45 @@ def insert(self, el: QTreeWidgetItem, anchor=None):
     else:
         self.addChild(el)
 
-    # After mounting, process some attributes that can only
-    # be adjusted when the item is mounted in the tree structure
-    if hasattr(el, "_expanded"):
-        el.setExpanded(el._expanded)
-        delattr(el, "_expanded")
-
-    if hasattr(el, "_selected"):
-        el.setSelected(el._selected)
-        delattr(el, "_selected")
+    restore_state(el)
 
 
 @PySideRenderer.register_remove(QTreeWidgetItem)
 def remove(self, el: QTreeWidgetItem):
+    remember_state(el)
     self.removeChild(el)
 
 
+def restore_state(item):
+    """After mounting, process some attributes that can only be adjusted
+    when the item is mounted in the tree structure. Note that the item might be
+    mounted as part of another item."""
+    if not item.treeWidget():
+        return
+
+    if hasattr(item, "_expanded"):
+        item.setExpanded(item._expanded)
+        delattr(item, "_expanded")
+
+    if hasattr(item, "_selected"):
+        item.setSelected(item._selected)
+        delattr(item, "_selected")
+
+    for index in range(item.childCount()):
+        restore_state(item.child(index))
+
+
+def remember_state(item):
+    """The tree forgets about the state of items that are removed, so keep it around
+    for when the item is mounted again (which is what happens to items that move)."""
+    if item.treeWidget():
+        item._expanded = item.isExpanded()
+        item._selected = item.isSelected()
+
+    for index in range(item.childCount()):
+        remember_state(item.child(index))
+
+
 @PySideRenderer.register_set_attr(QTreeWidgetItem)
 def set_attribute(self, attr, value):
     if attr == "content":
@@ -40,13 +63,13 @@ def set_attribute(self, attr, value):
             self.setText(col, data)
         return
     elif attr == "expanded":
-        if not self.parent():
+        if not self.treeWidget():
             self._expanded = value
         else:
             self.setExpanded(value)
         return
     elif attr == "selected":
-        if not self.parent():
+        if not self.treeWidget():
             self._selected = value
         else:
             self.setSelected(value)
-- 
2.43.0


From 7408b5e6cbe8ed5b80f85b17373d03f2bf8594cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 45/64] fix: inserting and removing standard items keeps the
 other items intact

---
 .../renderers/pyside/objects/standarditem.py   | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/standarditem.py b/collagraph/renderers/pyside/objects/standarditem.py
index 2565a1f..c450c72 100644
--- a/collagraph/renderers/pyside/objects/standarditem.py
+++ b/collagraph/renderers/pyside/objects/standarditem.py
@@ -19,24 +19,22 @@ def insert(self, el, anchor=None):
                 break
         if index is None:
             return
-        self.insertRow(index, el)
+        # Use a list because PySide doesn't transfer the ownership of a single item,
+        # which then gets deleted twice
+        self.insertRow(index, [el])
     else:
         self.appendRow(el)
 
 
 @PySideRenderer.register_remove(QStandardItem)
 def remove(self, el):
-    if hasattr(el, "model_index"):
-        # Only support removal of rows for now
-        row, column = getattr(el, "model_index")
-        if model := el.model():
-            index = model.indexFromItem(el)
-            row = index.row()
-
-        self.takeRow(row)
+    # Only support removal of rows for now
+    row = el.row()
+    if row < 0:
+        # Already removed together with another item from the same row
         return
 
-    self.takeRow(el.row())
+    self.takeRow(row)
 
 
 @PySideRenderer.register_set_attr(QStandardItem)
-- 
2.43.0


From 712437de24c78cd978fc8cb3a0aaa55ab86e5dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:03 +0000
Subject: [PATCH 46/64] fix: PySide attributes are restored to the defaults of
 a new element

---
 collagraph/renderers/pyside_renderer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 3fa3d9d..ec282b9 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -352,8 +352,10 @@ class PySideRenderer(Renderer):
                 property_idx = meta_object.indexOfProperty(method_name)
                 if property_idx >= 0:
                     meta_property = meta_object.property(property_idx)
-                    result = meta_property.read(el)
-                    DEFAULT_VALUES[key] = (meta_property, result)
+                    # Look at a new element: the properties of the given element
+                    # might have been changed already (by another attribute)
+                    new = create_instance(type(el))
+                    DEFAULT_VALUES[key] = (meta_property, meta_property.read(new))
                 else:
                     logger.debug(f"'{attr}' is not a Qt property on {type(el)}")
 
-- 
2.43.0


From 89615aff4b13a2eaf7c82cc23871391f63736ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:08 +0000
Subject: [PATCH 47/64] fix: dialogs can be moved

---
 collagraph/renderers/pyside_renderer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index ec282b9..9d92de8 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -327,11 +327,13 @@ class PySideRenderer(Renderer):
             return
 
         if isinstance(el, QtWidgets.QDialog):
-            # Hide the dialog to make sure it's not visible anymore
+            # Hide the dialog to make sure it's not visible anymore. Don't close it,
+            # so that it won't trigger any of 'finished', 'done', 'rejected',
+            # 'accepted' signals.
             el.hide()
-            # Then mark the element for deletion, so that it won't trigger
-            # any of 'finished', 'done', 'rejected', 'accepted' signals.
-            el.deleteLater()
+            # Don't mark the dialog for deletion either, because it might
+            # be inserted again (when it is moved)
+            el.setParent(None, el.windowFlags())
             return
 
         parent.remove(el)
-- 
2.43.0


From 23b495d37da932a3127057726bd6456958851342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 48/64] fix: dock widgets and toolbars follow their area

---
 collagraph/renderers/pyside/objects/window.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/window.py b/collagraph/renderers/pyside/objects/window.py
index 46bc5b6..d4ad07d 100644
--- a/collagraph/renderers/pyside/objects/window.py
+++ b/collagraph/renderers/pyside/objects/window.py
@@ -15,7 +15,7 @@ def insert(self, el, anchor=None):
         el.setParent(self)
     elif isinstance(el, QToolBar):
         if area := getattr(el, "area", None):
-            self.addToolBar(el, area)
+            self.addToolBar(area, el)
         else:
             self.addToolBar(el)
         el.setParent(self)
@@ -35,6 +35,16 @@ def insert(self, el, anchor=None):
         el.setParent(self)
 
 
+@PySideRenderer.register_custom_attribute("area")
+def set_area(self, attr, value):
+    self.set_attribute(attr, value)
+    if isinstance(self, (QDockWidget, QToolBar)):
+        window = self.parent()
+        if isinstance(window, QMainWindow):
+            # Adding the widget again moves it to its new area
+            window.insert(self)
+
+
 @PySideRenderer.register_remove(QMainWindow)
 def remove(self, el):
     if isinstance(el, QDockWidget):
-- 
2.43.0


From c7cf72fb86c579628b4da66e76108979cc226af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 49/64] fix: line numbers of .cgx scripts were off by one, and
 those of syntax errors relative to the script

---
 collagraph/cgx/cgx.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 129d83a..534b4ee 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -154,13 +154,13 @@ def get_script_ast(parser, path):
     script_node = parser.root.child_with_tag("script")
     assert isinstance(script_node.children[0], TextElement)
     script = script_node.children[0].content
-    line, _ = script_node.location
+    # NOTE: the content starts on the line where the start tag ends
+    line, _ = script_node.children[0].location
 
     # Create an AST from the script
-    script_tree = ast.parse(script, filename=str(path), mode="exec")
     # Make sure that the lineno's match up with the lines in the CGX file
-    ast.increment_lineno(script_tree, n=line)
-    return script_tree
+    # (also the ones that are reported for syntax errors)
+    return ast.parse("\n" * (line - 1) + script, filename=str(path), mode="exec")
 
 
 def create_ast_render_function(node, names):
-- 
2.43.0


From c8b0b440d64d7423ba540f8a4706e1352782d982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 50/64] fix: command line failed for long JSON strings, JSON
 that is no object, and renderers that are not installed

---
 collagraph/__main__.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/collagraph/__main__.py b/collagraph/__main__.py
index 8e8280d..0a81f5d 100644
--- a/collagraph/__main__.py
+++ b/collagraph/__main__.py
@@ -1,5 +1,4 @@
 import argparse
-import importlib
 import json
 from pathlib import Path
 
@@ -17,11 +16,9 @@ def available_renderers():
         # TODO: add support for DomRenderer
         # "DomRenderer": "dom",
     }.items():
-        try:
-            importlib.import_module("collagraph", renderer_type)
+        # NOTE: only the renderers of which the toolkit is installed are exported
+        if hasattr(cg, renderer_type):
             result.add(name)
-        except ImportError:
-            continue
     return result
 
 
@@ -88,17 +85,24 @@ def existing_component_file(value):
 
 def json_contents(value):
     path = Path(value)
-    if path.is_file():
-        with path.open(mode="r", encoding="utf-8") as fh:
-            try:
-                return json.load(fh)
-            except Exception:
-                raise argparse.ArgumentTypeError(f"{value} is not valid json")
-    else:
-        try:
-            return json.loads(value)
-        except Exception:
-            raise argparse.ArgumentTypeError(f"{value} is not valid json")
+    try:
+        is_file = path.is_file()
+    except OSError:
+        # Not a valid path (for instance: too long)
+        is_file = False
+
+    try:
+        if is_file:
+            with path.open(mode="r", encoding="utf-8") as fh:
+                contents = json.load(fh)
+        else:
+            contents = json.loads(value)
+    except Exception:
+        raise argparse.ArgumentTypeError(f"{value} is not valid json")
+
+    if contents is not None and not isinstance(contents, dict):
+        raise argparse.ArgumentTypeError(f"{value} is not a json object")
+    return contents
 
 
 def run():
-- 
2.43.0


From 63462542666508bf7deca102b8beb895f81af1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 51/64] fix: changes in reactive props that are empty at first
 were not noticed

---
 collagraph/collagraph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index d6b8982..c08bd4b 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -92,7 +92,9 @@ def create_element(type, props=None, *children) -> VNode:
         # If children is 1 callable item, then it becomes the default slot
         elif callable(children[0]):
             children = {"default": children[0]}
-    return VNode(type, reactive(props or {}), children or tuple(), key)
+    # NOTE: Props that are empty might be state as well
+    props = reactive({} if props is None else props)
+    return VNode(type, props, children or tuple(), key)
 
 
 def create_text_element(text):
-- 
2.43.0


From 462f00f4cc15ffba0509bbcae6bd87f725d1edee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 52/64] fix: changes of state that is used as props got lost
 when made right before the element was watched

---
 collagraph/collagraph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index c08bd4b..f68ec77 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -266,6 +266,10 @@ class Collagraph:
         raise_first(errors)
 
     def perform_unit_of_work(self, fiber: Fiber) -> Optional[Fiber]:
+        # NOTE: The props might be state, so take a look at them at the very moment
+        # that they are going to be watched
+        fiber.props_snapshot = to_raw(fiber.props)
+
         is_function_or_class_component = callable(fiber.type)
         if is_function_or_class_component:
             is_class_component = isinstance(fiber.type, type)
@@ -465,7 +469,6 @@ class Collagraph:
                 new_fiber = old_fiber.alternate or Fiber()
                 new_fiber.type = element.type
                 new_fiber.props = element.props
-                new_fiber.props_snapshot = to_raw(element.props)
                 new_fiber.children = element.children
                 new_fiber.key = element.key
                 new_fiber.dom = old_fiber.dom
@@ -486,7 +489,6 @@ class Collagraph:
                 new_fiber = (old_fiber and old_fiber.alternate) or Fiber()
                 new_fiber.type = element.type
                 new_fiber.props = element.props
-                new_fiber.props_snapshot = to_raw(element.props)
                 new_fiber.children = element.children
                 new_fiber.key = element.key
                 new_fiber.dom = None
@@ -700,7 +702,7 @@ class Collagraph:
         if fiber.effect_tag == EffectTag.PLACEMENT:
             if fiber.component is not None:
                 self.update_dom_or_component(
-                    fiber, None, prev_props={}, next_props=fiber.props
+                    fiber, None, prev_props={}, next_props=fiber.props_snapshot
                 )
                 fiber.mounted = True
             if fiber.dom is not None or fiber.component is not None:
-- 
2.43.0


From cbc7c650e6623b2b0c76822e77ba62bba3e1f08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 53/64] fix: updating a component altered the state, constants
 or elements from which its props came

---
 collagraph/collagraph.py | 34 ++++++++++++++++++++++++++--------
 collagraph/component.py  |  1 +
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index f68ec77..e25f164 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -4,6 +4,7 @@ from operator import xor
 from queue import SimpleQueue
 import time
 from typing import Any, Callable, Dict, Iterable, List, Optional
+from weakref import ref
 
 from observ import reactive, scheduler, to_raw
 from observ.proxy import Proxy
@@ -303,9 +304,15 @@ class Collagraph:
                     break
                 parent_fiber = parent_fiber.parent
 
-            component = fiber.type(props=fiber.props, parent=parent_component)
+            # NOTE: The component gets its own props (which will be updated), because
+            # those of the element might be state or belong to several components
+            props = reactive(dict(unwrap(fiber.props)))
+            component = fiber.type(props=props, parent=parent_component)
         else:
-            self.update_props(component, fiber.props)
+            # Get a writable reference to the read-only props of the component
+            props = reactive(component.props)
+
+        self.update_props(props, self.watch_props(component, fiber.props))
 
         # Attach the component instance to the fiber
         fiber.component = component
@@ -333,19 +340,30 @@ class Collagraph:
         fiber.watcher.evaluated_in = self._pass
         fiber.watcher.evaluate()
 
-    def update_props(self, component, passed):
+    def watch_props(self, component, passed):
+        """
+        Watch the props that are passed: those might be state, or changed by whoever
+        made the element. Changes will be applied to the props of the component.
+        """
+        component_ref = ref(component)
+
+        def update(passed):
+            if component := component_ref():
+                self.update_props(reactive(component.props), passed)
+
+        watcher = Watcher(lambda: dict(passed), sync=True, lazy=False, callback=update)
+        # The component keeps the watcher alive (and replaces the previous one)
+        component._props_watcher = watcher
+        return watcher.value
+
+    def update_props(self, props, passed):
         """
         Make sure that the component has the props as they are passed now.
         This is done right before the component renders, so its output will
         be part of the same update. The component gets the very same objects
         (instead of copies), such that changes in those will be noticed.
         """
-        # Get a writable reference to the read-only props of the component
-        props = reactive(component.props)
         current, passed = unwrap(props), unwrap(passed)
-        if current is passed:
-            return
-
         for key in [key for key in current if key not in passed]:
             del props[key]
 
diff --git a/collagraph/component.py b/collagraph/component.py
index 10689db..3acdb7d 100644
--- a/collagraph/component.py
+++ b/collagraph/component.py
@@ -12,6 +12,7 @@ class Component:
 
     def __init__(self, props=None, parent=None):
         self._props = readonly({} if props is None else props)
+        self._props_watcher = None
         self._state = reactive({})
         self._element = None
         self._slots = {}
-- 
2.43.0


From 7bda77c4d8d4bfdad782dc498957992333526700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:30 +0000
Subject: [PATCH 54/64] fix: removing an attribute that is a Qt property of a
 custom widget failed

---
 collagraph/renderers/pyside_renderer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 9d92de8..538f5cf 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -370,8 +370,10 @@ class PySideRenderer(Renderer):
 
     def remove_attribute(self, el: Any, attr: str, value: Any):
         """Remove the attribute `attr` from the element `el`."""
-        # Make it possible to delete custom attributes
-        if hasattr(el, attr):
+        # Make it possible to delete custom attributes (Qt properties of custom
+        # widgets can't be deleted, those get their default value back)
+        is_property = isinstance(getattr(type(el), attr, None), QtCore.Property)
+        if hasattr(el, attr) and not is_property:
             if getattr(el, attr) == value:
                 delattr(el, attr)
                 return
-- 
2.43.0


From f0b3b0446a38b8f9d61c4a44b77d23538a374aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:30 +0000
Subject: [PATCH 55/64] fix: layouts registered with dashes or underscores were
 not found, and a layout was not replaced by its base class

---
 collagraph/renderers/pyside/objects/layouts.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/layouts.py b/collagraph/renderers/pyside/objects/layouts.py
index 00cc549..1b50db7 100644
--- a/collagraph/renderers/pyside/objects/layouts.py
+++ b/collagraph/renderers/pyside/objects/layouts.py
@@ -8,7 +8,7 @@ from PySide6.QtWidgets import (
 )
 
 from .. import attr_name_to_method_name, call_method
-from ...pyside_renderer import LAYOUT_MAPPING, PySideRenderer
+from ...pyside_renderer import LAYOUT_MAPPING, PySideRenderer, normalize_name
 
 DIRECTIONS = {
     "TopToBottom": QBoxLayout.Direction.TopToBottom,
@@ -128,15 +128,15 @@ def transfer_widget(layout, el):
 
 @PySideRenderer.register_custom_attribute("layout")
 def set_layout_attr(self, attr, value):
-    if layout_type := LAYOUT_MAPPING.get(value["type"].lower()):
+    name = normalize_name(value["type"])
+    if layout_type := LAYOUT_MAPPING.get(name):
         layout = self.layout()
-        if isinstance(layout, layout_type):
-            pass
-        else:
+        # NOTE: A subclass of the layout is a different layout
+        if layout_type not in (type(layout), *type(layout).__bases__):
             widgets = take_widgets(layout) if layout else []
             if layout:
                 QWidget().setLayout(layout)
-            layout = PySideRenderer.create_object(value["type"].lower())
+            layout = PySideRenderer.create_object(name)
             self.setLayout(layout)
             for widget in widgets:
                 transfer_widget(layout, widget)
-- 
2.43.0


From 37c1cb7c7193b5844ac2e51630609d6e45461271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 56/64] fix: names that are imported within a function of the
 script were not looked up in templates

---
 collagraph/cgx/cgx.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 534b4ee..a91096b 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -755,6 +755,14 @@ class ImportsCollector(ast.NodeVisitor):
         for alias in node.names:
             self.names.add(alias.asname or alias.name)
 
+    def visit_scope(self, node):
+        # What is imported within a function or class is not known in the module
+        pass
+
+    visit_FunctionDef = visit_scope
+    visit_AsyncFunctionDef = visit_scope
+    visit_ClassDef = visit_scope
+
 
 class TextElement:
     def __init__(self, content, location=None):
-- 
2.43.0


From eea411ba5684fc39d85ffa11c70ae53c6968145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 57/64] fix: removing a selection model crashed the process

---
 collagraph/renderers/pyside/objects/listview.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/listview.py b/collagraph/renderers/pyside/objects/listview.py
index ec1d8f6..1b89db8 100644
--- a/collagraph/renderers/pyside/objects/listview.py
+++ b/collagraph/renderers/pyside/objects/listview.py
@@ -32,7 +32,8 @@ def remove(self, el: Union[QStandardItemModel, QItemSelectionModel]):
             self.setModel(None)
     elif isinstance(el, QItemSelectionModel):
         if self.selectionModel() is el:
-            self.setSelectionModel(None)
+            # A view can't be without a selection model
+            self.setSelectionModel(QItemSelectionModel(self.model(), self))
     else:
         raise NotImplementedError(type(el).__name__)
 
-- 
2.43.0


From 184e6d3e336788cbcc364878095efca9af775bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:33 +0000
Subject: [PATCH 58/64] fix: widgets that were moved in a status bar or added
 below a message stayed hidden

---
 collagraph/renderers/pyside/objects/statusbar.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/statusbar.py b/collagraph/renderers/pyside/objects/statusbar.py
index c63718d..f4c59d2 100644
--- a/collagraph/renderers/pyside/objects/statusbar.py
+++ b/collagraph/renderers/pyside/objects/statusbar.py
@@ -1,3 +1,4 @@
+from PySide6.QtCore import Qt
 from PySide6.QtWidgets import QStatusBar
 
 from . import widget
@@ -18,13 +19,18 @@ def insert(self, el, anchor=None):
     if getattr(el, "permanent", False):
         self.addPermanentWidget(el)
     else:
+        explicit = Qt.WidgetAttribute.WA_WState_ExplicitShowHide
+        hidden = el.isHidden() and el.testAttribute(explicit)
         self.addWidget(el)
+        if el.isHidden() and not hidden:
+            # Hidden by the current message: let it show up with the other widgets
+            el.setAttribute(explicit, False)
     el.setParent(self)
 
 
 @PySideRenderer.register_remove(QStatusBar)
 def remove(self, el):
-    self.removeWidget(el)
+    # NOTE: `removeWidget` would hide the widget, also after it is added again
     el.setParent(None)
 
 
-- 
2.43.0


From c2416d547bb022f87c39af11e76cad5b5b458068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:12 +0000
Subject: [PATCH 59/64] fix: elements with an array as attribute could not be
 updated

Comparing the old and the new value gives an array, which has no truth value,
so every update of the element raised a ValueError.
---
 collagraph/collagraph.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index e25f164..474397b 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -881,7 +881,7 @@ def key_to_event(key):
 
 def is_new(val, other, key):
     old_value = other.get(key)
-    return xor(old_value is None, val is None) or old_value != val
+    return xor(old_value is None, val is None) or is_different(old_value, val)
 
 
 def is_new_prop(val, current):
@@ -893,7 +893,17 @@ def is_new_prop(val, current):
     if isinstance(val, (dict, list, set)) or isinstance(current, (dict, list, set)):
         # State can change in place, so equal content is not enough
         return True
-    return type(val) is not type(current) or val != current
+    return type(val) is not type(current) or is_different(current, val)
+
+
+def is_different(a, b):
+    try:
+        different = a != b
+        # NOTE: arrays are compared element by element
+        return bool(different.any() if hasattr(different, "any") else different)
+    except Exception:
+        # Values that can't be compared (such as arrays of different shapes)
+        return True
 
 
 def unwrap(val):
-- 
2.43.0


From 81dceed0115d167cffdec8a97a58eae2075b6c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:04 +0000
Subject: [PATCH 60/64] fix: inaccessible directories on the path broke the
 import of missing modules

Once collagraph is imported, an import of a module that doesn't exist raised
PermissionError, OSError (long names) or TypeError (entries of sys.path that
are no strings) instead of ModuleNotFoundError.
---
 collagraph/cgx/importer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/collagraph/cgx/importer.py b/collagraph/cgx/importer.py
index 1115a25..4454be4 100644
--- a/collagraph/cgx/importer.py
+++ b/collagraph/cgx/importer.py
@@ -32,8 +32,14 @@ class CgxImporter:
         cgx_file_name = f"{module_name}.{cgx.SUFFIX}"
         directories = sys.path if path is None else path
         for directory in directories:
-            cgx_path = pathlib.Path(directory) / cgx_file_name
-            if cgx_path.exists():
+            try:
+                cgx_path = pathlib.Path(directory) / cgx_file_name
+                exists = cgx_path.exists()
+            except (OSError, TypeError):
+                # Directories might be inaccessible (or entries might not be valid
+                # paths), which should not get in the way of importing other modules
+                continue
+            if exists:
                 spec = ModuleSpec(name, cls(cgx_path), origin=str(cgx_path))
                 spec.has_location = True
                 return spec
-- 
2.43.0


From 233a82bc949882ad15a392c6523d47ad9dee6af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:36 +0000
Subject: [PATCH 61/64] fix: file names that are too long crashed the command
 line

They are refused with a usage error, like other files that do not exist.
---
 collagraph/__main__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/collagraph/__main__.py b/collagraph/__main__.py
index 0a81f5d..1fdebc4 100644
--- a/collagraph/__main__.py
+++ b/collagraph/__main__.py
@@ -74,7 +74,12 @@ def init_collagraph(renderer_type: str, component_path: Path, state: dict = None
 
 def existing_component_file(value):
     path = Path(value)
-    if not path.exists():
+    try:
+        exists = path.exists()
+    except OSError:
+        # Not a valid path (for instance: too long) or not accessible
+        exists = False
+    if not exists:
         raise argparse.ArgumentTypeError(f"{value} does not exist")
     if not path.is_file():
         raise argparse.ArgumentTypeError(f"{value} is not a file")
-- 
2.43.0


From a51ffda24ac9a540a09fbf15a68c7f4d5774749e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:46 +0000
Subject: [PATCH 62/64] fix: methods, partials and objects as handlers of
 signals were called with the wrong arguments

---
 collagraph/renderers/pyside_renderer.py | 38 +++++++++++++++++++------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 538f5cf..6750241 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -1,5 +1,6 @@
 from collections import defaultdict
 from functools import lru_cache
+from inspect import isroutine, Parameter, signature
 import logging
 from typing import Any, Callable
 from warnings import warn
@@ -404,15 +405,14 @@ class PySideRenderer(Renderer):
             # arguments, then those will be set to the parameter(s) of the signal when
             # it is emitted.
             try:
-                # Creating a slot of a bound method on an instance (that is not
-                # a QObject?) results in a SystemError. Lambdas though _can_ function
-                # as a slot, so when creating a slot of the value fails, retry with
-                # a simple lambda.
-                slot = QtCore.Slot()(value)
+                # PySide can't tell which arguments partials and callable objects need
+                slot = QtCore.Slot()(value if isroutine(value) else function_for(value))
             except SystemError:
-                # TODO: with some inspection we might be able to figure out the
-                # signature of the 'value' function and adjust the lambda accordingly
-                slot = QtCore.Slot()(lambda *args: value(*args))
+                # Creating a slot of a bound method on an instance (that is not
+                # a QObject?) results in a SystemError. Plain functions though _can_
+                # function as a slot, so when creating a slot of the value fails, retry
+                # with a function that takes the same arguments.
+                slot = QtCore.Slot()(function_for(value))
             # Remember the slot together with the value that it was created
             # for: the slot can't always be compared with the value
             el.slots[event_type].append((value, slot))
@@ -449,6 +449,28 @@ def not_implemented(self, *args, **kwargs):
     raise NotImplementedError(type(self).__name__)
 
 
+def function_for(value):
+    """Returns a plain function (for a method, partial or callable object) that takes
+    as many arguments as the given value. That number determines which of the
+    parameters of a signal are passed."""
+    try:
+        parameters = signature(value).parameters.values()
+    except (TypeError, ValueError):
+        # Signature is not available
+        return lambda *args: value(*args)
+    if any(param.kind is param.VAR_POSITIONAL for param in parameters):
+        return lambda *args: value(*args)
+
+    def call(*args):
+        # Signals might have less parameters than the value has (optional) arguments
+        return value(*[arg for arg in args if arg is not call])
+
+    positional = (Parameter.POSITIONAL_ONLY, Parameter.POSITIONAL_OR_KEYWORD)
+    names = [f"arg{i}" for i, p in enumerate(parameters) if p.kind in positional]
+    args, defaults = ", ".join(names), ", ".join(f"{name}=call" for name in names)
+    return eval(f"lambda {defaults}: call({args})", {"call": call})
+
+
 def create_instance(pyside_type):
     """Creates an instance of the given type with the any default
     arguments (if any) passed into the constructor."""
-- 
2.43.0


From 56de5ee8733c04dc11330566b790c87d42d03a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:04 +0000
Subject: [PATCH 63/64] fix: expressions of templates that are indented or span
 multiple lines

---
 collagraph/cgx/cgx.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index a91096b..7f7ac55 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -24,7 +24,7 @@ DIRECTIVE_ON = f"{DIRECTIVE_PREFIX}on"
 AST_GEN_VARIABLE_PREFIX = "_ast_"
 
 COMPONENT_CLASS_DEFINITION = re.compile(r"class\s*(.*?)\s*\(.*?\)\s*:")
-MOUSTACHES = re.compile(r"\{\{.*?\}\}")
+MOUSTACHES = re.compile(r"\{\{.*?\}\}", re.DOTALL)
 
 
 def load(path, namespace=None):
@@ -224,6 +224,16 @@ def create_ast_render_function(node, names):
     )
 
 
+def parse_expression(expression):
+    """
+    Returns the AST of an expression from the template, which
+    might be indented and might span multiple lines.
+    """
+    if not isinstance(expression, str) or not expression.strip():
+        raise SyntaxError("Expected an expression in the template")
+    return ast.parse(f"({expression}\n)", mode="eval")
+
+
 def call_create_element(node, *, names):
     """
     Returns an ast.Call of `collagraph.create_element()` with the right args
@@ -315,13 +325,13 @@ def convert_node_to_args(node, *, names=None):
                 # Use 'None' to mark this is a binding of multiple attributes
                 props_keys.append(None)
                 props_values.append(
-                    RewriteName(skip=names).visit(ast.parse(val, mode="eval")).body
+                    RewriteName(skip=names).visit(parse_expression(val)).body
                 )
             else:
                 _, key = key.split(":")
                 props_keys.append(ast.Constant(value=key))
                 props_values.append(
-                    RewriteName(skip=names).visit(ast.parse(val, mode="eval")).body
+                    RewriteName(skip=names).visit(parse_expression(val)).body
                 )
             continue
 
@@ -331,7 +341,7 @@ def convert_node_to_args(node, *, names=None):
             key = f"on_{key}"
             props_keys.append(ast.Constant(value=key))
 
-            tree = ast.parse(val, mode="eval")
+            tree = parse_expression(val)
             props_values.append(RewriteName(skip=names).visit(tree).body)
             continue
 
@@ -557,7 +567,7 @@ def args_for_text_element(child, names):
             string_parts.append(ast.Constant(value=child.content[offset : span[0]]))
             expr = (child.content[span[0] + 2 : span[1] - 2]).strip()
             expressions.append(
-                RewriteName(skip=names).visit(ast.parse(expr, mode="eval")).body
+                RewriteName(skip=names).visit(parse_expression(expr)).body
             )
             offset = span[1]
 
@@ -636,7 +646,7 @@ def create_control_flow_ast(control_flow, *, names):
 
     rewrite_name = RewriteName(skip=names)
 
-    test = ast.parse(if_node.attrs[if_directive], mode="eval")
+    test = parse_expression(if_node.attrs[if_directive])
     root_statement = ast.IfExp(
         test=rewrite_name.visit(test).body,
         body=call_create_element(if_node, names=names),
@@ -645,7 +655,7 @@ def create_control_flow_ast(control_flow, *, names):
     current_statement = root_statement
 
     for directive, node in if_else_statements:
-        test = ast.parse(node.attrs[directive], mode="eval")
+        test = parse_expression(node.attrs[directive])
         if_else_tree = ast.IfExp(
             test=rewrite_name.visit(test).body,
             body=call_create_element(node, names=names),
-- 
2.43.0


From 96f10a72183caff3e47b4ad6107722c378ef6657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:02 +0000
Subject: [PATCH 64/64] fix: a handler of the same event under two names was
 called once, and removing it crashed

---
 collagraph/renderers/pyside_renderer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 6750241..8e523b5 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -79,10 +79,10 @@ class EventFilter(QtCore.QObject):
 
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
-        self._event_handlers = defaultdict(set)
+        self._event_handlers = defaultdict(list)
 
     def add_event_handler(self, event, handler):
-        self._event_handlers[event].add(handler)
+        self._event_handlers[event].append(handler)
 
     def remove_event_handler(self, event, handler):
         self._event_handlers[event].remove(handler)
-- 
2.43.0

