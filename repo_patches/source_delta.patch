From 7b9bb7d7ee3fad9e602bbc02c4df0483e20423dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 01/46] fix: do not memoize the reduce constructor under a
 process-local id

ReduceNode registered its constructor TypeNode in the load context under
id(constructor), an address of the loading process. Archive ids are addresses of
the dumping process, so the two can coincide, in which case an object of the
archive was replaced by the constructor type.
---
 skops/io/_sklearn.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index 3baee2b..08b0e65 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -165,7 +165,6 @@ class ReduceNode(Node):
                 {
                     "__class__": constructor.__name__,
                     "__module__": get_module(constructor),
-                    "__id__": id(constructor),
                 },
                 load_context,
                 trusted=trusted,
-- 
2.43.0


From e4a620964cae729d4eaf51b21522749629603801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 02/46] fix: do not import the class named by a LossNode while
 building the node tree

LossNode.__init__ called gettype() on the module and class named in the archive,
so get_untrusted_types, visualize and the pre-audit part of load imported an
arbitrary module. Pass the names; the class is imported in _construct, after the
audit.
---
 skops/io/_quantile_forest.py |  4 ++--
 skops/io/_sklearn.py         | 20 ++++++++++++++------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/skops/io/_quantile_forest.py b/skops/io/_quantile_forest.py
index 6913b9e..67b4226 100644
--- a/skops/io/_quantile_forest.py
+++ b/skops/io/_quantile_forest.py
@@ -4,7 +4,7 @@ from typing import Any, Optional, Sequence
 
 from ._protocol import PROTOCOL
 from ._sklearn import ReduceNode, reduce_get_state
-from ._utils import LoadContext, SaveContext
+from ._utils import LoadContext, SaveContext, get_module
 
 try:
     from quantile_forest._quantile_forest_fast import QuantileForest
@@ -40,7 +40,7 @@ class QuantileForestNode(ReduceNode):
         super().__init__(
             state,
             load_context,
-            constructor=QuantileForest,
+            constructor=(get_module(QuantileForest), QuantileForest.__name__),
             trusted=trusted,
         )
         self.trusted = self._get_trusted(trusted, [])
diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index 08b0e65..fd6e9c9 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from typing import Any, Optional, Sequence, Type
+from typing import Any, Optional, Sequence
 
 from sklearn.cluster import Birch
 from sklearn.tree._tree import Tree
@@ -153,18 +153,21 @@ class ReduceNode(Node):
         self,
         state: dict[str, Any],
         load_context: LoadContext,
-        constructor: Type[Any],
+        constructor: tuple[str, str],
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
+        # constructor is the (module name, class name) pair; the class itself is
+        # only imported in _construct, i.e. after the audit
         super().__init__(state, load_context, trusted)
+        constructor_module, constructor_name = constructor
         reduce = state["__reduce__"]
         self.children = {
             "attrs": get_tree(state["content"], load_context, trusted=trusted),
             "args": get_tree(reduce["args"], load_context, trusted=trusted),
             "constructor": TypeNode(
                 {
-                    "__class__": constructor.__name__,
-                    "__module__": get_module(constructor),
+                    "__class__": constructor_name,
+                    "__module__": constructor_module,
                 },
                 load_context,
                 trusted=trusted,
@@ -215,7 +218,12 @@ class TreeNode(ReduceNode):
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         self.trusted = self._get_trusted(trusted, [get_module(Tree) + ".Tree"])
-        super().__init__(state, load_context, constructor=Tree, trusted=self.trusted)
+        super().__init__(
+            state,
+            load_context,
+            constructor=(get_module(Tree), Tree.__name__),
+            trusted=self.trusted,
+        )
 
 
 def loss_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
@@ -254,7 +262,7 @@ class LossNode(ReduceNode):
         super().__init__(
             state,
             load_context,
-            constructor=gettype(state["__module__"], state["__class__"]),
+            constructor=(state["__module__"], state["__class__"]),
             trusted=self.trusted,
         )
 
-- 
2.43.0


From ec1434231bcee8f69c89ef284334c7cfd6ffe38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 03/46] fix: OperatorFuncNode calls the callable whose name was
 audited

The node audited __module__ + __class__ but resolved __class__ in the operator
module, so an archive could have an innocuous name audited (and trusted) and
another callable, operator.<__class__>, called.
---
 skops/io/_general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 07cdfd5..411d8d3 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -662,7 +662,7 @@ class OperatorFuncNode(Node):
         self.children["attrs"] = get_tree(state["attrs"], load_context, trusted=trusted)
 
     def _construct(self):
-        op = getattr(operator, self.class_name)
+        op = gettype(self.module_name, self.class_name)
         attrs = self.children["attrs"].construct()
         return op(*attrs)
 
-- 
2.43.0


From cb55d8f379fab2cdb7b48b8f151be2208ae78d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 04/46] fix: look up bit generators in a fixed table

RandomGeneratorNode resolved the unaudited bit_generator string of the archive as
an attribute of numpy.random and called it, e.g. numpy.random.seed, which resets
the global numpy random state.
---
 skops/io/_numpy.py        | 15 ++++++++++++---
 skops/io/old/_numpy_v0.py |  7 ++++---
 skops/io/old/_numpy_v1.py |  5 ++---
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index f87c8d9..af31c71 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -174,6 +174,17 @@ class RandomStateNode(Node):
         return random_state
 
 
+# The name of the bit generator is stored as a plain string, which is not part of
+# the audit, so it must not be used to look up arbitrary attributes.
+BIT_GENERATORS = {
+    "MT19937": np.random.MT19937,
+    "PCG64": np.random.PCG64,
+    "PCG64DXSM": np.random.PCG64DXSM,
+    "Philox": np.random.Philox,
+    "SFC64": np.random.SFC64,
+}
+
+
 def random_generator_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     bit_generator_state = get_state(obj.bit_generator.state, save_context)
     seed_seq_state = get_state(obj.bit_generator.seed_seq.state, save_context)
@@ -214,9 +225,7 @@ class RandomGeneratorNode(Node):
         seed_seq = seed_seq_cls(**seed_seq_state)
 
         bit_generator_state = self.children["bit_generator_state"].construct()
-        bit_generator_cls = gettype(
-            "numpy.random", bit_generator_state["bit_generator"]
-        )
+        bit_generator_cls = BIT_GENERATORS[bit_generator_state["bit_generator"]]
         bit_generator = bit_generator_cls(seed_seq)
         bit_generator.state = bit_generator_state
 
diff --git a/skops/io/old/_numpy_v0.py b/skops/io/old/_numpy_v0.py
index 356f67d..9761498 100644
--- a/skops/io/old/_numpy_v0.py
+++ b/skops/io/old/_numpy_v0.py
@@ -5,6 +5,7 @@ from typing import Any, Optional, Sequence
 import numpy as np
 
 from skops.io._audit import Node
+from skops.io._numpy import BIT_GENERATORS
 from skops.io._utils import LoadContext, gettype
 
 PROTOCOL = 0
@@ -23,9 +24,9 @@ class RandomGeneratorNode(Node):
 
     def _construct(self):
         # first restore the state of the bit generator
-        bit_generator = gettype(
-            "numpy.random", self.children["bit_generator_state"]["bit_generator"]
-        )()
+        bit_generator = BIT_GENERATORS[
+            self.children["bit_generator_state"]["bit_generator"]
+        ]()
         bit_generator.state = self.children["bit_generator_state"]
 
         # next create the generator instance
diff --git a/skops/io/old/_numpy_v1.py b/skops/io/old/_numpy_v1.py
index 7e4b2b3..50987fc 100644
--- a/skops/io/old/_numpy_v1.py
+++ b/skops/io/old/_numpy_v1.py
@@ -5,6 +5,7 @@ from typing import Any, Optional, Sequence
 import numpy as np
 
 from skops.io._audit import Node, get_tree
+from skops.io._numpy import BIT_GENERATORS
 from skops.io._utils import LoadContext, gettype
 
 PROTOCOL = 1
@@ -28,9 +29,7 @@ class RandomGeneratorNode(Node):
     def _construct(self):
         # first restore the state of the bit generator
         bit_generator_state = self.children["bit_generator_state"].construct()
-        bit_generator_cls = gettype(
-            "numpy.random", bit_generator_state["bit_generator"]
-        )
+        bit_generator_cls = BIT_GENERATORS[bit_generator_state["bit_generator"]]
         bit_generator = bit_generator_cls()
         bit_generator.state = bit_generator_state
 
-- 
2.43.0


From 57f8bbd2a0c5876f5aa7500f779611423b9214e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 05/46] fix: DefaultDictNode honours the caller's trusted list

It replaced the caller's list by its own defaults, so a type that
get_untrusted_types reported could never be trusted.
---
 skops/io/_general.py | 2 +-
 skops/io/_sklearn.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 411d8d3..4cfa629 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -105,7 +105,7 @@ class DefaultDictNode(Node):
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         super().__init__(state, load_context, trusted)
-        self.trusted = ["collections.defaultdict"]
+        self.trusted = self._get_trusted(trusted, ["collections.defaultdict"])
         self.children = {
             "main": get_tree(state["content"]["main"], load_context, trusted=trusted),
             "default_factory": get_tree(
diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index fd6e9c9..ac7e84a 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -297,9 +297,10 @@ class _DictWithDeprecatedKeysNode(Node):
         trusted: Optional[Sequence[str]] = None,
     ) -> None:
         super().__init__(state, load_context, trusted)
-        self.trusted = [
-            get_module(_DictWithDeprecatedKeysNode) + "._DictWithDeprecatedKeys"
-        ]
+        self.trusted = self._get_trusted(
+            trusted,
+            [get_module(_DictWithDeprecatedKeysNode) + "._DictWithDeprecatedKeys"],
+        )
         self.children = {
             "main": get_tree(state["content"]["main"], load_context, trusted=trusted),
             "_deprecated_key_to_new_key": get_tree(
-- 
2.43.0


From 6f5806ca0fd5cb3cc072b942fc782eb750d0c924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:06 +0000
Subject: [PATCH 06/46] fix: DefaultDictNode loads keys that are not strings

The mapping was passed as keyword arguments, so a defaultdict with int or float
keys could be dumped but not loaded; subclasses came back as plain defaultdict.
---
 skops/io/_general.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 4cfa629..4e65860 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -116,7 +116,8 @@ class DefaultDictNode(Node):
         }
 
     def _construct(self):
-        instance = defaultdict(**self.children["main"].construct())
+        instance = gettype(self.module_name, self.class_name)()
+        instance.update(self.children["main"].construct())
         instance.default_factory = self.children["default_factory"].construct()
         return instance
 
-- 
2.43.0


From e8bf226a7a7a21f75da88594f38d1d560880bdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 07/46] fix: SliceNode is audited like every other node

Its get_unsafe_set returned an empty set whatever its class and module name, and
visualize could not walk its int or None children.
---
 skops/io/_general.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 4e65860..773b645 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -374,19 +374,14 @@ class SliceNode(Node):
     ) -> None:
         super().__init__(state, load_context, trusted)
         self.trusted = self._get_trusted(trusted, [slice])
-        self.children = {
-            "start": state["content"]["start"],
-            "stop": state["content"]["stop"],
-            "step": state["content"]["step"],
-        }
+        # start, stop and step are plain json values, there is nothing to audit
+        self.start = state["content"]["start"]
+        self.stop = state["content"]["stop"]
+        self.step = state["content"]["step"]
+        self.children = {}
 
     def _construct(self):
-        return slice(
-            self.children["start"], self.children["stop"], self.children["step"]
-        )
-
-    def get_unsafe_set(self):
-        return set()
+        return slice(self.start, self.stop, self.step)
 
 
 def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-- 
2.43.0


From efd86e16ca7469111fba6ceb82554d75cd7685b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 08/46] fix: JsonNode is audited like every other node

JsonNode declared itself safe whatever module and class name the archive gave it.
---
 skops/io/_general.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 773b645..c9f9af0 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -554,17 +554,6 @@ class JsonNode(Node):
         self.children = {}
         self.trusted = self._get_trusted(trusted, PRIMITIVE_TYPE_NAMES)
 
-    def is_safe(self) -> bool:
-        # JsonNode is always considered safe.
-        # TODO: should we consider a JsonNode always safe?
-        return True
-
-    def is_self_safe(self) -> bool:
-        return True
-
-    def get_unsafe_set(self) -> set[str]:
-        return set()
-
     def _construct(self):
         return json.loads(self.content)
 
-- 
2.43.0


From bc9ab071291d0d6bf06e81f65e8f21a9566a9020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:53 +0000
Subject: [PATCH 09/46] fix: MethodNode reports the method it is going to
 access

The func string of a MethodNode was passed to getattr without being part of the
audit. It also was a plain str child, on which visualize failed.
---
 skops/io/_general.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index c9f9af0..7fceec9 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -12,7 +12,7 @@ from typing import Any, Optional, Sequence
 
 import numpy as np
 
-from ._audit import Node, get_tree
+from ._audit import Node, check_type, get_tree
 from ._protocol import PROTOCOL
 from ._trusted_types import (
     CONTAINER_TYPE_NAMES,
@@ -527,16 +527,26 @@ class MethodNode(Node):
         super().__init__(state, load_context, trusted)
         self.children = {
             "obj": get_tree(state["content"]["obj"], load_context, trusted=trusted),
-            "func": state["content"]["func"],
         }
+        self.func = state["content"]["func"]
         # TODO: what do we trust?
         self.trusted = self._get_trusted(trusted, [])
 
     def _construct(self):
         loaded_obj = self.children["obj"].construct()
-        method = getattr(loaded_obj, self.children["func"])
+        method = getattr(loaded_obj, self.func)
         return method
 
+    def get_unsafe_set(self) -> set[str]:
+        res = super().get_unsafe_set()
+        # besides the type of the method and the object it is bound to, report
+        # which attribute of the object is going to be accessed
+        obj = self.children["obj"]
+        type_name = f"{obj.class_name}.{self.func}"
+        if not check_type(obj.module_name, type_name, self.trusted):
+            res.add(f"{obj.module_name}.{type_name}")
+        return res
+
 
 def unsupported_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     raise UnsupportedTypeException(obj)
-- 
2.43.0


From 72fafd8859eff952b10863bb566ad8dc8f4c2065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 10/46] fix: visualize dicts that have a key named key_types

The artificial key_types child of a DictNode was recognised by the name of the key,
so a user's key of the same name, or keys of an untrusted type, made visualize
raise.
---
 skops/io/_visualize.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index 3c3c2c3..fd05b3a 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -8,7 +8,7 @@ from typing import Any, Callable, Iterator, Literal, Optional, Sequence
 from zipfile import ZipFile
 
 from ._audit import VALID_NODE_CHILD_TYPES, Node, get_tree
-from ._general import BytearrayNode, BytesNode, FunctionNode, JsonNode, ListNode
+from ._general import BytearrayNode, BytesNode, DictNode, FunctionNode, JsonNode
 from ._numpy import NdArrayNode
 from ._scipy import SparseMatrixNode
 from ._utils import LoadContext
@@ -223,8 +223,7 @@ def walk_tree(
         The current node to visit. Children are visited recursively.
 
     node_name: str (default="root")
-        The key to the current node. If "key_types" is encountered, it is
-        skipped.
+        The key to the current node.
 
     level: int (default=0)
         The current level of nesting.
@@ -238,17 +237,6 @@ def walk_tree(
         A dataclass containing the aforementioned information.
 
     """
-    # key_types is not helpful, as it is artificially added by skops to
-    # circumvent the fact that json only allows keys to be strings. It is not
-    # useful to the user and adds a lot of noise, thus skip key_types.
-    if node_name == "key_types":
-        if isinstance(node, ListNode) and node.is_safe():
-            return
-        raise ValueError(
-            "An invalid 'key_types' node was encountered, please report the issue "
-            "here: https://github.com/skops-dev/skops/issues"
-        )
-
     if isinstance(node, dict):
         num_nodes = len(node)
         for i, (key, val) in enumerate(node.items(), start=1):
@@ -299,8 +287,15 @@ def walk_tree(
     if isinstance(node, SKIPPED_TYPES):
         return
 
+    children = node.children
+    if isinstance(node, DictNode) and children["key_types"].is_safe():
+        # key_types is not helpful, as it is artificially added by skops to
+        # circumvent the fact that json only allows keys to be strings. It is not
+        # useful to the user and adds a lot of noise, thus skip key_types.
+        children = {key: val for key, val in children.items() if key != "key_types"}
+
     yield from walk_tree(
-        node.children,
+        children,
         node_name=node_name,
         level=level + 1,
     )
-- 
2.43.0


From b0b56a0b2085fd5fe1b5e8398a59b4b70e3bc832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 11/46] fix: visualize with show='trusted' when the parent of a
 node is untrusted

The children of a hidden node are more than one level below the last visible node,
which raised a ValueError. Show them below their closest visible ancestor.
---
 skops/io/_visualize.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index fd05b3a..4b1eb21 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import io
 import json
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from pathlib import Path
 from typing import Any, Callable, Iterator, Literal, Optional, Sequence
 from zipfile import ZipFile
@@ -119,12 +119,21 @@ def _traverse_tree(nodes_iter, show, **kwargs):
     yield node, label, 0, True  # node, label, level, is_first_node
 
     prev_level = node.level  # should be 0
+    visible_ancestors = [node.level]
 
     for node in nodes_iter:
+        while visible_ancestors and visible_ancestors[-1] >= node.level:
+            visible_ancestors.pop()
+
         visible = _check_visibility(node.is_self_safe, node.is_safe, show=show)
         if not visible:
             continue
 
+        # the parents of a visible node may be hidden, in that case it is shown
+        # below its closest visible ancestor
+        visible_ancestors.append(node.level)
+        node = replace(node, level=len(visible_ancestors) - 1)
+
         level_diff = prev_level - node.level
         if level_diff < -1:
             # this would mean it is a "(great-)grandchild" node
-- 
2.43.0


From f7e0ea9b0f9ba3d81841dd43f62b94a7da09548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 12/46] fix: visualize shows strings and keys that look like
 rich markup

Values and keys were parsed as console markup, so e.g. the string '[/x]' raised a
MarkupError.
---
 skops/io/_visualize.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index 4b1eb21..6f4bbd3 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -86,14 +86,16 @@ def _get_node_label(
     # note: when changing the arguments to this function, also update the
     # docstring of visualize!
 
-    if use_colors:
-        try:
-            import rich  # noqa
-        except ImportError:
-            use_colors = False
+    node_val = node.val
+    try:
+        from rich.markup import escape
+    except ImportError:
+        use_colors = False
+    else:
+        # the value is shown verbatim, it is not console markup
+        node_val = escape(node_val)
 
     # add tag if necessary
-    node_val = node.val
     tag = tag_safe if node.is_self_safe else tag_unsafe
     if tag:
         node_val += f" {tag}"
@@ -155,6 +157,7 @@ def pretty_print_tree(
 ) -> None:
     try:
         from rich.console import Console
+        from rich.markup import escape
         from rich.tree import Tree
 
         console = Console()
@@ -163,13 +166,13 @@ def pretty_print_tree(
             nodes_iter, show, **kwargs
         ):
             if is_first_node:
-                tree = Tree(f"{node.key}: {label}", guide_style="gray50")
+                tree = Tree(f"{escape(node.key)}: {label}", guide_style="gray50")
                 trees = {0: tree}
                 continue
 
             parent_level = node.level - 1
             parent_tree = trees[parent_level]
-            current_tree = parent_tree.add(f"{node.key}: {label}")
+            current_tree = parent_tree.add(f"{escape(node.key)}: {label}")
             trees[node.level] = current_tree
 
         console.print(tree)
-- 
2.43.0


From dd81b1ad2aa0815722d4c3183c875251bae4906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:24 +0000
Subject: [PATCH 13/46] fix: visualize shows the unsafe elements of an object
 array

The children of an NdArrayNode were never visited, so in uncoloured output an
archive with an untrusted object inside an object array rendered as entirely safe.
---
 skops/io/_visualize.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/skops/io/_visualize.py b/skops/io/_visualize.py
index 6f4bbd3..99eb86f 100644
--- a/skops/io/_visualize.py
+++ b/skops/io/_visualize.py
@@ -293,11 +293,13 @@ def walk_tree(
     )
 
     # TYPES WHOSE CHILDREN IT MAKES NO SENSE TO VISIT
-    # TODO: For better security, we should check the schema if we return early,
-    # otherwise something nefarious could be hidden inside (however, if there
-    # is, the node should be marked as unsafe)
+    # The elements of an object array are nodes, they are visited if one of them
+    # is unsafe, so that it does not go unnoticed.
     if isinstance(node, SKIPPED_TYPES):
-        return
+        if not (isinstance(node, NdArrayNode) and node.type == "json"):
+            return
+        if node.is_safe():
+            return
 
     children = node.children
     if isinstance(node, DictNode) and children["key_types"].is_safe():
-- 
2.43.0


From c2024793818b3f63b7fdad9c55e1b89d123d9008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 14/46] fix: refuse to dump a methodcaller with keyword
 arguments

It reduces to partial(methodcaller, name, **kwargs) and only the arguments were
stored, so methodcaller('replace', 'a', count=1) loaded as methodcaller('a').
---
 skops/io/_general.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 7fceec9..5727303 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -635,7 +635,10 @@ class BytearrayNode(BytesNode):
 
 
 def operator_func_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-    _, attrs = obj.__reduce__()
+    constructor, attrs = obj.__reduce__()
+    if constructor is not type(obj):
+        # methodcaller with keyword arguments reduces to a partial
+        raise UnsupportedTypeException(obj)
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": "operator",
-- 
2.43.0


From 26d8557adc1aae960c229da72a9c05db8b2558c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:37 +0000
Subject: [PATCH 15/46] fix: tuple subclasses load as their own type

Subclasses other than direct namedtuples came back as plain tuples.
---
 skops/io/_general.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 5727303..0d9f195 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -222,7 +222,9 @@ class TupleNode(Node):
 
         if self.isnamedtuple(cls):
             return cls(*content)
-        return content
+        if cls is tuple:
+            return content
+        return tuple.__new__(cls, content)
 
     def isnamedtuple(self, t) -> bool:
         # This is needed since namedtuples need to have the args when
-- 
2.43.0


From 38e1c44ff0a455c6578cdab5fa99e897f5da0ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 16/46] fix: np.bytes_ scalars load as np.bytes_

np.bytes_ subclasses bytes, so it was dispatched to bytes_get_state and loaded as
plain bytes.
---
 skops/io/_numpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index af31c71..68b375e 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -269,6 +269,8 @@ class DTypeNode(Node):
 # tuples of type and function that gets the state of that type
 GET_STATE_DISPATCH_FUNCTIONS = [
     (np.generic, ndarray_get_state),
+    # np.bytes_ is also a subclass of bytes, which would take precedence
+    (np.bytes_, ndarray_get_state),
     (np.ndarray, ndarray_get_state),
     (np.ma.MaskedArray, maskedarray_get_state),
     (np.ufunc, function_get_state),
-- 
2.43.0


From bf1a1e4f8e3df6e331ad502ed7d798506985f0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:17 +0000
Subject: [PATCH 17/46] fix: subclasses of bytes and bytearray load as their
 own type

---
 skops/io/_general.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 0d9f195..5b2abbb 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -609,7 +609,7 @@ class BytesNode(Node):
 
     def _construct(self):
         content = self.children["content"].getvalue()
-        return content
+        return gettype(self.module_name, self.class_name)(content)
 
     def format(self):
         content = self.children["content"].getvalue()
@@ -627,11 +627,6 @@ class BytearrayNode(BytesNode):
         super().__init__(state, load_context, trusted)
         self.trusted = self._get_trusted(trusted, [bytearray])
 
-    def _construct(self):
-        content_bytes = super()._construct()
-        content_bytearray = bytearray(list(content_bytes))
-        return content_bytearray
-
     def format(self):
         return f"bytearray({super().format()})"
 
-- 
2.43.0


From baf44c9ac716c709bf42a651388894f0ec0ea6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:04 +0000
Subject: [PATCH 18/46] fix: refuse objects whose data is not held in their
 attributes

frozenset, deque, exceptions with attributes, IntEnum members and subclasses of
str, int or float were dumped without error but loaded empty or as the builtin
type. Raise UnsupportedTypeException instead.
---
 skops/io/_general.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index 5b2abbb..f6f3954 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copyreg
 import io
 import json
 import operator
@@ -395,13 +396,15 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     try:
         # if we can simply use json, then we're done.
         obj_str = json.dumps(obj)
-        return {
-            "__class__": "str",
-            "__module__": "builtins",
-            "__loader__": "JsonNode",
-            "content": obj_str,
-            "is_json": True,
-        }
+        # subclasses, e.g. an IntEnum, would be loaded as the builtin type
+        if type(json.loads(obj_str)) is type(obj):
+            return {
+                "__class__": "str",
+                "__module__": "builtins",
+                "__loader__": "JsonNode",
+                "content": obj_str,
+                "is_json": True,
+            }
     except Exception:
         pass
 
@@ -419,6 +422,17 @@ def object_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
             "content": get_state(reduce_output[1], save_context),
         }
 
+    # Attributes do not describe objects that keep data in their constructor
+    # arguments (frozenset), items (deque), or a builtin base (subclass of str).
+    if isinstance(reduce_output, tuple):
+        constructor, args = reduce_output[:2]
+        if (
+            (constructor is type(obj) and args)
+            or (constructor is copyreg._reconstructor and args[1] is not object)
+            or any(item is not None for item in reduce_output[3:])
+        ):
+            raise UnsupportedTypeException(obj)
+
     # Otherwise we recover the object from the __dict__ or __getstate__
     res = {
         "__class__": obj.__class__.__name__,
-- 
2.43.0


From 405a40bc98ef65687ad240c532fc02abacfcff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:30 +0000
Subject: [PATCH 19/46] fix: refuse dict keys that json cannot restore

False came back as True, 1 and '1' collapsed into one entry, and entries whose value
is a property were dropped, which also shifted the key types of later entries.
---
 skops/io/_general.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index f6f3954..a407e1d 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -46,12 +46,16 @@ def dict_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
 
     key_types = get_state([type(key) for key in obj.keys()], save_context)
     content = {}
+    json_keys = set()
     for key, value in obj.items():
-        if isinstance(value, property):
-            continue
         if np.isscalar(key) and hasattr(key, "item"):
             # convert numpy value to python object
             key = key.item()  # type: ignore
+        json_key = key if isinstance(key, str) else str(key)
+        if isinstance(key, bool) or key is None or json_key in json_keys:
+            # these keys cannot be told apart, or restored, from their json string
+            raise UnsupportedTypeException(obj)
+        json_keys.add(json_key)
         content[key] = get_state(value, save_context)
     res["content"] = content
     res["key_types"] = key_types
-- 
2.43.0


From b54de146f7f4d2df5647c497d55957d3b1ac9822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:36 +0000
Subject: [PATCH 20/46] fix: object arrays whose elements are sequences keep
 their shape

np.array(nested lists) turned elements that are lists or arrays into further
dimensions, and lost the shape of arrays with a zero dimension.
---
 skops/io/_numpy.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 68b375e..900de37 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -96,14 +96,17 @@ class NdArrayNode(Node):
             shape = self.children["shape"].construct()
             tmp = [o.construct() for o in self.children["content"]]
 
-            # TODO: this is a hack to get the correct shape of the array. We
-            # should find _a better way_ to do this.
-            if len(shape) == 1:
-                content = np.ndarray(shape=len(tmp), dtype="O")
-                for i, v in enumerate(tmp):
-                    content[i] = v
-            else:
-                content = np.array(tmp, dtype="O")
+            # Place the elements one by one, since numpy would interpret elements
+            # that are sequences as further dimensions.
+            values = []
+            for index in np.ndindex(*shape):
+                value = tmp
+                for i in index:
+                    value = value[i]
+                values.append(value)
+            content = np.ndarray(shape=shape, dtype="O")
+            for index, value in zip(np.ndindex(*shape), values):
+                content[index] = value
 
             return content
 
-- 
2.43.0


From 40ffa3c727af403c815548d0fcb89601c01977a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:40 +0000
Subject: [PATCH 21/46] fix: section names keep an escaped slash at their start
 or end

The placeholder standing for an escaped slash is a whitespace character, so it was
stripped ('\/a' became 'a'), and a literal unit separator turned into a slash.
---
 skops/card/_model_card.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index c635f0a..6b13bcf 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -70,10 +70,9 @@ def split_subsection_names(key: str) -> list[str]:
         The individual (sub)sections.
 
     """
-    placeholder = "\x1f"  # unit separator control character (ASCII control char 31)
-    key = key.replace("\\/", placeholder)
-    parts = (part.strip() for part in key.split("/"))
-    return [part.replace(placeholder, "/") for part in parts]
+    # split on "/" that are not preceded by "\\"; strip before unescaping
+    parts = (part.strip() for part in re.split(r"(?<!\\)/", key))
+    return [part.replace("\\/", "/") for part in parts]
 
 
 @dataclass
-- 
2.43.0


From 9d67934fddcee3bf4bcb84611f3b072429ed0ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:21 +0000
Subject: [PATCH 22/46] fix: get_toc does not list the subsections of folded
 sections

render omits them, so the table of contents listed headings that do not exist.
---
 skops/card/_model_card.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 6b13bcf..3cdef80 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -1272,7 +1272,7 @@ class Card:
             title = val.title
             yield title, level
 
-            if val.subsections:
+            if val.subsections and not val.folded:
                 yield from self._iterate_key_section_content(
                     val.subsections,
                     level=level + 1,
-- 
2.43.0


From ab9612da5b6f76fb9eb41264be403301198aae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:09 +0000
Subject: [PATCH 23/46] fix: each plot of add_plot gets its own default alt
 text

The title of the first plot was used as the alt text of all plots of the call.
---
 skops/card/_model_card.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 3cdef80..fe2aa38 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -859,11 +859,10 @@ class Card:
         description = description or ""
         for section_name, plot_path in kwargs.items():
             title = split_subsection_names(section_name)[-1]
-            alt_text = alt_text or title
             section = PlotSection(
                 title=title,
                 content=description,
-                alt_text=alt_text,
+                alt_text=alt_text or title,
                 path=plot_path,
                 folded=folded,
             )
-- 
2.43.0


From adffb4b16cf65bfdb9436d330489303144cc217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 24/46] fix: add_table uses the last part of the section path
 as the heading

The whole path was used as the title of the section.
---
 skops/card/_model_card.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index fe2aa38..6875094 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -928,8 +928,9 @@ class Card:
         """
         description = description or ""
         for key, val in kwargs.items():
+            title = split_subsection_names(key)[-1]
             section = TableSection(
-                title=key, content=description, table=val, folded=folded
+                title=title, content=description, table=val, folded=folded
             )
             self._add_single(key, section)
         return self
-- 
2.43.0


From 86ce89876e6a3a9412e3aaae44524b116db07d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 25/46] fix: Markdown restores the indentation when an element
 cannot be converted

The indentation stayed on the stack and changed the result of later conversions.
---
 skops/card/_markup.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 2e42a25..078bf8b 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -71,8 +71,10 @@ class Markdown:
     def _indented(self, *, spaces: int):
         """Temporarily increment indentation by one"""
         self._indent_trace.append(spaces)
-        yield
-        self._indent_trace.pop(-1)
+        try:
+            yield
+        finally:
+            self._indent_trace.pop(-1)
 
     def _get_indent(self, *, incr: int = 0) -> str:
         """Get current indentation, optionally incremented"""
-- 
2.43.0


From 8f0657c5658feb5f0aad447a64ca6409d23f4435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:38 +0000
Subject: [PATCH 26/46] fix: Markdown does not modify the figure it converts

---
 skops/card/_markup.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 078bf8b..173fb50 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -171,9 +171,8 @@ class Markdown:
         if body_type != "Plain":
             raise ValueError(f"Cannot deal with figure of type '{body_type}'")
 
-        plain_fig = body["c"][0]["c"]
-        plain_fig[2][1] = "fig:"
-        return self._image(plain_fig)
+        attr, image_caption, (dest, _) = body["c"][0]["c"]
+        return self._image((attr, image_caption, (dest, "fig:")))
 
     @staticmethod
     def _code_block(item: tuple[tuple[int, list[str], list[str]], str]) -> str:
-- 
2.43.0


From 3db76a18f27d3090ce2a15aeb2d61b2a84b1313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 27/46] fix: parsed tables keep columns that have the same name

---
 skops/card/_markup.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/skops/card/_markup.py b/skops/card/_markup.py
index 173fb50..b3513fb 100644
--- a/skops/card/_markup.py
+++ b/skops/card/_markup.py
@@ -259,6 +259,13 @@ class Markdown:
             # pandoc < 2.5
             columns, body = self._table_old(item)
 
+        # the column names are used as keys: make them unique, else columns with the
+        # same name (e.g. no name) would be lost; trailing spaces are not rendered
+        for i, column in enumerate(columns):
+            while column in columns[:i]:
+                column += " "
+            columns[i] = column
+
         table: Mapping[str, Sequence[Any]]
         if not body:
             table = {key: [] for key in columns}
-- 
2.43.0


From 9b2b69c940af2a95da4d1002a157aa4830a92e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 28/46] fix: parsed headings are used verbatim as section
 titles

The titles were joined with '/' into a path and split again, so a heading that
contains a slash was turned into several sections.
---
 skops/card/_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skops/card/_parser.py b/skops/card/_parser.py
index 35a0ad4..4ab7c08 100644
--- a/skops/card/_parser.py
+++ b/skops/card/_parser.py
@@ -63,8 +63,11 @@ class PandocParser:
     ) -> Section:
         # Add a new section to the card, which can be a subsection, and return
         # it.
-        section_name = "/".join(section_trace)
-        cur_section = card._add_single(section_name, "")
+        # The titles are used verbatim, so they are not combined into a path, in
+        # which a slash or backslash would have a special meaning.
+        *parents, section_name = section_trace
+        cur_section = Section(title=section_name, content="")
+        card._select(parents)[section_name] = cur_section
         return cur_section
 
     def _add_content(self, content: str, section: Section | None) -> None:
-- 
2.43.0


From 3db9ffd06ce4466c11a241daa3de59bb14b81f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 29/46] fix: parsing keeps all sections that have the same
 title

The second heading of a given title replaced the first one, whose content was lost.
---
 skops/card/_parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/skops/card/_parser.py b/skops/card/_parser.py
index 4ab7c08..66ce65d 100644
--- a/skops/card/_parser.py
+++ b/skops/card/_parser.py
@@ -67,7 +67,14 @@ class PandocParser:
         # which a slash or backslash would have a special meaning.
         *parents, section_name = section_trace
         cur_section = Section(title=section_name, content="")
-        card._select(parents)[section_name] = cur_section
+        siblings = card._select(parents)
+        # the same title may occur several times, number the keys of the sections
+        key, count = section_name, 1
+        while key in siblings:
+            count += 1
+            key = f"{section_name} ({count})"
+        siblings[key] = cur_section
+        section_trace[-1] = key
         return cur_section
 
     def _add_content(self, content: str, section: Section | None) -> None:
-- 
2.43.0


From 73b0c03dd7b483b0c56e95d10a95df8afdeab86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:50 +0000
Subject: [PATCH 30/46] fix: nest parsed headings correctly when levels are
 skipped

A heading that skips a level was taken as the parent of its following siblings.
---
 skops/card/_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skops/card/_parser.py b/skops/card/_parser.py
index 66ce65d..f519825 100644
--- a/skops/card/_parser.py
+++ b/skops/card/_parser.py
@@ -130,6 +130,7 @@ class PandocParser:
         """
         section: Section | None = None
         section_trace: list[str] = []
+        section_levels: list[int] = []
         card = Card(None, template=None)
 
         # Parsing the flat structure, not recursively as in pandocfilters. After
@@ -140,7 +141,11 @@ class PandocParser:
             if item["t"] == "Header":
                 content, level = self._parse_header(item, section_trace=section_trace)
                 res = self._post_process(content)
-                section_trace = section_trace[: level - 1] + [res]
+                # the parent is the closest preceding header of a lower level
+                while section_levels and section_levels[-1] >= level:
+                    section_levels.pop()
+                section_trace = section_trace[: len(section_levels)] + [res]
+                section_levels.append(level)
                 section = self._add_section(res, card=card, section_trace=section_trace)
             else:
                 res = self._post_process(self.mapping(item))
-- 
2.43.0


From 8c4e73349146c0f886a66d77615624ffd3f47f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:59 +0000
Subject: [PATCH 31/46] fix: skops update replaces the output file atomically

The path of the temporary file was joined with the path of the output file, so it
was outside of the temporary directory for absolute paths and in a missing folder
for relative ones; across file systems the move copied over the destination.
---
 skops/cli/_update.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/skops/cli/_update.py b/skops/cli/_update.py
index e3edecc..d6140cf 100644
--- a/skops/cli/_update.py
+++ b/skops/cli/_update.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 import argparse
 import json
 import logging
-import shutil
+import os
 import tempfile
 import zipfile
 from pathlib import Path
@@ -74,10 +74,13 @@ def _update_file(
         )
         return None
 
-    with tempfile.TemporaryDirectory() as tmp_dir:
-        tmp_output_file = Path(tmp_dir) / f"{output_file}.tmp"
+    # The temporary directory is next to the output file, i.e. on the same file system,
+    # so that the complete file can be put in place atomically.
+    output_path = Path(output_file)
+    with tempfile.TemporaryDirectory(dir=output_path.parent) as tmp_dir:
+        tmp_output_file = Path(tmp_dir) / f"{output_path.name}.tmp"
         dump(input_model, tmp_output_file)
-        shutil.move(str(tmp_output_file), str(output_file))
+        os.replace(tmp_output_file, output_path)
     logger.info(f"Updated skops file written to {output_file}")
 
 
-- 
2.43.0


From 82162bfcf134c432ad63e84f4cf175520fe0d1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:47 +0000
Subject: [PATCH 32/46] fix: refuse subclasses of functools.partial instead of
 loading a plain partial

---
 skops/io/_general.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index a407e1d..e89a58b 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -281,6 +281,10 @@ class FunctionNode(Node):
 
 
 def partial_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if type(obj) is not partial:
+        # a subclass would be loaded as a plain partial
+        raise UnsupportedTypeException(obj)
+
     _, _, (func, args, kwds, namespace) = obj.__reduce__()
     res = {
         "__class__": "partial",  # don't allow any subclass
-- 
2.43.0


From 9622fd54a6d79bf3416ad8fc9b8d1d1e1f844db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:47 +0000
Subject: [PATCH 33/46] fix: refuse user-defined sparse matrix types instead of
 loading the scipy type

---
 skops/io/_scipy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skops/io/_scipy.py b/skops/io/_scipy.py
index e482a1a..91e36eb 100644
--- a/skops/io/_scipy.py
+++ b/skops/io/_scipy.py
@@ -8,9 +8,14 @@ from scipy.sparse import load_npz, save_npz, spmatrix
 from ._audit import Node
 from ._protocol import PROTOCOL
 from ._utils import LoadContext, SaveContext, get_module
+from .exceptions import UnsupportedTypeException
 
 
 def sparse_matrix_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if get_module(type(obj)).split(".")[0] != "scipy":
+        # load_npz only knows the types that are part of scipy
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
-- 
2.43.0


From f26bf89e8aebb44983f2fa1e1812f4a72ec69285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:47 +0000
Subject: [PATCH 34/46] fix: refuse subclasses of MaskedArray instead of
 loading a plain masked array

---
 skops/io/_numpy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 900de37..ae82c98 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -114,6 +114,10 @@ class NdArrayNode(Node):
 
 
 def maskedarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if type(obj) is not np.ma.MaskedArray:
+        # a subclass would be loaded as a plain masked array
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
-- 
2.43.0


From c3105fa5972b217e51d5ad4659ea96cbf5219c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:41 +0000
Subject: [PATCH 35/46] fix: keep type and content of ndarray subclasses

---
 skops/io/_numpy.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index ae82c98..0a6e827 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -87,7 +87,13 @@ class NdArrayNode(Node):
         if self.type == "numpy":
             content = np.load(self.children["content"], allow_pickle=False)
             if f"{self.module_name}.{self.class_name}" != "numpy.ndarray":
-                content = gettype(self.module_name, self.class_name)(content)
+                cls = gettype(self.module_name, self.class_name)
+                # the constructor of an array type does not take its content
+                content = (
+                    content.view(cls)
+                    if issubclass(cls, np.ndarray)
+                    else cls(content)
+                )
             return content
 
         if self.type == "json":
@@ -108,6 +114,8 @@ class NdArrayNode(Node):
             for index, value in zip(np.ndindex(*shape), values):
                 content[index] = value
 
+            if f"{self.module_name}.{self.class_name}" != "numpy.ndarray":
+                content = content.view(gettype(self.module_name, self.class_name))
             return content
 
         raise ValueError(f"Unknown type for a numpy object: {self.type}.")
-- 
2.43.0


From 8c83261bb2ea48da931c9c2e418a90c10283a0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:18 +0000
Subject: [PATCH 36/46] fix: refuse slices whose members json would change

---
 skops/io/_general.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index e89a58b..d108150 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -363,6 +363,12 @@ class TypeNode(Node):
 
 
 def slice_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    # start, stop, and step are part of the schema, other types, e.g. tuples or
+    # numpy numbers, would be changed by json
+    for value in (obj.start, obj.stop, obj.step):
+        if value is not None and type(value) not in (bool, int, float, str):
+            raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
-- 
2.43.0


From f2fc6f941c0099a71af50e6cbade04cf5ae44ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:39 +0000
Subject: [PATCH 37/46] fix: load RandomState objects that use another bit
 generator than MT19937

---
 skops/io/_numpy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index 0a6e827..b1da2f4 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -184,8 +184,11 @@ class RandomStateNode(Node):
         self.trusted = self._get_trusted(trusted, [np.random.RandomState])
 
     def _construct(self):
-        random_state = gettype(self.module_name, self.class_name)()
-        random_state.set_state(self.children["content"].construct())
+        content = self.children["content"].construct()
+        # set_state does not change the type of the bit generator
+        bit_generator = BIT_GENERATORS[content["bit_generator"]]()
+        random_state = gettype(self.module_name, self.class_name)(bit_generator)
+        random_state.set_state(content)
         return random_state
 
 
-- 
2.43.0


From ebea30d42ba240d4a9aa90e0e807b7551a28051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:08 +0000
Subject: [PATCH 38/46] fix: refuse classes and functions whose name denotes
 another object

---
 skops/io/_general.py |  3 +++
 skops/io/_utils.py   | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index d108150..e010696 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -27,6 +27,7 @@ from ._utils import (
     LoadContext,
     SaveContext,
     _import_obj,
+    check_name,
     get_module,
     get_state,
     gettype,
@@ -249,6 +250,7 @@ def function_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         "__module__": get_module(obj),
         "__loader__": "FunctionNode",
     }
+    check_name(obj, res["__module__"])
     return res
 
 
@@ -338,6 +340,7 @@ def type_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
         "__module__": get_module(obj),
         "__loader__": "TypeNode",
     }
+    check_name(obj, res["__module__"])
     return res
 
 
diff --git a/skops/io/_utils.py b/skops/io/_utils.py
index a3519ab..6defab0 100644
--- a/skops/io/_utils.py
+++ b/skops/io/_utils.py
@@ -10,6 +10,7 @@ from typing import Any, Type
 from zipfile import ZipFile
 
 from ._protocol import PROTOCOL
+from .exceptions import UnsupportedTypeException
 
 
 # The following two functions are copied from cpython's pickle.py file.
@@ -90,6 +91,17 @@ def get_module(obj: Any) -> str:
     return whichmodule(obj, obj.__name__)
 
 
+def check_name(obj: Any, module_name: str) -> None:
+    """Refuse a class or function whose name now belongs to another object
+
+    Only the name is stored, hence the other object would be loaded.
+
+    """
+    module = sys.modules.get(module_name)
+    if getattr(module, obj.__name__, obj) is not obj:
+        raise UnsupportedTypeException(obj)
+
+
 @dataclass(frozen=True)
 class SaveContext:
     """Context required for saving the objects
@@ -172,6 +184,7 @@ def get_state(value, save_context: SaveContext) -> dict[str, Any]:
 
     __id__ = save_context.memoize(obj=value)
 
+    check_name(type(value), type(value).__module__)
     res = _get_state(value, save_context)
 
     res["__id__"] = __id__
-- 
2.43.0


From 004a82ef7e7836be4618004c92a354330e3001ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:57 +0000
Subject: [PATCH 39/46] fix: refuse methods that their name does not resolve to
 on the object

---
 skops/io/_general.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skops/io/_general.py b/skops/io/_general.py
index e010696..e3976c5 100644
--- a/skops/io/_general.py
+++ b/skops/io/_general.py
@@ -538,6 +538,10 @@ def method_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # dependent on a specific instance of an object.
     # It stores the state of the object the method is bound to,
     # and prepares both to be persisted.
+    if getattr(obj.__self__, obj.__func__.__name__, obj) != obj:
+        # e.g. a method of a parent class, which is overridden in the class
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(obj),
-- 
2.43.0


From acee7dd47e0a7dd018398018e8aca00d294c9e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:40 +0000
Subject: [PATCH 40/46] fix: refuse subclasses of Tree and QuantileForest
 instead of loading the base class

---
 skops/io/_quantile_forest.py | 5 +++++
 skops/io/_sklearn.py         | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/skops/io/_quantile_forest.py b/skops/io/_quantile_forest.py
index 67b4226..47d1599 100644
--- a/skops/io/_quantile_forest.py
+++ b/skops/io/_quantile_forest.py
@@ -5,6 +5,7 @@ from typing import Any, Optional, Sequence
 from ._protocol import PROTOCOL
 from ._sklearn import ReduceNode, reduce_get_state
 from ._utils import LoadContext, SaveContext, get_module
+from .exceptions import UnsupportedTypeException
 
 try:
     from quantile_forest._quantile_forest_fast import QuantileForest
@@ -19,6 +20,10 @@ def quantile_forest_get_state(
     obj: Any,
     save_context: SaveContext,
 ) -> dict[str, Any]:
+    if type(obj) is not QuantileForest:
+        # a subclass would be loaded as a plain QuantileForest
+        raise UnsupportedTypeException(obj)
+
     state = reduce_get_state(obj, save_context)
     state["__loader__"] = "QuantileForestNode"
     return state
diff --git a/skops/io/_sklearn.py b/skops/io/_sklearn.py
index ac7e84a..fd76c7d 100644
--- a/skops/io/_sklearn.py
+++ b/skops/io/_sklearn.py
@@ -205,6 +205,10 @@ class ReduceNode(Node):
 
 
 def tree_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if type(obj) is not Tree:
+        # a subclass would be loaded as a plain Tree
+        raise UnsupportedTypeException(obj)
+
     state = reduce_get_state(obj, save_context)
     state["__loader__"] = "TreeNode"
     return state
-- 
2.43.0


From accc693eddf67f556e49f8b6581375f29c9337b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:40 +0000
Subject: [PATCH 41/46] fix: keep the fill value and hard mask of masked arrays

---
 skops/io/_numpy.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index b1da2f4..f807c5e 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -133,8 +133,13 @@ def maskedarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]
         "content": {
             "data": get_state(obj.data, save_context),
             "mask": get_state(obj.mask, save_context),
+            "hardmask": get_state(obj.hardmask, save_context),
         },
     }
+    # obj.fill_value would set the default fill value on obj
+    fill_value = obj._fill_value
+    if fill_value is not None:
+        res["content"]["fill_value"] = get_state(fill_value.reshape(1), save_context)
     return res
 
 
@@ -151,11 +156,22 @@ class MaskedArrayNode(Node):
             "data": get_tree(state["content"]["data"], load_context, trusted=trusted),
             "mask": get_tree(state["content"]["mask"], load_context, trusted=trusted),
         }
+        # archives written by older versions don't have these
+        for key in ("hardmask", "fill_value"):
+            if key in state["content"]:
+                self.children[key] = get_tree(
+                    state["content"][key], load_context, trusted=trusted
+                )
 
     def _construct(self):
         data = self.children["data"].construct()
         mask = self.children["mask"].construct()
-        return np.ma.MaskedArray(data, mask)
+        array = np.ma.MaskedArray(data, mask)
+        if "fill_value" in self.children:
+            array.fill_value = self.children["fill_value"].construct()[0]
+        if "hardmask" in self.children and self.children["hardmask"].construct():
+            array.harden_mask()
+        return array
 
 
 def random_state_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
-- 
2.43.0


From ba53ffeae7cba9be80e04ad5a2baad380525dad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:42 +0000
Subject: [PATCH 42/46] fix: tables with column names that are not strings can
 be rendered

---
 skops/card/_model_card.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 6875094..3aab38e 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -205,7 +205,7 @@ class TableSection(Section):
             # replace \n with <br /> (html new line tag) so that line breaks are
             # not converted into new rows with PrettyTable.
             values = [str(value).replace("\n", "<br />") for value in values]
-            table.add_column(key, values)
+            table.add_column(str(key), values)
 
         table = table.get_string()
 
-- 
2.43.0


From 52cfa1ef0f588d4d167f7812f66a3e5766623184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 43/46] fix: carriage returns and line breaks in column names
 do not break tables

---
 skops/card/_model_card.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index 3aab38e..da9480a 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -202,10 +202,11 @@ class TableSection(Section):
         table = PrettyTable()
         table.set_style(TableStyle.MARKDOWN)
         for key, values in self.table.items():
-            # replace \n with <br /> (html new line tag) so that line breaks are
+            # replace line breaks with <br /> (html new line tag) so that they are
             # not converted into new rows with PrettyTable.
-            values = [str(value).replace("\n", "<br />") for value in values]
-            table.add_column(str(key), values)
+            name = re.sub(r"\r\n?|\n", "<br />", str(key))
+            values = [re.sub(r"\r\n?|\n", "<br />", str(value)) for value in values]
+            table.add_column(name, values)
 
         table = table.get_string()
 
-- 
2.43.0


From 30b961f644b7562732d6ff372b1330ab895e0d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 44/46] fix: save the importance plot from its own figure, not
 pyplot's current one

---
 skops/card/_model_card.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index da9480a..f3074bd 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -1017,7 +1017,7 @@ class Card:
                 " different filename for the plot."
             )
         sorted_importances_idx = permutation_importances.importances_mean.argsort()
-        _, ax = plt.subplots()
+        fig, ax = plt.subplots()
         boxplot(
             ax,
             x=permutation_importances.importances[sorted_importances_idx].T,
@@ -1026,7 +1026,7 @@ class Card:
         )
         ax.set_title(plot_name)
         ax.set_xlabel("Decrease in Score")
-        plt.savefig(plot_file)
+        fig.savefig(plot_file)
         self.add_plot(description=description, alt_text=None, **{plot_name: plot_file})
 
         return self
-- 
2.43.0


From 2807e30a935f0ac5c52d7edea998d43d0360ff49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 45/46] fix: keep the shape and the record type of dtypes

A subarray dtype was loaded as its base dtype, because numpy makes the shape
of a subarray dtype part of the shape of the array that carries it, and a
record dtype was loaded as a plain structured one. Arrays and scalars with a
record dtype that are not recarrays lost it silently; they are refused now.
---
 skops/io/_numpy.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/skops/io/_numpy.py b/skops/io/_numpy.py
index f807c5e..02e91ac 100644
--- a/skops/io/_numpy.py
+++ b/skops/io/_numpy.py
@@ -14,6 +14,10 @@ from .exceptions import UnsupportedTypeException
 
 
 def ndarray_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
+    if obj.dtype.type is np.record and not isinstance(obj, np.recarray):
+        # np.save does not store that the elements are records
+        raise UnsupportedTypeException(obj)
+
     res = {
         "__class__": obj.__class__.__name__,
         "__module__": get_module(type(obj)),
@@ -270,13 +274,18 @@ class RandomGeneratorNode(Node):
 def dtype_get_state(obj: Any, save_context: SaveContext) -> dict[str, Any]:
     # we use numpy's internal save mechanism to store the dtype by
     # saving/loading an empty array with that dtype.
-    tmp: np.typing.NDArray = np.ndarray(0, dtype=obj)
+    tmp: np.typing.NDArray = np.ndarray(0, dtype=obj.base)
+    if obj.base.type is np.record:
+        tmp = tmp.view(np.recarray)
     res = {
         "__class__": "dtype",
         "__module__": "numpy",
         "__loader__": "DTypeNode",
         "content": get_state(tmp, save_context),
     }
+    if obj.shape:
+        # the shape of a subarray dtype would become part of the array
+        res["shape"] = get_state(obj.shape, save_context)
     return res
 
 
@@ -291,13 +300,20 @@ class DTypeNode(Node):
         self.children = {
             "content": get_tree(state["content"], load_context, trusted=trusted)
         }
+        if "shape" in state:
+            self.children["shape"] = get_tree(
+                state["shape"], load_context, trusted=trusted
+            )
         # TODO: what should we trust?
         self.trusted = self._get_trusted(trusted, [])
 
     def _construct(self):
         # we use numpy's internal save mechanism to store the dtype by
         # saving/loading an empty array with that dtype.
-        return self.children["content"].construct().dtype
+        dtype = self.children["content"].construct().dtype
+        if "shape" in self.children:
+            dtype = np.dtype((dtype, self.children["shape"].construct()))
+        return dtype
 
 
 # tuples of type and function that gets the state of that type
-- 
2.43.0


From 1f4b538a7837566ed6e65ae4761c05a9092a247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 46/46] fix: show the values of a data frame in a table with
 their own text

---
 skops/card/_model_card.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skops/card/_model_card.py b/skops/card/_model_card.py
index f3074bd..9801e28 100644
--- a/skops/card/_model_card.py
+++ b/skops/card/_model_card.py
@@ -202,6 +202,10 @@ class TableSection(Section):
         table = PrettyTable()
         table.set_style(TableStyle.MARKDOWN)
         for key, values in self.table.items():
+            if self._is_pandas_df:
+                # iterating over a column would convert its values, which can change
+                # their text (e.g. of float32), so access them one by one
+                values = [values.iloc[i] for i in range(len(values))]  # type: ignore
             # replace line breaks with <br /> (html new line tag) so that they are
             # not converted into new rows with PrettyTable.
             name = re.sub(r"\r\n?|\n", "<br />", str(key))
-- 
2.43.0

