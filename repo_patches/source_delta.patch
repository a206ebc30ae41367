From 31d8797ca31ab3b611cc72dd6659f61cfa18cc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 001/114] fix: give partial reversed diagram slices their own
 domain and codomain

---
 lambeq/backend/grammar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 7d9026c..d85ff23 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1000,7 +1000,10 @@ class Diagram(Entity):
         if isinstance(key, slice):
             if key.step == -1:
                 layers = [layer.dagger() for layer in self.layers[key]]
-                return type(self)(self.cod, self.dom, layers)
+                if not layers:
+                    start, _, _ = key.indices(len(self))
+                    return self.id(self[:start + 1].cod)
+                return type(self)(layers[0].dom, layers[-1].cod, layers)
             if (key.step or 1) != 1:
                 raise IndexError
             layers = self.layers[key]
-- 
2.43.0


From db9c317d206f1c4592e9757506cae190d4096572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 002/114] fix: keep the order of frame components under even
 rotations

---
 lambeq/backend/grammar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index d85ff23..2f0c063 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -2153,12 +2153,13 @@ class Frame(Box):
 
     def rotate(self, z: int) -> Self:
         """Rotate the box, changing the winding number."""
+        components = (reversed(self.components) if z % 2 == 1
+                      else self.components)
         return replace(self,
                        dom=self.dom.rotate(z),
                        cod=self.cod.rotate(z),
                        z=self.z + z,
-                       components=[c.rotate(z) for c in
-                                   reversed(self.components)])
+                       components=[c.rotate(z) for c in components])
 
     def dagger(self) -> DaggeredFrame | Frame:
         return DaggeredFrame(self)
-- 
2.43.0


From fbb8bc17e098a1f2e90c94ccf731cc40fdfb8b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 003/114] fix: leave the given dictionary intact when decoding
 JSON

---
 lambeq/backend/grammar.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 2f0c063..7d2abd4 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -365,7 +365,8 @@ class Ty(Entity):
         :py:class:`~lambeq.backend.Ty`
             The type generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['objects'] = [cls.from_json(obj_data)
                                 for obj_data
@@ -540,7 +541,8 @@ class Box(Entity):
         :py:class:`~lambeq.backend.Box`
             The box generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
@@ -647,7 +649,8 @@ class Layer(Entity):
         :py:class:`~lambeq.backend.grammar.Layer`
             The layer generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         _entity_mapping = {
@@ -1339,7 +1342,8 @@ class Diagram(Entity):
         :py:class:`~lambeq.backend.Diagram`
             The diagram generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
@@ -1510,7 +1514,8 @@ class Cap(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         data_dict['right'] = cls.category.Ty.from_json(data_dict['right'])
@@ -1639,7 +1644,8 @@ class Cup(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         data_dict['right'] = cls.category.Ty.from_json(data_dict['right'])
@@ -1696,7 +1702,8 @@ class Daggered(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         box = cls.category.Box.from_json(data_dict['box'])
 
@@ -1799,7 +1806,8 @@ class Spider(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['type'] = cls.category.Ty.from_json(data_dict['type'])
 
@@ -1892,7 +1900,8 @@ class Swap(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         data_dict['right'] = cls.category.Ty.from_json(data_dict['right'])
@@ -1953,7 +1962,8 @@ class Word(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
 
@@ -2190,7 +2200,8 @@ class Frame(Box):
         :py:class:`~lambeq.backend.Frame`
             The frame generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
@@ -2276,7 +2287,8 @@ class DaggeredFrame(Frame):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> DaggeredFrame:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         frame_cls = cls.category.Diagram.special_boxes['frame']
         frame = frame_cls.from_json(     # type: ignore[attr-defined]
-- 
2.43.0


From e3d88d3e475b372efa71df0bb811f40ef6982b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 004/114] fix: decode daggered words from JSON

---
 lambeq/backend/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 7d2abd4..3232d7a 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1705,7 +1705,7 @@ class Daggered(Box):
         data_dict = (json.loads(data) if isinstance(data, str)
                      else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
-        box = cls.category.Box.from_json(data_dict['box'])
+        box = cls.category.from_json(data_dict['box'])
 
         return box.dagger()  # type: ignore[return-value]
 
-- 
2.43.0


From 111bedd618f908c6dc044d2a4868d94d97958fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 005/114] fix: decode frames with box, word and daggered
 components

---
 lambeq/backend/grammar.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 3232d7a..9925a09 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -2205,21 +2205,9 @@ class Frame(Box):
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
-        components = []
-        for component_json in data_dict['components']:
-            component_entity = component_json['entity']
-            if component_entity == 'Diagram':
-                component = cls.category.Diagram.from_json(component_json)
-            else:
-                comp_cls = cls.category.Diagram.special_boxes[
-                    component_entity.lower()
-                ]
-                component = comp_cls.from_json(    # type: ignore[attr-defined]
-                    component_json
-                )
-            components.append(component)
-
-        data_dict['components'] = components
+        data_dict['components'] = [cls.category.from_json(component_json)
+                                   for component_json
+                                   in data_dict['components']]
 
         return cls(**data_dict)
 
-- 
2.43.0


From fd751a9b66a60a153325b994ba94a3903c5a3254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 006/114] fix: do not cache functor images that fail the type
 check

---
 lambeq/backend/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 9925a09..9ab71c6 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -2091,8 +2091,6 @@ class Functor:
         else:
             ret = self.target_category.Diagram.id(self.ob_with_cache(ar.dom))
 
-        self.ar_cache[ar] = ret
-
         cod_check = self.ob_with_cache(ar.cod)
         dom_check = self.ob_with_cache(ar.dom)
         if ret.cod != cod_check or ret.dom != dom_check:
@@ -2100,6 +2098,8 @@ class Functor:
                             f'to a box returns dom = {ret.dom}, cod = '
                             f'{ret.cod} expected dom = {dom_check}, cod = '
                             f'{cod_check}')
+
+        self.ar_cache[ar] = ret
         return ret
 
     def ob(self, ob: Ty) -> Ty:
-- 
2.43.0


From 95cdf3f982317fb4bf01e9079ac5822734855ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 007/114] fix: build reversed cups and caps of complex types

---
 lambeq/backend/grammar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 9ab71c6..761ab78 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1469,7 +1469,7 @@ class Cap(Box):
 
             diagram = cls.category.Diagram.id()
             for i, (l_ob, r_ob) in enumerate(zip(left, reversed(right))):
-                diagram = diagram.then_at(cls(l_ob, r_ob), i)
+                diagram = diagram.then_at(cls(l_ob, r_ob, is_reversed), i)
             return diagram
 
     def __reduce__(self):
@@ -1597,7 +1597,8 @@ class Cup(Box):
 
             diagram = cls.category.Diagram.id(left @ right)
             for i, (l_ob, r_ob) in enumerate(zip(reversed(left), right)):
-                diagram = diagram.then_at(cls(l_ob, r_ob), len(left) - 1 - i)
+                diagram = diagram.then_at(cls(l_ob, r_ob, is_reversed),
+                                          len(left) - 1 - i)
             return diagram
 
     def __reduce__(self):
-- 
2.43.0


From 08d86588f7d7be5a58c976c266ff8f846fc8d0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 008/114] fix: allow the tensor of a diagram with no other
 diagram

---
 lambeq/backend/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 761ab78..a30619b 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -970,7 +970,7 @@ class Diagram(Entity):
         except ValueError:
             return NotImplemented   # type: ignore[no-any-return]
 
-        right = dom = self.dom.tensor(*[
+        right = dom = self.dom.tensor([
             diagram.to_diagram().dom for diagram in diagrams
         ])
         left = self.category.Ty()
-- 
2.43.0


From 28b8539796b3a8d2f644b2f45152b12c7e4a77bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 009/114] fix: only yank a cup and a cap whose outer wires have
 the same type

---
 lambeq/backend/snake_removal.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/snake_removal.py b/lambeq/backend/snake_removal.py
index 346802e..e58b2cf 100644
--- a/lambeq/backend/snake_removal.py
+++ b/lambeq/backend/snake_removal.py
@@ -113,7 +113,13 @@ def snake_removal(diagram: Diagram, left: bool = False) -> Iterator[Diagram]:
                                 or (left_snake
                                     and diagram.offsets[cup] + 1 != wire)
                                 or (not left_snake
-                                    and diagram.offsets[cup] != wire))
+                                    and diagram.offsets[cup] != wire)
+                                or (left_snake
+                                    and diagram.boxes[cup].dom[0]
+                                    != diagram.boxes[cap].cod[1])
+                                or (not left_snake
+                                    and diagram.boxes[cup].dom[1]
+                                    != diagram.boxes[cap].cod[0]))
                 if not_yankable:
                     continue
                 return cup, cap, obstructions, left_snake
-- 
2.43.0


From aabe936cb262a429f34227a8769d16ed3bdf9f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 010/114] fix: pass is_reversed on in the to_left and to_right
 cup and cap builders

---
 lambeq/backend/grammar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index a30619b..bddefe8 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1482,11 +1482,11 @@ class Cap(Box):
 
     @classmethod
     def to_right(cls, left: Ty, is_reversed: bool = False) -> Self | Diagram:
-        return cls(left, left.r if is_reversed else left.l)
+        return cls(left, left.r if is_reversed else left.l, is_reversed)
 
     @classmethod
     def to_left(cls, right: Ty, is_reversed: bool = False) -> Self | Diagram:
-        return cls(right.l if is_reversed else right.r, right)
+        return cls(right.l if is_reversed else right.r, right, is_reversed)
 
     def rotate(self, z: int) -> Self:
         """Rotate the cap."""
@@ -1611,11 +1611,11 @@ class Cup(Box):
 
     @classmethod
     def to_right(cls, left: Ty, is_reversed: bool = False) -> Self | Diagram:
-        return cls(left, left.l if is_reversed else left.r)
+        return cls(left, left.l if is_reversed else left.r, is_reversed)
 
     @classmethod
     def to_left(cls, right: Ty, is_reversed: bool = False) -> Self | Diagram:
-        return cls(right.r if is_reversed else right.l, right)
+        return cls(right.r if is_reversed else right.l, right, is_reversed)
 
     def rotate(self, z: int) -> Self:
         """Rotate the cup."""
-- 
2.43.0


From 6e8eb664a4b16e062856dd83537969cdabd140a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 011/114] fix: tensor of cups and caps of dimension greater
 than two

---
 lambeq/backend/tensor.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 00cc12b..2c5a3f6 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -453,10 +453,7 @@ class Cap(grammar.Cap, Box):
 
         super().__init__(left, right)
 
-        arr = np.zeros(left.product ** 2)
-        arr[0] = 1
-        arr[-1] = 1
-        self.data = arr
+        self.data = np.eye(left.product).reshape(-1)
 
     __hash__ = Box.__hash__
     __repr__ = Box.__repr__
@@ -494,10 +491,7 @@ class Cup(grammar.Cup, Box):
 
         super().__init__(left, right)
 
-        arr = np.zeros(left.product ** 2)
-        arr[0] = 1
-        arr[-1] = 1
-        self.data = arr
+        self.data = np.eye(left.product).reshape(-1)
 
     __hash__ = Box.__hash__
     __repr__ = Box.__repr__
-- 
2.43.0


From f30491d75752adc6d759e35180c27601df007445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 012/114] fix: conjugate tensor boxes whose data is flat

---
 lambeq/backend/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 2c5a3f6..92b771c 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -198,7 +198,8 @@ class Box(grammar.Box):
 
         dom, cod = self.dom, self.cod
         with backend() as np:
-            array = np.moveaxis(self.data,
+            data = np.array(self.data).reshape(dom.dim[::-1] + cod.dim[::-1])
+            array = np.moveaxis(data,
                                 range(len(dom @ cod)),
                                 [len(dom) - i - 1
                                     for i in range(len(dom @ cod))])
-- 
2.43.0


From 432f0c1556ddfdac020198a15a955dfc0d2b35bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 013/114] fix: evaluate daggered and rotated tensor boxes with
 the PyTorch backend

---
 lambeq/backend/tensor.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 92b771c..0fd4478 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -187,11 +187,11 @@ class Box(grammar.Box):
 
         arr = self.array
 
-        source = range(len(self.dom @ self.cod))
-        target = [i + len(self.cod) if i < len(self.dom) else
-                  i - len(self.dom) for i in range(len(self.dom @ self.cod))]
+        source = tuple(range(len(self.dom @ self.cod)))
+        target = tuple(i + len(self.cod) if i < len(self.dom) else
+                       i - len(self.dom) for i in source)
         with backend() as np:
-            return np.conjugate(np.moveaxis(arr, source, target))
+            return np.conj(np.moveaxis(arr, source, target))
 
     def _conjugate_array(self):
         """Returns the diagrammtic conjugate of the box's data"""
@@ -199,11 +199,9 @@ class Box(grammar.Box):
         dom, cod = self.dom, self.cod
         with backend() as np:
             data = np.array(self.data).reshape(dom.dim[::-1] + cod.dim[::-1])
-            array = np.moveaxis(data,
-                                range(len(dom @ cod)),
-                                [len(dom) - i - 1
-                                    for i in range(len(dom @ cod))])
-            return np.conjugate(array)
+            source = tuple(range(len(dom @ cod)))
+            target = tuple(len(dom) - i - 1 for i in source)
+            return np.conj(np.moveaxis(data, source, target))
 
     def dagger(self):
         """Get the dagger (adjoint) of the box.
-- 
2.43.0


From bd5ba0010db6b0f6f629fd4e775dc35cb8cb6aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 014/114] fix: give caps the requested data type when building
 tensor networks

---
 lambeq/backend/tensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 0fd4478..a74a516 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -401,6 +401,9 @@ class Diagram(grammar.Diagram):
                     node = tn.CopyNode(box.n_legs_in + box.n_legs_out,
                                        box.type.product, dtype=dtype,
                                        backend=backend)
+                elif isinstance(box, Cap):
+                    node = tn.CopyNode(2, box.left.product, dtype=dtype,
+                                       backend=backend)
                 else:
                     node = tn.Node(box.array,
                                    str(box.name),
-- 
2.43.0


From cf32ca1e3b18be31998d53ea305dc6498f4cf983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 015/114] fix: keep the winding number of tensor boxes in
 lambdify

---
 lambeq/backend/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index a74a516..e9bcc7a 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -279,7 +279,8 @@ class Box(grammar.Box):
 
         return lambda *xs: type(self)(
             self.name, self.dom, self.cod,
-            lambdify(symbols, self.data)(*xs))
+            lambdify(symbols, self.data)(*xs),
+            self.z)
 
     def __repr__(self) -> str:
         return (f'[{self.name}{".l"*(-self.z)}{".r"*self.z}; '
-- 
2.43.0


From d3adeecd2f6efc755da8f19b298fd766af577ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 016/114] fix: rotate scalars of the quantum category

---
 lambeq/backend/quantum.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 5f836f5..fbd4ee2 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1088,6 +1088,11 @@ class Scalar(Box):
     def dagger(self):
         return replace(self, data=self.data.conjugate())
 
+    def rotate(self, z: int) -> Self:
+        if z % 2 == 0:
+            return self
+        return replace(self, data=np.conjugate(self.data))
+
 
 @dataclass
 class Sqrt(Scalar):
-- 
2.43.0


From 2887b230fc3fa66709efd2cb4d4542694cc3a0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 017/114] fix: swap qubits that are not adjacent with
 Diagram.SWAP

---
 lambeq/backend/quantum.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index fbd4ee2..66a3c32 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -249,6 +249,12 @@ class Diagram(tensor.Diagram):
 
             return self.then_at(final_gate, min_idx)
 
+        elif isinstance(gate, Swap):
+            left, right = sorted(qubits)
+            perm = list(range(len(self.cod)))
+            perm[left], perm[right] = right, left
+            return self.permuted(perm)
+
         else:
             assert len(qubits) == len(gate.dom)
             return self.then_at(gate, min(qubits))
-- 
2.43.0


From 8802857e3480f082476d3cf5c68cd508901e702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 018/114] fix: swaps that involve bits in mixed circuits

---
 lambeq/backend/quantum.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 66a3c32..fb5046f 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -521,8 +521,13 @@ class Diagram(tensor.Diagram):
             q_offset = list(left).count(qubit)
 
             if isinstance(box, Swap) and box.is_classical:
-                c_scan[q_offset], c_scan[q_offset + 1] = (c_scan[q_offset + 1],
-                                                          c_scan[q_offset])
+                c_scan[c_offset], c_scan[c_offset + 1] = (c_scan[c_offset + 1],
+                                                          c_scan[c_offset])
+
+            elif isinstance(box, Swap) and bit in box.dom:
+                # Bits and qubits are kept in separate lists, so nothing
+                # has to move when they cross.
+                pass
 
             elif isinstance(box, Discard):
                 tn.connect(q_scan1[q_offset], q_scan2[q_offset])
-- 
2.43.0


From 607a4ea2488f43a1a4bbe4f2a1ba7b859895ab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 019/114] fix: contract bits as classical states in mixed
 circuits

---
 lambeq/backend/quantum.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index fb5046f..8cedd22 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -565,6 +565,16 @@ class Diagram(tensor.Diagram):
                 q_scan1[q_offset:q_offset + q_dom] = q_edges1
                 q_scan2[q_offset:q_offset + q_dom] = q_edges2
 
+                nodes.append(node)
+            elif box.is_classical:
+                node = tn.Node(box.array + 0j, 'c_' + str(box))
+
+                for i in range(len(box.dom)):
+                    tn.connect(c_scan[c_offset + i], node[i])
+
+                c_scan[c_offset:c_offset
+                       + len(box.dom)] = node[len(box.dom):]
+
                 nodes.append(node)
             else:
                 # Purely quantum box
-- 
2.43.0


From 75bcfc9d95a11fd5c5f503d2b8a8bb744355b965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 020/114] fix: pull qubits through nested and repeated
 controlled gates

---
 lambeq/backend/quantum.py | 51 +++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 8cedd22..d81a69d 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1385,6 +1385,26 @@ def to_circuital(diagram: Diagram) -> Diagram:
 
         return gates, q_idx
 
+    def widen_controlled(box: Controlled, idx: int) -> Controlled:
+        """
+            Returns a copy of a controlled box with an idle wire inserted
+            at index idx, which lies strictly inside the box.
+        """
+        inner, distance = box.controlled, box.distance
+
+        # Where the controlled box starts inside the controlling one
+        start = distance if distance > 0 else 0
+
+        if start < idx < start + len(inner.dom):
+            if not isinstance(inner, Controlled):
+                raise NotImplementedError('Cannot pull qubit through '
+                                          f'box {inner}')
+            inner = widen_controlled(inner, idx - start)
+        else:
+            distance += 1 if distance > 0 else -1
+
+        return Controlled(inner, distance)
+
     def pull_qubit_through(q_idx: int,
                            gates: list[Layer],
                            dom: Ty = qubit) -> tuple[list[Layer], int]:  # noqa: E501
@@ -1415,35 +1435,8 @@ def to_circuital(diagram: Diagram) -> Diagram:
 
             else:
                 if isinstance(gate_layer.box, Controlled):
-                    gate_qubits = [len(gate_layer.left) + j
-                                   for j in range(len(gate_layer.box.dom))]
-
-                    # Initial control qubit box
-                    dists = [0]
-                    curr_box: Box | Controlled = gate_layer.box
-                    while isinstance(curr_box, Controlled):
-                        # Compute relative index control qubits
-                        dists.append(curr_box.distance + sum(dists))
-                        curr_box = curr_box.controlled
-
-                    prev_pos = -1 * min(dists) + gate_qubits[0]
-                    curr_box = gate_layer.box
-
-                    while isinstance(curr_box, Controlled):
-                        curr_pos = prev_pos + curr_box.distance
-                        if prev_pos < q_idx and q_idx <= curr_pos:
-                            curr_box.distance = curr_box.distance + 1
-
-                        elif q_idx <= prev_pos and q_idx > curr_pos:
-                            curr_box.distance = curr_box.distance - 1
-
-                        prev_pos = curr_pos
-                        curr_box = curr_box.controlled
-
-                    box = gate_layer.box
-
-                    box.dom = box.dom.insert(dom, q_idx - l_size)
-                    box.cod = box.cod.insert(dom, q_idx - l_size)
+                    gate_layer.box = widen_controlled(gate_layer.box,
+                                                      q_idx - l_size)
                     new_gates.append(gate_layer)
 
                 if isinstance(gate_layer.box, Swap):
-- 
2.43.0


From 6e6d93c11894dca6d5fd4c67f58e3ec7dd510864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 021/114] fix: keep the wire types when pulling qubits through
 swaps

---
 lambeq/backend/quantum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index d81a69d..6d8a977 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1449,7 +1449,7 @@ def to_circuital(diagram: Diagram) -> Diagram:
                     new_gates.append(Layer(gate_layer.left,
                                      Swap(qubit, qubit),
                                      dom >> gate_layer.right))
-                    new_gates.append(Layer(dom >> gate_layer.left,
+                    new_gates.append(Layer(gate_layer.left @ dom,
                                      Swap(qubit, qubit),
                                      gate_layer.right))
                     new_gates.append(Layer(gate_layer.left,
-- 
2.43.0


From 9f134f202267911bf3ddfb710cae538d7dffe418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 022/114] fix: number the bits of tket circuits in the order of
 their qubits

---
 lambeq/backend/quantum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 6d8a977..1be0341 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1720,6 +1720,9 @@ def readoff_circuital(diagram: Diagram,
             gates.append(Gate.from_box(layer.box, qi,
                                        use_sympy=use_sympy))
 
+    # Keep the bits in the same order as the qubits they are read from
+    bitmap = {qi: bi for bi, qi in enumerate(sorted(bitmap))}
+
     return CircuitInfo(total_qubits,
                        gates,
                        bitmap,
-- 
2.43.0


From 16c5bc6a5fcfe2df798a659378b48a2e55dea2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 023/114] fix: export controlled Y gates to tket

---
 lambeq/backend/converters/tk.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index ed7fb63..906bd72 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -50,6 +50,7 @@ OPTYPE_MAP = {'H': OpType.H,
               'Ry': OpType.Ry,
               'Rz': OpType.Rz,
               'CX': OpType.CX,
+              'CY': OpType.CY,
               'CZ': OpType.CZ,
               'CRx': OpType.CRx,
               'CRy': OpType.CRy,
-- 
2.43.0


From 0c66305395da0470de817b111871d2a896476746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 024/114] fix: export rotations by zero to tket

---
 lambeq/backend/converters/tk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 906bd72..9200f34 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -252,7 +252,7 @@ def to_tk(diagram: Diagram) -> Circuit:
         elif gate.gtype not in OPTYPE_MAP:
             raise NotImplementedError(f'Gate {gate.gtype} not supported')
 
-        if gate.phase:
+        if gate.phase is not None:
             op = Op.create(OPTYPE_MAP[gate.gtype], 2 * gate.phase)
         else:
             op = Op.create(OPTYPE_MAP[gate.gtype])
-- 
2.43.0


From 7383cc6a9cb7009859b93556439e64ed7cd4e0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 025/114] fix: keep the phase of controlled Ry gates

---
 lambeq/backend/quantum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 1be0341..1472554 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1619,7 +1619,7 @@ class Gate:
             control = sorted(qubits[:-1])
             gate_q = qubits[-1]
 
-            if gtype in ('CRx', 'CRz'):
+            if gtype in ('CRx', 'CRy', 'CRz'):
                 phase = box.phase
                 if use_sympy and isinstance(box.phase, Symbol):
                     # Tket uses sympy, lambeq uses custom symbol
-- 
2.43.0


From 8e96c2399d00a3abd21cd5d25af7d99812bf0ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 026/114] fix: keep the kets that are set to one in circuital
 diagrams

---
 lambeq/backend/quantum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 1472554..52852f2 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1701,7 +1701,8 @@ def readoff_circuital(diagram: Diagram,
 
     for layer in layers:
         if isinstance(layer.box, Ket):
-            pass
+            if layer.box.bit:
+                gates.append(Gate.from_box(X, len(layer.left)))
         elif isinstance(layer.box, Measure):
             qi = available_qubits[layer.left.count(qubit)]
             available_qubits.remove(qi)
-- 
2.43.0


From f9f5e872503fdfe42cdc38bb0c434a0ab09c795c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 027/114] fix: measure at the end of circuits imported from
 tket

---
 lambeq/backend/converters/tk.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 9200f34..d75f591 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -340,6 +340,7 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
 
     circuit = Ket(*(0, ) * n_qubits).to_diagram()
     bras = {}
+    measures = {}
     for tk_gate in tk_circ.get_commands():
         if tk_gate.op.type.name == 'Measure':
             offset: int = tk_gate.qubits[0].index[0]
@@ -347,9 +348,7 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
             if bit_index in tk_circ.post_selection:
                 bras[offset] = tk_circ.post_selection[bit_index]
                 continue  # post selection happens at the end
-            left = circuit.cod[:offset]
-            right = circuit.cod[offset + 1:]
-            circuit = circuit >> left @ Measure() @ right
+            measures[offset] = bit_index
         else:
             box, offset = box_and_offset_from_tk(tk_gate)
             left = circuit.cod[:offset]
@@ -357,8 +356,11 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
             circuit = circuit >> left @ box @ right
     circuit = circuit >> Id().tensor(*(
         Bra(bras[i]) if i in bras
-        else Discard() if x == qubit else Id(bit)
-        for i, x in enumerate(circuit.cod)))
+        else Measure() if i in measures else Discard()
+        for i in range(n_qubits)))
+    bits = [measures[i] for i in sorted(measures)]
+    if bits != sorted(bits):
+        circuit = circuit.permuted(np.argsort(bits).tolist())
     if tk_circ.scalar != 1:
         circuit = circuit @ Scalar(np.sqrt(abs(tk_circ.scalar)))
     return circuit >> tk_circ.post_processing  # type: ignore [return-value]
-- 
2.43.0


From 94c4e7476d72d36a71d1714fefca98edac40c418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 028/114] fix: keep plain floats as scales of symbols imported
 from tket

---
 lambeq/backend/converters/tk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index d75f591..3e40a18 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -206,7 +206,7 @@ def _tk_to_lmbq_param(theta):
         if not isinstance(symbol, sympy.Symbol):
             raise ValueError('Parameter must be a (possibly scaled) sympy'
                              'Symbol')
-        return Symbol(symbol.name, scale=scale)
+        return Symbol(symbol.name, scale=float(scale))
     else:
         raise ValueError('Parameter must be a (possibly scaled) sympy Symbol')
 
-- 
2.43.0


From e112110a35675a2c4714702721898ca25ab7b8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 029/114] fix: import three-qubit gates that do not start at
 the first qubit

---
 lambeq/backend/converters/tk.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 3e40a18..7b249de 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -324,14 +324,14 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
                 box = Controlled(Z, distance)
 
         if len(tk_gate.args) == 3:  # three qubit gate
-            controls = (tk_gate.args[0].index[0], tk_gate.args[1].index[0])
-            target = tk_gate.args[2].index[0]
-            span = max(controls + (target,)) - min(controls + (target,)) + 1
+            indices = [arg.index[0] for arg in tk_gate.args]
+            offset = min(indices)
+            span = max(indices) - offset + 1
+            qubits = [idx - offset for idx in indices]
             if name == 'CCX':
-                box = Id(qubit**span).apply_gate(CCX, *controls, target)
+                box = Id(qubit**span).apply_gate(CCX, *qubits)
             elif name == 'CCZ':
-                box = Id(qubit**span).apply_gate(CCZ, *controls, target)
-            offset = min(controls + (target,))
+                box = Id(qubit**span).apply_gate(CCZ, *qubits)
 
         if box is None:
             raise NotImplementedError
-- 
2.43.0


From c7eb68a4c9f21fee3e4d85e147b6caa448e06aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 030/114] fix: export conjugated S and T gates to backends

---
 lambeq/backend/quantum.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 52852f2..a93ed5e 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1587,6 +1587,10 @@ class Gate:
             dagger = True
             gtype = box.name.split('(')[0]
 
+        if gtype in ('S', 'T') and box.z % 2:
+            # The conjugate of these gates is their dagger
+            dagger = not dagger
+
         if isinstance(box, (Rx, Ry, Rz)):
             phase = box.phase
             if use_sympy and isinstance(box.phase, Symbol):
-- 
2.43.0


From 251791b52c092bf5eda1c35c140f598391076f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 031/114] fix: keep all the scalars of a circuit converted to
 PennyLane

---
 lambeq/backend/pennylane.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index a20d9aa..a40757a 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -198,12 +198,14 @@ def to_pennylane(diagram: Diagram,
     circuit_info = readoff_circuital(diagram)
 
     scalar = 1.0
+    gates = []
     for gate in circuit_info.gates:
         if gate.gtype == 'Scalar' and gate.phase is not None:
             scalar *= gate.phase
-            circuit_info.gates.remove(gate)
+        else:
+            gates.append(gate)
 
-    ex_ops = extract_ops_from_circuital(circuit_info.gates)
+    ex_ops = extract_ops_from_circuital(gates)
     op_list, params_list, symbols_set, wires_list = ex_ops
 
     # Get post selection bits
-- 
2.43.0


From 56af5dd6fe042c4b47a810fdb42e844ee0d03699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 032/114] fix: scale PennyLane probabilities by complex
 amplitudes

---
 lambeq/backend/pennylane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index a40757a..982f12a 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -413,8 +413,8 @@ class PennyLaneCircuit:
 
         open_wires = self._n_qubits - len(self._post_selection)
         post_selected_states = states[self._valid_states]
-        post_selected_states *= (self._scale ** 2 if self._probabilities
-                                 else self._scale)
+        post_selected_states = post_selected_states * (
+            abs(self._scale) ** 2 if self._probabilities else self._scale)
 
         if post_selected_states.shape[0] == 1:
             return post_selected_states
-- 
2.43.0


From ca4cc8eec6fe7716a0a0de359f6957899975c29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 033/114] fix: convert rotations by zero to PennyLane

---
 lambeq/backend/pennylane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index 982f12a..af871cd 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -119,7 +119,7 @@ def extract_ops_from_circuital(
     qubits = [x.qubits for x in gates]
     params: list[Union[Symbol, float, int,
                        list, torch.Tensor]] = [x.phase
-                                               if x.phase
+                                               if x.phase is not None
                                                else []
                                                for x in gates]
 
-- 
2.43.0


From bf799d24f96bb7c578a4a414131152dc29f6dddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 034/114] fix: accept scaled symbols in PennyLane circuits

---
 lambeq/backend/pennylane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index af871cd..ec271a5 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -135,7 +135,7 @@ def extract_ops_from_circuital(
         elif not isinstance(param, Symbol):
             param = torch.tensor(param)
         else:
-            symbols.add(param)
+            symbols.add(param.unscaled)
 
         remapped_params.append([param])
 
-- 
2.43.0


From 24749bd324f0c9c0db956f92ad00bc45fad17779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 035/114] fix: convert daggered gates to PennyLane

---
 lambeq/backend/pennylane.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index ec271a5..bffd1a6 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -115,7 +115,8 @@ def extract_ops_from_circuital(
         The wires/qubits to apply the operation to.
 
     """
-    ops = [OP_MAP[x.gtype] for x in gates]
+    ops = [qml.adjoint(OP_MAP[x.gtype]) if x.dagger
+           else OP_MAP[x.gtype] for x in gates]
     qubits = [x.qubits for x in gates]
     params: list[Union[Symbol, float, int,
                        list, torch.Tensor]] = [x.phase
-- 
2.43.0


From d62d6a13c253dc8383e5f9e5e740110838bc6054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 036/114] fix: post-select on ones in PennyLane circuits with
 discards

---
 lambeq/backend/pennylane.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index bffd1a6..2a37611 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -409,8 +409,11 @@ class PennyLaneCircuit:
         states = self._circuit(params)
 
         if self._mixed:
-            # Select the all-zeros subsystem
-            return states[0][0]
+            # Select the post-selected subsystem
+            idx = 0
+            for value in self._post_selection.values():
+                idx = 2 * idx + value
+            return states[idx][idx]
 
         open_wires = self._n_qubits - len(self._post_selection)
         post_selected_states = states[self._valid_states]
-- 
2.43.0


From 6d16213a08785ef333ab5e54234c25ce790a1388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 037/114] fix: scale PennyLane circuits with discards

---
 lambeq/backend/pennylane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index 2a37611..05656b2 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -413,7 +413,7 @@ class PennyLaneCircuit:
             idx = 0
             for value in self._post_selection.values():
                 idx = 2 * idx + value
-            return states[idx][idx]
+            return states[idx][idx] * abs(self._scale) ** 2
 
         open_wires = self._n_qubits - len(self._post_selection)
         post_selected_states = states[self._valid_states]
-- 
2.43.0


From cf367dfb0ee2622650ad77015f4e332a6ec31ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:06 +0000
Subject: [PATCH 038/114] fix: PennyLane circuits with discards and no
 post-selection

---
 lambeq/backend/pennylane.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index 05656b2..d55f771 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -383,7 +383,8 @@ class PennyLaneCircuit:
                 op(*[2 * torch.pi * p for p in params], wires=wires)
 
             if self._mixed:
-                return qml.density_matrix(self._post_selection.keys())
+                return qml.density_matrix(list(self._post_selection)
+                                          or range(self._n_qubits))
             if self._probabilities:
                 return qml.probs(wires=range(self._n_qubits))
             else:
@@ -409,6 +410,9 @@ class PennyLaneCircuit:
         states = self._circuit(params)
 
         if self._mixed:
+            if not self._post_selection:
+                return states.trace() * abs(self._scale) ** 2
+
             # Select the post-selected subsystem
             idx = 0
             for value in self._post_selection.values():
-- 
2.43.0


From 950ee88a495c23df1c1cd9f4d2aa092e26698883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 039/114] fix: compare the winding numbers and data shapes of
 tensor boxes

---
 lambeq/backend/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index e9bcc7a..965652c 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -170,7 +170,8 @@ class Box(grammar.Box):
         return (self.name == other.name
                 and self.dom == other.dom
                 and self.cod == other.cod
-                and np.equal(self.data, other.data).all())
+                and self.z == other.z
+                and np.array_equal(self.data, other.data))
 
     @property
     def array(self):
-- 
2.43.0


From 50f17547e3ba6a195be08292bd97a732d0550600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:01 +0000
Subject: [PATCH 040/114] fix: run TketModel with the configured number of
 shots

---
 lambeq/training/tket_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lambeq/training/tket_model.py b/lambeq/training/tket_model.py
index 28fe1a4..06c7ed3 100644
--- a/lambeq/training/tket_model.py
+++ b/lambeq/training/tket_model.py
@@ -98,9 +98,11 @@ class TketModel(QuantumModel):
                     for diagram in diagrams]  # noqa: E501
         measured = self._fast_subs(measured, self.weights)
 
+        params = {'n_shots': self.backend_config['shots'],
+                  **self.backend_config}
         tensors = Circuit.eval(
             *measured,  # type: ignore[arg-type]
-            **self.backend_config,
+            **params,
             seed=self._randint()
         )
         self.backend_config['backend'].empty_cache()
-- 
2.43.0


From 2af5c5f6ba3c0a6f19e1f13d2ee8d12766acd392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:50 +0000
Subject: [PATCH 041/114] fix: ignore the case of the listed words in rewrite
 rules

---
 lambeq/rewrite/base.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lambeq/rewrite/base.py b/lambeq/rewrite/base.py
index 2ef4783..e21aee1 100644
--- a/lambeq/rewrite/base.py
+++ b/lambeq/rewrite/base.py
@@ -78,7 +78,7 @@ __all__ = ['CoordinationRewriteRule', 'Rewriter',
 
 from abc import ABC, abstractmethod
 from collections import Counter
-from collections.abc import Container, Iterable
+from collections.abc import Collection, Container, Iterable
 
 from lambeq.backend.grammar import (Box, Cap, Cup, Diagram, Diagrammable,
                                     Functor, grammar, Id, Spider, Swap,
@@ -139,7 +139,7 @@ class SimpleRewriteRule(RewriteRule):
     def __init__(self,
                  cod: Ty,
                  template: Diagrammable,
-                 words: Container[str] | None = None,
+                 words: Collection[str] | None = None,
                  case_sensitive: bool = False) -> None:
         """Instantiate a simple rewrite rule.
 
@@ -152,7 +152,7 @@ class SimpleRewriteRule(RewriteRule):
             placeholder box is replaced by the word in the matched box,
             and can be created using
             :py:meth:`SimpleRewriteRule.placeholder`.
-        words : container of str, optional
+        words : collection of str, optional
             If provided, this is a list of words that are rewritten by
             this rule. If a box does not have one of these words, it is
             not rewritten, even if the codomain matches.  If omitted,
@@ -169,9 +169,12 @@ class SimpleRewriteRule(RewriteRule):
         self.case_sensitive = case_sensitive
 
     def matches(self, box: Box) -> bool:
-        word = box.name if self.case_sensitive else box.name.lower()
-        return box.cod == self.cod and (self.words is None
-                                        or word in self.words)
+        if box.cod != self.cod:
+            return False
+        if self.words is None or box.name in self.words:
+            return True
+        return (not self.case_sensitive
+                and box.name.lower() in {word.lower() for word in self.words})
 
     def rewrite(self, box: Box) -> Diagrammable:
         def replace_placeholder(_, ar: Box) -> Box:
-- 
2.43.0


From 8decf5f6443d8c53db17c075bb248db5c1660502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:16 +0000
Subject: [PATCH 042/114] fix: only rewrite words, not boxes with a domain,
 with word rules

---
 lambeq/rewrite/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambeq/rewrite/base.py b/lambeq/rewrite/base.py
index e21aee1..85af954 100644
--- a/lambeq/rewrite/base.py
+++ b/lambeq/rewrite/base.py
@@ -169,7 +169,7 @@ class SimpleRewriteRule(RewriteRule):
         self.case_sensitive = case_sensitive
 
     def matches(self, box: Box) -> bool:
-        if box.cod != self.cod:
+        if box.cod != self.cod or box.dom != self.template.dom:
             return False
         if self.words is None or box.name in self.words:
             return True
@@ -273,7 +273,8 @@ class CoordinationRewriteRule(RewriteRule):
         self.words = ['and'] if words is None else words
 
     def matches(self, box: Box) -> bool:
-        if box.name in self.words and len(box.cod) % 3 == 0:
+        if (box.name in self.words and not box.dom
+                and len(box.cod) % 3 == 0):
             n = len(box.cod) // 3
             left, mid, right = box.cod[:n], box.cod[n:2*n], box.cod[2*n:]
             return bool(right.r == mid == left.l)
-- 
2.43.0


From 41e1f1da85a111543973c9974fc3b7caaf176269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 043/114] fix: do not combine plain and reversed cups when
 removing cups

---
 lambeq/rewrite/rewrite_diagram.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index d6d1c5f..8a0c43b 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -117,12 +117,17 @@ class RemoveCupsRewriter(DiagramRewriter):
         return True
 
     def _compress_cups(self, diagram: Diagram) -> Diagram:
+        def is_legal(cup: Box) -> bool:
+            n_wires = len(cup.dom) // 2
+            return bool(cup.dom[:n_wires].r == cup.dom[n_wires:])
+
         layers: list[tuple[Box, int]] = []
         for box, offset in zip(diagram.boxes, diagram.offsets):
             nested_cup = (isinstance(box, Cup)
                           and layers
                           and isinstance(layers[-1][0].boxes[0], Cup)
-                          and offset == layers[-1][1] - 1)
+                          and offset == layers[-1][1] - 1
+                          and is_legal(box) == is_legal(layers[-1][0]))
             if nested_cup:
                 dom = box.dom[:1] @ layers[-1][0].dom @ box.dom[1:]
                 layers[-1] = (Box(CUP_TOKEN, dom, Ty()), offset)
-- 
2.43.0


From 955b381b5d5624f9edd2437f4f779d5cbfcd87a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:44 +0000
Subject: [PATCH 044/114] fix: several detached cups, and last words, when
 removing swaps

---
 lambeq/rewrite/rewrite_diagram.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index 8a0c43b..8667f66 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -337,8 +337,8 @@ class RemoveSwapsRewriter(DiagramRewriter):
             for mor in morphisms:
                 if (isinstance(mor.morphism, Cup) and mor.start in rng
                         and mor.end in rng):
-                    del scan[mor.start - wrd.offset:
-                             mor.start - wrd.offset + 2]
+                    scan.remove(mor.start)
+                    scan.remove(mor.end)
                     mor.deleted = True
 
             if len(scan) == len(rng):
@@ -348,6 +348,18 @@ class RemoveSwapsRewriter(DiagramRewriter):
                 # word type has been reduced in length
                 typ = Ty().tensor(*[atomic_types[i] for i in scan])
                 new_words.append(Word(wrd.word.name, typ))
+            elif w_idx + 1 == len(words) and new_words:
+                # the last word has been eliminated, merge its label
+                # with the previous one
+                prev_wrd = new_words.pop()
+                new_words.append(Word(f'{prev_wrd.name} {wrd.word.name}',
+                                      prev_wrd.cod))
+            elif w_idx + 1 == len(words):
+                # all the words have been eliminated, keep the last one
+                new_words.append(wrd.word)
+                for mor in morphisms:
+                    if mor.start in rng:
+                        mor.deleted = False
             else:
                 # word type has been eliminated, merge word label
                 # with next one
@@ -368,15 +380,13 @@ class RemoveSwapsRewriter(DiagramRewriter):
         mor_offsets: list[int] = []
         for m_idx, m in enumerate(morphisms):
             if not m.deleted:
-                # morphism is not deleted, add it with its offset
+                # morphism is not deleted, add it with its offset,
+                # adjusted for the cups to its left that were applied
+                # after it and are now deleted
+                n_deleted = sum(d.deleted and d.start < m.start
+                                for d in morphisms[m_idx + 1:])
                 new_morphisms.append(m.morphism)
-                mor_offsets.append(m.offset)
-            else:
-                # cup is deleted, adjust all above offsets if required
-                for j in range(m_idx):
-                    if (not morphisms[j].deleted
-                            and morphisms[j].start > morphisms[m_idx].start):
-                        mor_offsets[j] -= 2
+                mor_offsets.append(m.offset - 2 * n_deleted)
 
         new_diag = Id(diagram.dom)
         for box, offset in zip(new_words+new_morphisms,
-- 
2.43.0


From baa78cebee4e2e0f9c4dc7c9614a15aa594110c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 045/114] fix: raise CCGParseError for categories with
 unbracketed operators

---
 lambeq/text2diagram/ccg_type.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lambeq/text2diagram/ccg_type.py b/lambeq/text2diagram/ccg_type.py
index 1f6b35e..63ea438 100644
--- a/lambeq/text2diagram/ccg_type.py
+++ b/lambeq/text2diagram/ccg_type.py
@@ -382,7 +382,11 @@ class CCGType:
                     cat,
                     f'input ended with unmatched "(" at index {start}'
                 )
-            assert cat[end] == ')'
+            if cat[end] != ')':
+                raise CCGParseError(
+                    cat,
+                    f'unexpected {repr(cat[end])} at index {end}'
+                )
             end += 1
 
         return biclosed_type, end
-- 
2.43.0


From 5cf0d29c8027201066fda73c6723d1d04c960f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 046/114] fix: replace inside CCG types that contain the empty
 type

---
 lambeq/text2diagram/ccg_type.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lambeq/text2diagram/ccg_type.py b/lambeq/text2diagram/ccg_type.py
index 63ea438..75de348 100644
--- a/lambeq/text2diagram/ccg_type.py
+++ b/lambeq/text2diagram/ccg_type.py
@@ -396,7 +396,7 @@ class CCGType:
 
         if self == original:
             return replacement
-        elif self.is_atomic:
+        elif not self.is_complex:
             return self
         else:
             new_result = self.result.replace(original, replacement)
@@ -491,7 +491,7 @@ class CCGType:
         """
         if not (len(direction) in (1, 2) and set(direction).issubset(r'\|/')):
             raise ValueError(f'Invalid direction: `{direction}`')
-        if self.is_atomic:
+        if not self.is_complex:
             return self, None
 
         # `replace` indicates whether `self.result` should be replaced,
@@ -500,7 +500,7 @@ class CCGType:
         # - `self.result` is an atomic type
         # - `self.direction` does not match the required operation
         # - attempting to replace any inner category fails
-        replace = self.result == original or self.result.is_atomic
+        replace = self.result == original or not self.result.is_complex
         if not replace:
             if self.direction != direction[-1] != '|':
                 replace = True
-- 
2.43.0


From 2cc0b5a3e209705ef9a24513711947b2d80680d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:12 +0000
Subject: [PATCH 047/114] fix: look for the result to replace only where the
 direction allows it

---
 lambeq/text2diagram/ccg_type.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lambeq/text2diagram/ccg_type.py b/lambeq/text2diagram/ccg_type.py
index 75de348..1d4ec08 100644
--- a/lambeq/text2diagram/ccg_type.py
+++ b/lambeq/text2diagram/ccg_type.py
@@ -496,11 +496,13 @@ class CCGType:
 
         # `replace` indicates whether `self.result` should be replaced,
         # due to one of the following conditions being true:
-        # - `self.result` matches `original`
+        # - `self.result` matches `original`, and may be replaced there
         # - `self.result` is an atomic type
         # - `self.direction` does not match the required operation
         # - attempting to replace any inner category fails
-        replace = self.result == original or not self.result.is_complex
+        replace = (not self.result.is_complex
+                   or (self.result == original
+                       and direction[0] in ('|', self.direction)))
         if not replace:
             if self.direction != direction[-1] != '|':
                 replace = True
-- 
2.43.0


From 7c9c4801e8ed5c916e0fcd4dc750cfbbaa7a64ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 048/114] fix: read CCG trees whose JSON has null children

---
 lambeq/text2diagram/ccg_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index 0c156fa..913f1ff 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -160,7 +160,7 @@ class CCGTree:
                    rule=data_dict.get('rule', CCGRule.UNKNOWN),
                    biclosed_type=CCGType.parse(data_dict['type']),
                    children=[cls.from_json(child)
-                             for child in data_dict.get('children', [])])
+                             for child in data_dict.get('children') or []])
 
     def without_trivial_unary_rules(self) -> CCGTree:
         """Create a new CCGTree from the current tree, with all
-- 
2.43.0


From c1f30014a8f7347ec1885258832cb7aa68b71413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 049/114] fix: unary rules that swap the sides of different
 types

---
 lambeq/text2diagram/ccg_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index 913f1ff..7e8ee09 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -392,11 +392,11 @@ class CCGTree:
                 #  Ty() << (Ty() << Y)       -> Y.l.l
                 # (Ty() << (Ty() << Y)) >> X -> Y.l.l.r @ X = Y.l @ X
                 other_direction = '\\' if output.direction == '/' else '/'
-                resolved_dom = (output.argument.slash(
+                resolved_dom = (output.result.slash(
                     other_direction,
                     CCGType().slash(
                         output.direction,
-                        CCGType().slash(output.direction, output.result)
+                        CCGType().slash(output.direction, output.argument)
                     )
                 ),)
             else:
-- 
2.43.0


From 540ea161c444722a5eb1f67fc8e054693346e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 050/114] fix: planar diagrams of generalised crossed
 compositions of phrases

---
 lambeq/text2diagram/ccg_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index 7e8ee09..185e22a 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -503,7 +503,7 @@ class CCGTree:
             inner = right_words >> right_diag
             cups = Diagram.cups(join, join.r)
             mid = (Id(join) @ inner) >> (cups @ Id(inner.cod[len(join):]))
-            diag = Id(left) @ mid @ Id(right)
+            diag = left_diag >> Id(left) @ mid @ Id(right)
         elif planar and (self.rule
                          == CCGRule.GENERALIZED_FORWARD_CROSSED_COMPOSITION):
             (left_words, left_diag), (words, right_diag) = children
@@ -514,7 +514,7 @@ class CCGTree:
             inner = left_words >> left_diag
             cups = Diagram.cups(join.l, join)
             mid = (inner @ Id(join)) >> (Id(inner.cod[:-len(join)]) @ cups)
-            diag = Id(left) @ mid @ Id(right)
+            diag = right_diag >> Id(left) @ mid @ Id(right)
         else:
             words, diag = [Id().tensor(*d) for d in zip(*children)]
             diag >>= this_layer
-- 
2.43.0


From ff495878c9bf3a595ad8ca7c55f0c91f7066cd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 051/114] fix: height of CCG trees without trivial unary rules

---
 lambeq/text2diagram/ccg_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index 185e22a..7dc7940 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -182,6 +182,9 @@ class CCGTree:
             new_tree = new_tree.children[0]
         new_tree.children = [child.without_trivial_unary_rules() for child
                              in new_tree.children]
+        if new_tree.children:
+            new_tree.height = 1 + max(child.height for child
+                                      in new_tree.children)
         return new_tree
 
     def to_json(self) -> _JSONDictT:
-- 
2.43.0


From a731ff4f64dd086da063a1abf0ed7f885f8fb2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:30 +0000
Subject: [PATCH 052/114] fix: change the type of phrases that a type-raised
 phrase is applied to

---
 lambeq/text2diagram/ccg_tree.py | 41 +++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index 7dc7940..ddcab50 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -29,6 +29,19 @@ from lambeq.text2diagram.ccg_type import CCGType
 # Types
 _JSONDictT = Dict[str, Any]
 
+TYPE_RAISING_RULES = (CCGRule.FORWARD_TYPE_RAISING,
+                      CCGRule.BACKWARD_TYPE_RAISING)
+FORWARD_RULES = (CCGRule.FORWARD_APPLICATION,
+                 CCGRule.FORWARD_COMPOSITION,
+                 CCGRule.FORWARD_CROSSED_COMPOSITION,
+                 CCGRule.GENERALIZED_FORWARD_COMPOSITION,
+                 CCGRule.GENERALIZED_FORWARD_CROSSED_COMPOSITION)
+BACKWARD_RULES = (CCGRule.BACKWARD_APPLICATION,
+                  CCGRule.BACKWARD_COMPOSITION,
+                  CCGRule.BACKWARD_CROSSED_COMPOSITION,
+                  CCGRule.GENERALIZED_BACKWARD_COMPOSITION,
+                  CCGRule.GENERALIZED_BACKWARD_CROSSED_COMPOSITION)
+
 
 class CCGTree:
     """Derivation tree for a CCG.
@@ -365,9 +378,9 @@ class CCGTree:
         - unary rules that involve a swap in the direction of the type
         are not changed.
         - conjunctions are replaced by applications.
-        - one other special case: rewriting the type of a forward
-        composition which has a type-raising child requires special
-        handling to ensure that the composed (middle) type is correct.
+        - one other special case: rewriting the result of a type-raised
+        child requires special handling to ensure that its argument (the
+        middle type) is rewritten too.
 
         Resolution starts from the root of the tree, and then rewritten
         types are propagated towards the leaves by recursive calls with
@@ -404,18 +417,26 @@ class CCGTree:
                 ),)
             else:
                 return self.child._resolved(output)
-        elif (rule == CCGRule.FORWARD_COMPOSITION
-                and self.left.rule == CCGRule.FORWARD_TYPE_RAISING):
-            left = output.left
-            right = output.right
-            mid = self.left.biclosed_type.right.left >> left
-
-            resolved_dom = rule.resolve((left << mid, mid << right), output)
         else:
             child_types = [child.biclosed_type
                            for child in self.children]
             resolved_dom = rule.resolve(child_types, output)
 
+            functor = (0 if rule in FORWARD_RULES
+                       else 1 if rule in BACKWARD_RULES else None)
+            if (functor is not None
+                    and self.children[functor].rule in TYPE_RAISING_RULES):
+                raised = child_types[functor]
+                result = resolved_dom[functor].result
+                if result != raised.result:
+                    mid = result.slash(raised.argument.direction,
+                                       raised.argument.argument)
+                    other = child_types[1 - functor]
+                    child_types[functor] = result.slash(raised.direction, mid)
+                    child_types[1 - functor] = other.replace(raised.argument,
+                                                             mid)
+                    resolved_dom = rule.resolve(child_types, output)
+
             if rule == CCGRule.CONJUNCTION:
                 if self.children[0].biclosed_type.is_conjoinable:
                     rule = CCGRule.FORWARD_APPLICATION
-- 
2.43.0


From a278d3095fb43df1d021cae06798dd921f5faa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 053/114] fix: no tree for suppressed CCGBank errors about
 extra text

---
 lambeq/text2diagram/ccgbank_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lambeq/text2diagram/ccgbank_parser.py b/lambeq/text2diagram/ccgbank_parser.py
index e51f362..eac763c 100644
--- a/lambeq/text2diagram/ccgbank_parser.py
+++ b/lambeq/text2diagram/ccgbank_parser.py
@@ -381,6 +381,7 @@ class CCGBankParser(CCGParser):
                     raise CCGBankParseError(f'extra text from index {pos+1} - '
                                             f'{repr(sentence[pos:])}')
             except Exception as e:
+                tree = None
                 if not suppress_exceptions:
                     raise CCGBankParseError(sentence, str(e)) from e
             trees.append(tree)
-- 
2.43.0


From d9478b2f4489b82b5e140e1f84b641327b4e35b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:42 +0000
Subject: [PATCH 054/114] fix: substitute weights at every level of nested
 controlled gates

---
 lambeq/training/quantum_model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lambeq/training/quantum_model.py b/lambeq/training/quantum_model.py
index be21a0b..f849a38 100644
--- a/lambeq/training/quantum_model.py
+++ b/lambeq/training/quantum_model.py
@@ -138,8 +138,6 @@ class QuantumModel(Model):
         for diagram in diagrams:
             for b in diagram.boxes:
                 if b.free_symbols:
-                    while hasattr(b, 'controlled'):
-                        b = b.controlled
                     syms, values = [], []
                     for sym in b.free_symbols:
                         syms.append(sym)
@@ -149,8 +147,12 @@ class QuantumModel(Model):
                             raise KeyError(
                                 f'Unknown symbol: {repr(sym)}'
                             ) from e
+                    # Controlled boxes pass their data on to the box they
+                    # control, so all levels stay in agreement.
                     b.data = lambdify(syms, b.data)(*values)  # type: ignore[attr-defined] # noqa: E501
-                    del b.free_symbols
+                    while b is not None:
+                        b.__dict__.pop('free_symbols', None)
+                        b = getattr(b, 'controlled', None)
         return diagrams
 
     @abstractmethod
-- 
2.43.0


From eaa4d2392d6385ae3b8be66ff93b92d1b0791aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:30 +0000
Subject: [PATCH 055/114] fix: tell circuits with different controlled gates
 apart in dictionaries

---
 lambeq/backend/quantum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index a93ed5e..d666598 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -606,7 +606,10 @@ class Diagram(tensor.Diagram):
 
         return nodes, inputs + outputs
 
-    __hash__: Callable[[], int] = tensor.Diagram.__hash__
+    def __hash__(self) -> int:
+        # The representation does not tell how controlled gates are
+        # connected, the hashes of the boxes do.
+        return hash((repr(self), *map(hash, self.boxes)))
 
 
 class SelfConjugate(Box):
-- 
2.43.0


From 2d4951e96f59ea75809a08783e6e9c5bd4b0a609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:43 +0000
Subject: [PATCH 056/114] fix: compare daggered quantum boxes that hold arrays

---
 lambeq/backend/quantum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index d666598..eaed110 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1181,6 +1181,7 @@ class Daggered(tensor.Daggered, Box):
 
     __hash__: Callable[[Box], int] = Box.__hash__   # type: ignore[assignment]
     __repr__: Callable[[Box], str] = Box.__repr__   # type: ignore[assignment]
+    __eq__ = tensor.Daggered.__eq__
 
 
 class Bit(Box):
-- 
2.43.0


From abe7af31e870f1e9fbe6b6e417ce3b126edda10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:04 +0000
Subject: [PATCH 057/114] fix: keep traced nodes when contracting with cached
 paths

---
 lambeq/training/tn_path_optimizer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lambeq/training/tn_path_optimizer.py b/lambeq/training/tn_path_optimizer.py
index 377a1bc..34e80c6 100644
--- a/lambeq/training/tn_path_optimizer.py
+++ b/lambeq/training/tn_path_optimizer.py
@@ -319,8 +319,12 @@ def ordered_nodes_contractor(
         if not edge.is_disabled:
             # if it is disabled we already contracted it
             if edge.is_trace():
-                nodes_set.remove(edge.node1)
-                nodes_set.add(contract_parallel(edge))
+                # keep the traced node at the place of the original one
+                traced = edge.node1
+                new_node = contract_parallel(edge)
+                nodes = [new_node if n is traced else n for n in nodes]
+                nodes_set.remove(traced)
+                nodes_set.add(new_node)
 
     if len(nodes_set) == 1:
         # There's nothing to contract.
-- 
2.43.0


From 424bc2205bfd30f4983c096e70e48c83bbdad113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:04 +0000
Subject: [PATCH 058/114] fix: scaled symbols in PytorchModel

---
 lambeq/training/pytorch_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lambeq/training/pytorch_model.py b/lambeq/training/pytorch_model.py
index f4cc86d..7aab9e8 100644
--- a/lambeq/training/pytorch_model.py
+++ b/lambeq/training/pytorch_model.py
@@ -165,11 +165,13 @@ class PytorchModel(Model, torch.nn.Module):
             for b in diagram.boxes:
                 if isinstance(b.data, Symbol):
                     try:
-                        b.data = parameters[b.data]  # type: ignore[attr-defined]  # noqa: E501
+                        weight = parameters[b.data.unscaled]
                     except KeyError as e:
                         raise KeyError(
                             f'Unknown symbol: {repr(b.data)}'
                         ) from e
+                    b.data = (weight if b.data.scale == 1  # type: ignore[attr-defined]  # noqa: E501
+                              else b.data.scale * weight)
 
         with backend('pytorch'), tn.DefaultBackend('pytorch'):
             return torch.stack(
-- 
2.43.0


From 1f5e508082bb416ac888060e6c3df29e09c1b41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:11 +0000
Subject: [PATCH 059/114] fix: concrete rotations in the pytorch backend

---
 lambeq/backend/quantum.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index eaed110..b182618 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -902,8 +902,8 @@ class Rx(AntiConjugate, Rotation):
     def array(self):
         with backend() as np:
             half_theta = np.pi * self.phase
-            sin = self.modules.sin(half_theta)
-            cos = self.modules.cos(half_theta)
+            sin = self.modules.sin(np.array(half_theta))
+            cos = self.modules.cos(np.array(half_theta))
 
             I_arr = np.eye(2)
             X_arr = np.array([[0, 1], [1, 0]])
@@ -918,8 +918,8 @@ class Ry(SelfConjugate, Rotation):
     def array(self):
         with backend() as np:
             half_theta = np.pi * self.phase
-            sin = self.modules.sin(half_theta)
-            cos = self.modules.cos(half_theta)
+            sin = self.modules.sin(np.array(half_theta))
+            cos = self.modules.cos(np.array(half_theta))
 
             I_arr = np.eye(2)
             Y_arr = np.array([[0, 1j], [-1j, 0]])
-- 
2.43.0


From e7ff40a1a4270192da23e5ca3a4b8cd14eba6c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:18 +0000
Subject: [PATCH 060/114] fix: arrays of controlled gates in the pytorch
 backend

---
 lambeq/backend/quantum.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index b182618..2e58737 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1021,16 +1021,27 @@ class Controlled(Parametrized):
         with backend() as np:
             controlled, distance = self.controlled, self.distance
 
-            n_qubits = len(self.dom)
-            if distance == 1:
-                d = 1 << n_qubits - 1
-                part1 = np.array([[1, 0], [0, 0]])
-                part2 = np.array([[0, 0], [0, 1]])
-                array = (np.kron(part1, np.eye(d))
-                         + np.kron(part2,
-                                   np.array(controlled.array.reshape(d, d))))
-            else:
-                array = self.decompose().eval()
+            n_qubits, n_targets = len(self.dom), len(controlled.dom)
+            d = 1 << n_targets
+            zeros = np.zeros((d, d))
+            unitary = np.array(controlled.array.reshape(d, d))
+            array = np.concatenate(
+                (np.concatenate((np.eye(d), zeros), 1),
+                 np.concatenate((zeros, unitary), 1)), 0)
+            if distance != 1:
+                # Wires are: control, targets, skipped. Move them in place.
+                n_skipped = n_qubits - n_targets - 1
+                array = np.kron(array, np.eye(1 << n_skipped))
+                array = array.reshape(*[2] * 2 * n_qubits)
+                if distance > 0:
+                    wires = [0, *range(n_skipped + 1, n_qubits),
+                             *range(1, n_skipped + 1)]
+                else:
+                    wires = [n_qubits - 1, *range(n_qubits - 1)]
+                array = np.moveaxis(
+                    array,
+                    tuple(range(2 * n_qubits)),
+                    (*wires, *(n_qubits + w for w in wires)))
             return array.reshape(*[2] * 2 * n_qubits)
 
     def dagger(self):
-- 
2.43.0


From 8b43867745b2aad34c71d07a98e635680ff26cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:48 +0000
Subject: [PATCH 061/114] fix: PennyLaneModel uses the weights it holds

---
 lambeq/training/pennylane_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/training/pennylane_model.py b/lambeq/training/pennylane_model.py
index 9c572b6..7541fde 100644
--- a/lambeq/training/pennylane_model.py
+++ b/lambeq/training/pennylane_model.py
@@ -175,6 +175,9 @@ class PennyLaneModel(Model, torch.nn.Module):
             Resulting tensor.
 
         """
+        # The weights may have been replaced since they were initialised.
+        self.symbol_weight_map = dict(zip(self.symbols, self.weights))
+
         circuit_evals = []
         for d in diagrams:
             p_circ = self.circuit_map[d]
-- 
2.43.0


From f14a076dc5d481c5ce3c07f8812fa611ebb53f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:57 +0000
Subject: [PATCH 062/114] fix: PennyLaneModel keeps the batch dimension of
 scalars

---
 lambeq/training/pennylane_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/training/pennylane_model.py b/lambeq/training/pennylane_model.py
index 7541fde..0a2948c 100644
--- a/lambeq/training/pennylane_model.py
+++ b/lambeq/training/pennylane_model.py
@@ -191,8 +191,8 @@ class PennyLaneModel(Model, torch.nn.Module):
                 circuit_evals = [c / torch.sum(torch.square(torch.abs(c)))
                                  for c in circuit_evals]
 
-        stacked = torch.stack(circuit_evals)
-        stacked = stacked.squeeze(-1)
+        # A scalar may have shape () or (1, ); never drop the batch dimension.
+        stacked = torch.stack([c.squeeze(-1) for c in circuit_evals])
 
         if self._probabilities:
             return stacked.to(self.weights[0].dtype)
-- 
2.43.0


From 5b1abd5896042f629ea8478ba73945374e7c1d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:57 +0000
Subject: [PATCH 063/114] fix: circuits with gates after the last
 post-selection are not circuital

---
 lambeq/backend/quantum.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 2e58737..71dd424 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -307,16 +307,15 @@ class Diagram(tensor.Diagram):
             if len(qubit_layer.right):
                 return False
 
-        # Check there are no gates in between post-selections.
+        # Check there are no gates after a post-selection.
         measure_idx = [i for i, layer in enumerate(layers[num_qubits:])
                        if isinstance(layer.box, (Discard, Bra))]
         if not measure_idx:
             return True
-        mmax = max(measure_idx)
         mmin = min(measure_idx)
         for i, gate in enumerate(layers[num_qubits:]):
             if not isinstance(gate.box, (Discard, Bra, Measure)):
-                if i > mmin and i < mmax:
+                if i > mmin:
                     return False
 
         return True
-- 
2.43.0


From 69896d1f99348208c2f80a2562d8c58c7d4768d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:20 +0000
Subject: [PATCH 064/114] fix: PennyLane circuits with adjoint gates can be
 saved

---
 lambeq/backend/pennylane.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index d55f771..6377545 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -41,6 +41,7 @@ associated weights should be passed to `eval()` as `symbols=` and
 
 from __future__ import annotations
 
+from functools import partial
 from itertools import product
 import sys
 from typing import List, Set, Tuple, TYPE_CHECKING, Union
@@ -84,6 +85,12 @@ OP_MAP = {
 }
 
 
+def _apply_adjoint(op, *params, wires):
+    """Apply the adjoint of an operation (unlike the result of
+    `qml.adjoint`, this can be pickled)."""
+    return qml.adjoint(op)(*params, wires=wires)
+
+
 def extract_ops_from_circuital(
     gates: List['Gate']
 ) -> Tuple[
@@ -115,7 +122,7 @@ def extract_ops_from_circuital(
         The wires/qubits to apply the operation to.
 
     """
-    ops = [qml.adjoint(OP_MAP[x.gtype]) if x.dagger
+    ops = [partial(_apply_adjoint, OP_MAP[x.gtype]) if x.dagger
            else OP_MAP[x.gtype] for x in gates]
     qubits = [x.qubits for x in gates]
     params: list[Union[Symbol, float, int,
-- 
2.43.0


From fdf8080b52551d7c36db5419d7b6ef25693c5573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:21 +0000
Subject: [PATCH 065/114] fix: name the path in the error of Checkpoint.to_file

---
 lambeq/training/checkpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/training/checkpoint.py b/lambeq/training/checkpoint.py
index 7eb8036..59c7919 100644
--- a/lambeq/training/checkpoint.py
+++ b/lambeq/training/checkpoint.py
@@ -130,6 +130,6 @@ class Checkpoint(Mapping):
                 pickle.dump(self.entries, ckp)
         except FileNotFoundError as e:
             raise FileNotFoundError(
-                'The directory does not exist. Check path `{path}`'
+                f'The directory does not exist. Check path `{path}`'
             ) from e
         self.entries = {}
-- 
2.43.0


From 99fa29d2fa75d96017438717d0be3d63631e181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:09 +0000
Subject: [PATCH 066/114] fix: forget compiled diagrams when NumpyModel loads a
 checkpoint

---
 lambeq/training/numpy_model.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lambeq/training/numpy_model.py b/lambeq/training/numpy_model.py
index f45efb0..3056a97 100644
--- a/lambeq/training/numpy_model.py
+++ b/lambeq/training/numpy_model.py
@@ -35,6 +35,7 @@ from numpy.typing import ArrayLike
 from lambeq.backend import numerical_backend
 from lambeq.backend.quantum import Diagram as Circuit
 from lambeq.backend.tensor import Diagram
+from lambeq.training.checkpoint import Checkpoint
 from lambeq.training.quantum_model import QuantumModel
 
 if TYPE_CHECKING:
@@ -60,6 +61,21 @@ class NumpyModel(QuantumModel):
         self.use_jit = use_jit
         self.lambdas: dict[Diagram, Callable[..., Any]] = {}
 
+    def _load_checkpoint(self, checkpoint: Checkpoint) -> None:
+        """Load the model weights and symbols from a lambeq
+        :py:class:`.Checkpoint`.
+
+        Parameters
+        ----------
+        checkpoint : Checkpoint
+            Checkpoint containing the model weights, symbols and
+            additional information.
+
+        """
+        super()._load_checkpoint(checkpoint)
+        # Compiled diagrams refer to the previous symbols.
+        self.lambdas = {}
+
     def _get_lambda(self, diagram: Diagram) -> Callable[[Any], Any]:
         """Get lambda function that evaluates the provided diagram.
 
-- 
2.43.0


From 2b5c17e721463c096c29609f02914a3663fe24d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 067/114] fix: skip strings in nested training data

---
 lambeq/training/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/training/dataset.py b/lambeq/training/dataset.py
index 7b2243b..766e8d9 100644
--- a/lambeq/training/dataset.py
+++ b/lambeq/training/dataset.py
@@ -155,5 +155,5 @@ def flatten(diagrams: Iterable[Any]) -> Iterator[Diagram]:
             yield d
         elif isinstance(d, Mapping):
             yield from flatten(d.values())
-        elif isinstance(d, Iterable):
+        elif isinstance(d, Iterable) and not isinstance(d, (str, bytes)):
             yield from flatten(d)
-- 
2.43.0


From 23f250d9965da49716cd1f7a26475f1d739da638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:57 +0000
Subject: [PATCH 068/114] fix: Rotosolve wraps negative angles around instead
 of reflecting them

---
 lambeq/training/rotosolve_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/training/rotosolve_optimizer.py b/lambeq/training/rotosolve_optimizer.py
index af15e4c..76acf1c 100644
--- a/lambeq/training/rotosolve_optimizer.py
+++ b/lambeq/training/rotosolve_optimizer.py
@@ -77,7 +77,7 @@ class RotosolveOptimizer(Optimizer):
 
     @staticmethod
     def project(x: np.ndarray) -> np.ndarray:
-        return abs(x) % 1
+        return x % 1
 
     def backward(self,
                  batch: tuple[Iterable[Any], np.ndarray]) -> float:
-- 
2.43.0


From bf1677937671ad8f954c2efe94d9cd8e7930276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:57 +0000
Subject: [PATCH 069/114] fix: optimise on batches without diagrams

---
 lambeq/training/nelder_mead_optimizer.py | 2 +-
 lambeq/training/spsa_optimizer.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/training/nelder_mead_optimizer.py b/lambeq/training/nelder_mead_optimizer.py
index 6b2377c..2e608cd 100644
--- a/lambeq/training/nelder_mead_optimizer.py
+++ b/lambeq/training/nelder_mead_optimizer.py
@@ -288,7 +288,7 @@ class NelderMeadOptimizer(Optimizer):
         # try to extract the relevant parameters from the diagrams
         diags = [diag.free_symbols
                  for diag in diags_gen if isinstance(diag, Diagram)]
-        relevant_params: Set[SympySymbol] | Set[Symbol] = set.union(*diags)
+        relevant_params: Set[SympySymbol] | Set[Symbol] = set().union(*diags)
         if not relevant_params:
             relevant_params = set(parameters)
         mask = np.array([int(sym in relevant_params) for sym in parameters])
diff --git a/lambeq/training/spsa_optimizer.py b/lambeq/training/spsa_optimizer.py
index 63cf524..56295f5 100644
--- a/lambeq/training/spsa_optimizer.py
+++ b/lambeq/training/spsa_optimizer.py
@@ -143,7 +143,7 @@ class SPSAOptimizer(Optimizer):
         x = self.model.weights
 
         # try to extract the relevant parameters from the diagrams
-        relevant_params: Set[SympySymbol] | Set[Symbol] = set.union(
+        relevant_params: Set[SympySymbol] | Set[Symbol] = set().union(
             *[diag.free_symbols for diag in diags_gen
               if isinstance(diag, Diagram)])
         if not relevant_params:
-- 
2.43.0


From 7e76eeda830148067247d2f2c29925bc7a7170b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:57 +0000
Subject: [PATCH 070/114] fix: SPSA with parameters that the bounds hold in
 place

---
 lambeq/training/spsa_optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lambeq/training/spsa_optimizer.py b/lambeq/training/spsa_optimizer.py
index 56295f5..a5fd904 100644
--- a/lambeq/training/spsa_optimizer.py
+++ b/lambeq/training/spsa_optimizer.py
@@ -170,7 +170,10 @@ class SPSAOptimizer(Optimizer):
         if self.bounds is None:
             grad = (loss0 - loss1) / (2 * self.ck * delta)
         else:
-            grad = (loss0 - loss1) / (xplus - xminus)
+            # Parameters that the bounds hold in place have no gradient.
+            diff = xplus - xminus
+            grad = np.divide(loss0 - loss1, diff,
+                             out=np.zeros(len(x)), where=diff != 0)
 
         self.gradient += grad * mask
 
-- 
2.43.0


From 01a30481d5d5816af2983f10f776a4a5826ca1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:57 +0000
Subject: [PATCH 071/114] fix: SPSA goes on with the restored hyperparameters

---
 lambeq/training/spsa_optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/training/spsa_optimizer.py b/lambeq/training/spsa_optimizer.py
index a5fd904..3a0d923 100644
--- a/lambeq/training/spsa_optimizer.py
+++ b/lambeq/training/spsa_optimizer.py
@@ -195,8 +195,8 @@ class SPSAOptimizer(Optimizer):
         self.current_sweep += 1
         a_decay = (self.current_sweep+self.A)**self.alpha
         c_decay = (self.current_sweep)**self.gamma
-        self.ak = self.hyperparams['a']/a_decay
-        self.ck = self.hyperparams['c']/c_decay
+        self.ak = self.a/a_decay
+        self.ck = self.c/c_decay
 
     def state_dict(self) -> dict[str, Any]:
         """Return optimizer states as dictionary.
-- 
2.43.0


From 115d957e854cf095078448476d0efc39b85e4371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:57 +0000
Subject: [PATCH 072/114] fix: Nelder-Mead goes on with the restored
 coefficients

---
 lambeq/training/nelder_mead_optimizer.py | 27 ++++++++++++++----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/lambeq/training/nelder_mead_optimizer.py b/lambeq/training/nelder_mead_optimizer.py
index 2e608cd..0fa0e00 100644
--- a/lambeq/training/nelder_mead_optimizer.py
+++ b/lambeq/training/nelder_mead_optimizer.py
@@ -140,17 +140,7 @@ class NelderMeadOptimizer(Optimizer):
         self.xatol = hyperparams.get('xatol', 1e-4)
         self.fatol = hyperparams.get('fatol', 1e-4)
 
-        if self.adaptive:
-            self.dim = float(len(self.model.weights))
-            self.rho = 1
-            self.chi = 1 + 2 / self.dim
-            self.psi = 0.75 - 1 / (2 * self.dim)
-            self.sigma = 1 - 1 / self.dim
-        else:
-            self.rho = 1
-            self.chi = 2
-            self.psi = 0.5
-            self.sigma = 0.5
+        self._set_coefficients()
 
         self.nonzdelt = 0.05
         self.zdelt = 0.00025
@@ -218,6 +208,20 @@ class NelderMeadOptimizer(Optimizer):
         self.fsim = np.full((self.N + 1,), np.inf, dtype=float)
         self.first_iter = True  # flag for first iteration
 
+    def _set_coefficients(self) -> None:
+        """Set the coefficients of the simplex transformations."""
+        if self.adaptive:
+            self.dim = float(len(self.model.weights))
+            self.rho = 1
+            self.chi = 1 + 2 / self.dim
+            self.psi = 0.75 - 1 / (2 * self.dim)
+            self.sigma = 1 - 1 / self.dim
+        else:
+            self.rho = 1
+            self.chi = 2
+            self.psi = 0.5
+            self.sigma = 0.5
+
     def project(self, x: np.ndarray) -> np.ndarray:
         if self.bounds is None:
             return x
@@ -415,6 +419,7 @@ class NelderMeadOptimizer(Optimizer):
 
         """
         self.adaptive = state_dict['adaptive']
+        self._set_coefficients()
         self.initial_simplex = state_dict['initial_simplex']
         self.xatol = state_dict['xatol']
         self.fatol = state_dict['fatol']
-- 
2.43.0


From 83aad06b75b5f6ddcb3eb6534cb20035fafed552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:57 +0000
Subject: [PATCH 073/114] fix: the state of Nelder-Mead is a snapshot

---
 lambeq/training/nelder_mead_optimizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lambeq/training/nelder_mead_optimizer.py b/lambeq/training/nelder_mead_optimizer.py
index 0fa0e00..3842786 100644
--- a/lambeq/training/nelder_mead_optimizer.py
+++ b/lambeq/training/nelder_mead_optimizer.py
@@ -402,8 +402,8 @@ class NelderMeadOptimizer(Optimizer):
             'initial_simplex': self.initial_simplex,
             'xatol': self.xatol,
             'fatol': self.fatol,
-            'sim': self.sim,
-            'fsim': self.fsim,
+            'sim': self.sim.copy(),
+            'fsim': self.fsim.copy(),
             'ncalls': self.ncalls,
             'first_iter': self.first_iter,
             'current_sweep': self.current_sweep,
@@ -423,8 +423,8 @@ class NelderMeadOptimizer(Optimizer):
         self.initial_simplex = state_dict['initial_simplex']
         self.xatol = state_dict['xatol']
         self.fatol = state_dict['fatol']
-        self.sim = state_dict['sim']
-        self.fsim = state_dict['fsim']
+        self.sim = np.array(state_dict['sim'])
+        self.fsim = np.array(state_dict['fsim'])
         self.ncalls = state_dict['ncalls']
         self.first_iter = state_dict['first_iter']
         self.current_sweep = state_dict['current_sweep']
-- 
2.43.0


From 0750811366c61a879246d829f422aca9d72a8ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:16 +0000
Subject: [PATCH 074/114] fix: keep the best model when training resumes

---
 lambeq/training/trainer.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lambeq/training/trainer.py b/lambeq/training/trainer.py
index 2e426dc..cc94b1d 100644
--- a/lambeq/training/trainer.py
+++ b/lambeq/training/trainer.py
@@ -568,6 +568,17 @@ class Trainer(ABC):
         with backend(self.backend):
             early_stopping = False
             best_val_criterion = float('inf')
+            if self.from_checkpoint:
+                # the best model so far was saved by the previous run
+                for i, val in enumerate(
+                    self.val_costs if early_stopping_criterion is None
+                    else self.val_eval_results[early_stopping_criterion]
+                ):
+                    if factor * val < best_val_criterion:
+                        best_val_criterion = factor * val
+                        best_step = (i + 1) * evaluation_step
+                        best_epoch = ceil(
+                            best_step / train_dataset.batches_per_epoch)
             for epoch in trange(self.start_epoch,
                                 self.epochs + 1,
                                 desc='Epoch',
-- 
2.43.0


From e1d8eeb1a336d5cb8edf21335af1c89bee28cb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:16 +0000
Subject: [PATCH 075/114] fix: keep the pending training metrics when training
 resumes

---
 lambeq/training/trainer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lambeq/training/trainer.py b/lambeq/training/trainer.py
index cc94b1d..198fc7c 100644
--- a/lambeq/training/trainer.py
+++ b/lambeq/training/trainer.py
@@ -272,6 +272,8 @@ class Trainer(ABC):
         self.train_epoch_costs = checkpoint['train_epoch_costs']
         self.train_epoch_durations = checkpoint['train_epoch_durations']
         self.train_eval_results = checkpoint['train_eval_results']
+        self._train_eval_running = checkpoint.get('train_eval_running',
+                                                  self._train_eval_running)
         self.val_costs = checkpoint['val_costs']
         self.val_durations = checkpoint['val_durations']
         self.val_eval_results = checkpoint['val_eval_results']
@@ -707,6 +709,7 @@ class Trainer(ABC):
                                  'train_durations': self.train_durations,
                                  'train_epoch_costs': self.train_epoch_costs,
                                  'train_eval_results': self.train_eval_results,
+                                 'train_eval_running': self._train_eval_running,  # noqa: E501
                                  'val_costs': self.val_costs,
                                  'val_durations': self.val_durations,
                                  'train_epoch_durations': self.train_epoch_durations,   # noqa: E501
@@ -793,6 +796,7 @@ class Trainer(ABC):
                      'train_durations': self.train_durations,
                      'train_epoch_costs': self.train_epoch_costs,
                      'train_eval_results': self.train_eval_results,
+                     'train_eval_running': self._train_eval_running,
                      'train_epoch_durations': self.train_epoch_durations,
                      'val_costs': self.val_costs,
                      'val_durations': self.val_durations,
-- 
2.43.0


From 8bc79ad98ce081c3a87b7cdec3109bf7120fd349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:30 +0000
Subject: [PATCH 076/114] fix: refuse early stopping criteria when there are no
 metrics

---
 lambeq/training/trainer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lambeq/training/trainer.py b/lambeq/training/trainer.py
index 198fc7c..3181b57 100644
--- a/lambeq/training/trainer.py
+++ b/lambeq/training/trainer.py
@@ -536,13 +536,13 @@ class Trainer(ABC):
             raise ValueError(f'Invalid evaluation mode: {eval_mode}.')
 
         # check that early stopping critera is in available list
+        evaluate_functions = self.evaluate_functions or {}
         if (early_stopping_criterion is not None
-                and self.evaluate_functions is not None
-                and early_stopping_criterion not in self.evaluate_functions):
+                and early_stopping_criterion not in evaluate_functions):
             raise ValueError('Invalid early stopping criterion: '
                              f'{early_stopping_criterion}. '
                              'Should be one of '
-                             f'{self.evaluate_functions.keys()}')
+                             f'{evaluate_functions.keys()}')
 
         # Used for early stopping
         factor = 1 if minimize_criterion else -1
-- 
2.43.0


From c4737792534945da484c17fd1345425680563405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:44 +0000
Subject: [PATCH 077/114] fix: log and evaluate at the end of each epoch when
 the interval is None

---
 lambeq/training/quantum_trainer.py |  4 ++--
 lambeq/training/trainer.py         | 26 +++++++++++++++++---------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/lambeq/training/quantum_trainer.py b/lambeq/training/quantum_trainer.py
index 0a02309..cdea7b7 100644
--- a/lambeq/training/quantum_trainer.py
+++ b/lambeq/training/quantum_trainer.py
@@ -191,8 +191,8 @@ class QuantumTrainer(Trainer):
     def fit(self,
             train_dataset: Dataset,
             val_dataset: Dataset | None = None,
-            log_interval: int = 1,
-            eval_interval: int = 1,
+            log_interval: int | None = 1,
+            eval_interval: int | None = 1,
             eval_mode: str = EvalMode.EPOCH.value,
             early_stopping_criterion: str | None = None,
             early_stopping_interval: int | None = None,
diff --git a/lambeq/training/trainer.py b/lambeq/training/trainer.py
index 3181b57..19a588c 100644
--- a/lambeq/training/trainer.py
+++ b/lambeq/training/trainer.py
@@ -475,8 +475,8 @@ class Trainer(ABC):
     def fit(self,
             train_dataset: Dataset,
             val_dataset: Dataset | None = None,
-            log_interval: int = 1,
-            eval_interval: int = 1,
+            log_interval: int | None = 1,
+            eval_interval: int | None = 1,
             eval_mode: str = EvalMode.EPOCH.value,
             early_stopping_criterion: str | None = None,
             early_stopping_interval: int | None = None,
@@ -529,12 +529,17 @@ class Trainer(ABC):
 
         # calculate evaluation step
         if eval_mode == EvalMode.EPOCH.value:
-            evaluation_step = eval_interval * train_dataset.batches_per_epoch
+            unit = train_dataset.batches_per_epoch
         elif eval_mode == EvalMode.STEP.value:
-            evaluation_step = eval_interval
+            unit = 1
         else:
             raise ValueError(f'Invalid evaluation mode: {eval_mode}.')
 
+        if eval_interval is None:
+            evaluation_step = train_dataset.batches_per_epoch
+        else:
+            evaluation_step = eval_interval * unit
+
         # check that early stopping critera is in available list
         evaluate_functions = self.evaluate_functions or {}
         if (early_stopping_criterion is not None
@@ -549,7 +554,11 @@ class Trainer(ABC):
         best_epoch = 0
         best_step = 0
 
-        logging_step = log_interval * evaluation_step
+        if log_interval is None:
+            logging_step = train_dataset.batches_per_epoch
+        else:
+            logging_step = log_interval * evaluation_step
+        n_evals = max(1, logging_step // evaluation_step)
         total_steps = self.epochs * train_dataset.batches_per_epoch
 
         # initialise progress bar
@@ -740,15 +749,14 @@ class Trainer(ABC):
                                 self.train_durations else None
                             )
                             train_duration_mean = (
-                                train_duration
-                                / (log_interval * eval_interval)
+                                train_duration / (logging_step / unit)
                             ) if train_duration else None
                             val_duration = (
-                                sum(self.val_durations[-log_interval:]) if
+                                sum(self.val_durations[-n_evals:]) if
                                 self.val_durations else None
                             )
                             val_duration_mean = (
-                                val_duration / log_interval
+                                val_duration / n_evals
                             ) if val_duration else None
                             print(
                                 prefix + self._generate_stat_report(
-- 
2.43.0


From c3066c5b8cb2f3dc3ef0235012b5b4deafa94887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:44 +0000
Subject: [PATCH 078/114] fix: report the validation time of whole evaluations

---
 lambeq/training/trainer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lambeq/training/trainer.py b/lambeq/training/trainer.py
index 19a588c..55d2330 100644
--- a/lambeq/training/trainer.py
+++ b/lambeq/training/trainer.py
@@ -752,8 +752,10 @@ class Trainer(ABC):
                                 train_duration / (logging_step / unit)
                             ) if train_duration else None
                             val_duration = (
-                                sum(self.val_durations[-n_evals:]) if
-                                self.val_durations else None
+                                sum(self.val_durations[
+                                    -n_evals * batches_per_validation:]) if
+                                val_dataset is not None
+                                and self.val_durations else None
                             )
                             val_duration_mean = (
                                 val_duration / n_evals
-- 
2.43.0


From 88575fd77b081575f645e9a820a0df713e6a71d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:44 +0000
Subject: [PATCH 079/114] fix: training goes on when Nelder-Mead has converged

---
 lambeq/training/nelder_mead_optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/training/nelder_mead_optimizer.py b/lambeq/training/nelder_mead_optimizer.py
index 3842786..6dcc0c7 100644
--- a/lambeq/training/nelder_mead_optimizer.py
+++ b/lambeq/training/nelder_mead_optimizer.py
@@ -361,6 +361,9 @@ class NelderMeadOptimizer(Optimizer):
                     self.fsim[j] = self.objective(diagrams,
                                                   targets,
                                                   self.sim[j])
+        else:
+            # converged: only make the predictions for this batch
+            self.objective(diagrams, targets, self.sim[0])
 
         self.ind = np.argsort(self.fsim)
         self.sim = self.sim.take(self.ind, 0)
-- 
2.43.0


From db310d2cce1547a694e9e2254f45f5de2ca6982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:12 +0000
Subject: [PATCH 080/114] fix: CachedTnPathOptimizer makes the folder of its
 file, not a folder in its place

---
 lambeq/training/tn_path_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/training/tn_path_optimizer.py b/lambeq/training/tn_path_optimizer.py
index 34e80c6..74d6854 100644
--- a/lambeq/training/tn_path_optimizer.py
+++ b/lambeq/training/tn_path_optimizer.py
@@ -194,7 +194,7 @@ class CachedTnPathOptimizer(TnPathOptimizer):
                     self.cached_paths = pickle.load(f)
             except FileNotFoundError:
                 # Make sure the path exists for future use.
-                self.filepath.mkdir(parents=True, exist_ok=True)
+                self.filepath.parent.mkdir(parents=True, exist_ok=True)
             except EOFError:
                 # No previous paths present; continue.
                 pass
-- 
2.43.0


From e733611fc84536c0621ada3425387fa56ca13cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:34 +0000
Subject: [PATCH 081/114] fix: DisCoPy discards, measurements and encodings of
 several wires

---
 lambeq/backend/converters/discopy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/converters/discopy.py b/lambeq/backend/converters/discopy.py
index dd59e17..ff3a949 100644
--- a/lambeq/backend/converters/discopy.py
+++ b/lambeq/backend/converters/discopy.py
@@ -236,14 +236,14 @@ def convert_quantum_d2l(box: dq.Box) -> lq.Box | lq.Diagram:
     elif isinstance(box, (dq.Discard, dq.Encode)):
         lq_box = cast(type[Union[lq.Discard, lq.Encode]],
                       QUANTUM_MAPPINGS_D2L[type(box)])
-        op = lq_box()
+        op = lq.Id().tensor(*[lq_box() for _ in box.dom])
 
     elif isinstance(box, dq.Measure):
         if not box.destructive:
             raise NotImplementedError(f'Non-destructive measurement {box} '
                                       'not supported.')
         lq_box = cast(type[lq.Measure], QUANTUM_MAPPINGS_D2L[type(box)])
-        op = lq_box()
+        op = lq.Id().tensor(*[lq_box() for _ in box.dom])
 
     else:
         try:
-- 
2.43.0


From cde1a1d062e674af4f3326ad8069b525f844fdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:16 +0000
Subject: [PATCH 082/114] fix: the CLI loads the stored mode

---
 lambeq/cli.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index c97079b..9669a6a 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -176,7 +176,6 @@ def prepare_parser() -> argparse.ArgumentParser:
             '--mode',
             type=str,
             choices=['string-diagram', 'pregroups', 'ccg'],
-            default=DEFAULT_ARG_VALUES['mode'],
             help='Mode used for the output. Default value: '
                  f'{DEFAULT_ARG_VALUES["mode"]}')
 
@@ -374,7 +373,7 @@ def validate_args(cl_args: argparse.Namespace) -> None:
         if cl_args.parser is not None and cl_args.parser != 'bobcat':
             raise ValueError('A CCG parser is needed for CCG mode.')
     if cl_args.output_format in ['text-ascii', 'text-unicode', 'json']:
-        if cl_args.mode in ['string-diagram', 'pregroups']:
+        if cl_args.mode != 'ccg':
             if cl_args.ansatz is not None:
                 raise ValueError('Only string and pregroup diagrams can be '
                                  f'stored in {cl_args.output_format} format. '
-- 
2.43.0


From 247ec71cd884f0e6f72d0d37ad272ade4b523b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:16 +0000
Subject: [PATCH 083/114] fix: the CLI keeps the image type given in the output
 file name

---
 lambeq/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index 9669a6a..c471958 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -591,7 +591,7 @@ class DiagramSaveModule(CLIModule):
                 else:
                     image_path = cl_args.output_file
                     file_name, file_extension = os.path.splitext(image_path)
-                    if file_extension not in AVAILABLE_IMAGE_TYPES:
+                    if file_extension[1:] not in AVAILABLE_IMAGE_TYPES:
                         image_path = f'{file_name}.{cl_args.image_format}'
                 draw_args: dict[str, Any] = {'path': image_path}
                 if ('fig_width' in cl_args.output_options
-- 
2.43.0


From 4efd14d31681592c7561d2cbcb33d68e533e98d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 084/114] fix: options without a value are usage errors of the
 CLI

---
 lambeq/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index c471958..0e54d4b 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -100,8 +100,8 @@ class ArgumentList:
                                  f'an instance of {v.__name__}.')
 
     def __contains__(self, argument: str) -> bool:
-        key, value = argument.split('=')
         try:
+            key, value = argument.split('=')
             _ = self.valid_args[key](value)
             return True
         except (KeyError, ValueError):
-- 
2.43.0


From 3d04ac50398f66e9534388cae040b7d1f2481148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 085/114] fix: the CLI gives the root categories to a Bobcat
 parser asked for by name

---
 lambeq/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index 0e54d4b..6f88a03 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -441,7 +441,7 @@ class ParserModule(CLIModule):
             read_sents = reader.sentences2diagrams(sentences,
                                                    tokenised=cl_args.tokenise)
             return [sent for sent in read_sents if sent is not None]
-        elif cl_args.parser is not None:
+        elif cl_args.parser not in (None, 'bobcat'):
             parser = AVAILABLE_PARSERS[cl_args.parser]()
         else:
             parser = AVAILABLE_PARSERS['bobcat'](
-- 
2.43.0


From 739f28218bab4101dd57ad6d2cdc80f927371832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 086/114] =?UTF-8?q?fix:=20the=20CLI=20has=20defaults=20for?=
 =?UTF-8?q?=20the=20options=20of=20ans=C3=A4tze?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 lambeq/cli.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index 6f88a03..7470451 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -123,6 +123,14 @@ class ArgumentList:
         return ', '.join(options)
 
 
+ANSATZ_OPTIONS = ArgumentList([('dim_n', int, 2),
+                               ('dim_s', int, 2),
+                               ('n_layers', int, 2),
+                               ('n_single_qubit_params', int, 3),
+                               ('bond_dim', int, 3),
+                               ('max_order', int, 3)])
+
+
 class ArgumentListValidator(argparse.Action):
     """Class that checks the validity of ArgumentList inputs.
     Made compatible with argparse."""
@@ -303,24 +311,17 @@ def prepare_parser() -> argparse.ArgumentParser:
             choices=AVAILABLE_ANSATZE.keys(),
             help='Ansatz to be used. This determines if the result will be a '
                  'quantum circuit or a tensor network.')
-    ansatz_arglist = ArgumentList([('dim_n', int, 2),
-                                   ('dim_s', int, 2),
-                                   ('n_layers', int, 2),
-                                   ('n_single_qubit_params', int, 3),
-                                   ('bond_dim', int, 3),
-                                   ('max_order', int, 3)])
-
     ansatz_group.add_argument(
             '-n',
             '--ansatz_options',
             nargs='*',
-            choices=ansatz_arglist,
+            choices=ANSATZ_OPTIONS,
             action=ArgumentListValidator,
             default={},
             metavar='KEY=VAR',
             help='A list of `keyword=value` items that define options for the '
                  'selected ansatz. Available options are '
-                 f'{ansatz_arglist.all_options()}.')
+                 f'{ANSATZ_OPTIONS.all_options()}.')
 
     config_group = parser.add_argument_group(
                           title='Configuration',
@@ -490,14 +491,16 @@ class AnsatzModule(CLIModule):
         S = lambeq.core.types.AtomicType.SENTENCE
         if cl_args.ansatz is None:
             return module_input
-        n_dim = cl_args.ansatz_options['dim_n']
-        s_dim = cl_args.ansatz_options['dim_s']
+        ansatz_options = {**ANSATZ_OPTIONS.default_values,
+                          **cl_args.ansatz_options}
+        n_dim = ansatz_options['dim_n']
+        s_dim = ansatz_options['dim_s']
 
         ansatz_type: type[BaseAnsatz]
         ansatz_type = AVAILABLE_ANSATZE[cl_args.ansatz.casefold()]
 
         supported_args, *_ = inspect.getfullargspec(ansatz_type.__init__)
-        remaining_args = {k: v for k, v in cl_args.ansatz_options.items()
+        remaining_args = {k: v for k, v in ansatz_options.items()
                           if k in supported_args}
 
         ansatz: BaseAnsatz
-- 
2.43.0


From 96e1b7ca922f164ce81bae14f4c7d38e3ccb4ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:20 +0000
Subject: [PATCH 087/114] fix: normalise_duration carries rounded seconds over
 to the minutes

---
 lambeq/core/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lambeq/core/utils.py b/lambeq/core/utils.py
index 7c7d7ad..dac2da4 100644
--- a/lambeq/core/utils.py
+++ b/lambeq/core/utils.py
@@ -74,6 +74,10 @@ def normalise_duration(duration_secs: float | None) -> str:
     seconds_in_hour = 60 * 60
     seconds_in_min = 60
 
+    if round(duration_secs, 2) >= seconds_in_min:
+        # Round before splitting, as 59.7 seconds are another minute.
+        duration_secs = round(duration_secs)
+
     days = floor(duration_secs / seconds_in_day)
     duration_secs -= days * seconds_in_day
     hours = floor(duration_secs / seconds_in_hour)
-- 
2.43.0


From 85a1ac88df5afbaaebecfb9cf2c2a1771dbb5bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:52 +0000
Subject: [PATCH 088/114] fix: trees with crossing branches become diagrams

---
 .../text2diagram/pregroup_tree_converter.py   | 58 +++++++++----------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/lambeq/text2diagram/pregroup_tree_converter.py b/lambeq/text2diagram/pregroup_tree_converter.py
index 4e56ff9..fe39c9e 100644
--- a/lambeq/text2diagram/pregroup_tree_converter.py
+++ b/lambeq/text2diagram/pregroup_tree_converter.py
@@ -823,10 +823,8 @@ def tree2diagram(
             morphisms.append(('Cup', sn, en))
 
     morphisms = sorted(morphisms, key=lambda t: abs(t[1] - t[2]) - 1)
-    free_wires_morphisms_inds = {}
     for free_wire in free_wires:
         morphisms.append(('Free', free_wire, free_wire))
-        free_wires_morphisms_inds[free_wire] = len(morphisms) - 1
 
     # Build words
     word_boxes = []
@@ -842,37 +840,35 @@ def tree2diagram(
     n_morphisms = len(morphisms)
     for i in range(n_morphisms):
         m_t, m_l, m_r = morphisms[i]
+        # Ends of other wires in between the ends of this one, from left
+        # to right. Anything nested in this cup has been removed before.
+        inside = sorted((end, j) for j in range(i + 1, n_morphisms)
+                        for end in {*morphisms[j][1:]} if m_l < end < m_r)
+        slots = [m_l, *(end for end, _ in inside), m_r]
+        wires = [i, *(j for _, j in inside), i]
+        right = len(wires) - 1
         swaps = []
-        for j in range(i + 1, n_morphisms):
+        # Cups that go on to the right of this one are moved there, past
+        # all wires that do not
+        for k in reversed(range(1, right)):
+            if morphisms[wires[k]][2] > m_r:
+                swaps.extend(('Swap', *slots[x:x + 2])
+                             for x in range(k, right))
+                wires.insert(right, wires.pop(k))
+                right -= 1
+        # Free wires and the other cups are moved to the left
+        swaps.extend(('Swap', *slots[x:x + 2]) for x in range(right - 1))
+        wires.insert(right - 1, wires.pop(0))
+
+        for slot, j in zip(slots, wires):
             o_t, o_l, o_r = morphisms[j]
-            if o_l == o_r and m_l < o_l < m_r:
-                # o_l == o_r indicates a free string
-                swaps.append(('Swap', m_l, o_l))
-                morphisms[j] = (o_t, m_l, m_l)
-                m_l = o_l
-            if o_l != o_r:
-                # Always introduce swaps with the free wires
-                # if they are in between wires that will get swapped
-                if o_l < m_l < o_r < m_r:
-                    for (free_wire,
-                         free_wire_ind) in free_wires_morphisms_inds.items():
-                        if m_l < free_wire < o_r:
-                            swaps.append(('Swap', m_l, free_wire))
-                            morphisms[free_wire_ind] = ('Free', m_l, m_l)
-                            m_l = free_wire
-                    swaps.append(('Swap', m_l, o_r))
-                    morphisms[j] = (o_t, o_l, m_l)
-                    m_l = o_r
-                elif m_l < o_l < m_r < o_r:
-                    for (free_wire,
-                         free_wire_ind) in free_wires_morphisms_inds.items():
-                        if o_l < free_wire < m_r:
-                            swaps.append(('Swap', o_l, free_wire))
-                            morphisms[free_wire_ind] = ('Free', o_l, o_l)
-                            o_l = free_wire
-                    swaps.append(('Swap', o_l, m_r))
-                    morphisms[j] = (o_t, m_r, o_r)
-                    m_r = o_l
+            if o_l == o_r:
+                morphisms[j] = (o_t, slot, slot)
+            elif o_l < m_l:
+                morphisms[j] = (o_t, o_l, slot)
+            elif o_r > m_r:
+                morphisms[j] = (o_t, slot, o_r)
+        m_l, m_r = slots[right - 1:right + 1]
 
         new_morphism = (m_t, m_l, m_r)
         new_morphisms.extend(swaps)
-- 
2.43.0


From ffe77436d7c626ace33f4d70418eec2383e8a7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:54 +0000
Subject: [PATCH 089/114] fix: diagrams with caps become pregroup trees

---
 .../text2diagram/pregroup_tree_converter.py   | 134 +++++-------------
 1 file changed, 32 insertions(+), 102 deletions(-)

diff --git a/lambeq/text2diagram/pregroup_tree_converter.py b/lambeq/text2diagram/pregroup_tree_converter.py
index fe39c9e..847f73f 100644
--- a/lambeq/text2diagram/pregroup_tree_converter.py
+++ b/lambeq/text2diagram/pregroup_tree_converter.py
@@ -63,76 +63,25 @@ def diagram2tree(diagram: Diagram,
             words.append((l.box, li))
             curr_typ_ind += len(l.box.cod)
         elif isinstance(l.box, (Cup, Swap, Cap)):
-            if not types_ind:
+            if not boxes_absolute:
                 types_ind = list(range(len(types)))
 
             left_len = len(l.left)
-            right_len = len(l.right)
-            left_cod = types_ind[:left_len]
-
-            box_ends = []
-            if right_len:
-                right_cod = types_ind[-right_len:]
-                box_ends = types_ind[left_len:-right_len]
-            else:
-                right_cod = []
-                box_ends = types_ind[left_len:]
+            box_ends = types_ind[left_len:left_len + len(l.box.dom)]
+            box_cod = box_ends[::-1] if isinstance(l.box, Swap) else []
 
             if isinstance(l.box, Cap):
-                if left_len < len(types_ind):
-                    box_left_end = types_ind[left_len]
-                else:
-                    box_left_end = types_ind[left_len - 1] + 1
-                words_by_typ_index = (words_by_typ_index[:box_left_end]
-                                      + [(None, None), (None, None)]
-                                      + words_by_typ_index[box_left_end:])
-                types = (types[:box_left_end]
-                         + [l.box.left, l.box.right]
-                         + types[box_left_end:])
-
-                box_ends = [box_left_end, box_left_end + 1]
-                new_boxes_absolute = []
-                for box_abs in boxes_absolute:
-                    if box_abs[1] >= box_left_end:
-                        new_boxes_absolute.append((
-                            box_abs[0],
-                            box_abs[1] + 2,
-                            box_abs[2] + 2,
-                        ))
-                        try:
-                            left_cod[left_cod.index(box_abs[1])] += 2
-                            left_cod[left_cod.index(box_abs[2])] += 2
-                        except ValueError:
-                            pass
-                    elif box_abs[2] >= box_left_end:
-                        new_boxes_absolute.append((
-                            box_abs[0],
-                            box_abs[1],
-                            box_abs[2] + 2,
-                        ))
-                        try:
-                            left_cod[left_cod.index(box_abs[2])] += 2
-                        except ValueError:
-                            pass
-                    else:
-                        new_boxes_absolute.append(box_abs)
-                boxes_absolute = new_boxes_absolute
-
-                # update node type indices
-                right_cod = [ind + 2 for ind in right_cod]
+                # The ends of caps are numbered after those of the words
+                box_ends = box_cod = [len(types), len(types) + 1]
+                types.extend(l.box.cod)
+                words_by_typ_index += [(None, None), (None, None)]
 
             assert len(box_ends) == 2
 
             boxes_absolute.append(
                 (type(l.box).__name__, box_ends[0], box_ends[1])
             )
-
-            box_cod = []
-            if isinstance(l.box, Swap):
-                box_cod = [box_ends[1], box_ends[0]]
-            elif isinstance(l.box, Cap):
-                box_cod = box_ends
-            types_ind = left_cod + box_cod + right_cod
+            types_ind[left_len:left_len + len(l.box.dom)] = box_cod
         else:
             raise Exception(f'Unknown box type: {type(l.box)}')
 
@@ -161,49 +110,30 @@ def diagram2tree(diagram: Diagram,
         )
         return root_node
 
-    # Remove caps
-    all_caps = [box for box in boxes_absolute if box[0] == 'Cap']
-    for cap in all_caps:
-        # find cups connected to this cap
-        cups = [box for box in boxes_absolute
-                if (box[0] == 'Cup'
-                    and (cap[1] in box[1:] or cap[2] in box[1:]))]
-
-        if len(cups) == 2:
-            # three cases:
-            if max(cups[0][1], cups[1][1]) < cap[1]:
-                # cap is to the right of cups
-                new_cup_ends = [cups[0][1], cups[1][1]]
-            elif min(cups[0][2], cups[1][2]) > cap[2]:
-                # cap is to the left of cups
-                new_cup_ends = [cups[0][2], cups[1][2]]
-            else:
-                # cap is in the middle of the cups
-                new_cup_ends = [
-                    min(cups[0][1], cups[1][1]),
-                    max(cups[0][2], cups[1][2]),
-                ]
-
-            boxes_absolute.append((
-                'Cup', min(new_cup_ends), max(new_cup_ends)
-            ))
-        elif len(cups) == 1:
-            # this cup-cap can be yanked to the free index
-            snake_inds = [
-                cups[0][1], cups[0][2],
-                cap[1], cap[2]
-            ]
-            assert types_ind[0] in snake_inds
-            if types_ind[0] == min(snake_inds):
-                types_ind = [max(snake_inds)]
-            elif types_ind[0] == max(snake_inds):
-                types_ind = [min(snake_inds)]
-            else:
-                raise Exception('Impossible case when removing caps.')
-
-        for cup in cups:
-            boxes_absolute.remove(cup)
-        boxes_absolute.remove(cap)
+    # Remove caps by following each wire until it ends at a word or at
+    # the codomain of the diagram
+    cap_ends: dict[int, int] = {}
+    cup_ends: dict[int, int] = {}
+    for box_name, left, right in boxes_absolute:
+        if box_name in ('Cap', 'Cup'):
+            ends = cap_ends if box_name == 'Cap' else cup_ends
+            ends[left], ends[right] = right, left
+
+    def _yank(ind: int) -> int:
+        """Find the other end of a wire which arrives from above."""
+        while ind in cup_ends and cup_ends[ind] in cap_ends:
+            ind = cap_ends[cup_ends[ind]]
+        return cup_ends.get(ind, ind)
+
+    free_ends = {_yank(ind): ind for ind in range(len(types))
+                 if ind not in cap_ends}
+    boxes_absolute = [
+        ('Cup', ind, end) for end, ind in free_ends.items()
+        if ind < end and end in cup_ends
+    ]
+    if any(ind not in free_ends for ind in types_ind):
+        raise ValueError('Some free strings are not on the root node.')
+    types_ind = [free_ends[ind] for ind in types_ind]
 
     # Construct the tree from the above data
     root_node = _construct_tree(
-- 
2.43.0


From e69294e3c76e1fffaf6eb8e53e2fd9dbe1b00449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:47 +0000
Subject: [PATCH 090/114] fix: breaking cycles keeps the words below the
 removed nodes

---
 lambeq/text2diagram/pregroup_tree_converter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lambeq/text2diagram/pregroup_tree_converter.py b/lambeq/text2diagram/pregroup_tree_converter.py
index 847f73f..0a152df 100644
--- a/lambeq/text2diagram/pregroup_tree_converter.py
+++ b/lambeq/text2diagram/pregroup_tree_converter.py
@@ -153,8 +153,8 @@ def diagram2tree(diagram: Diagram,
 def remove_cycles(root: PregroupTreeNode) -> None:
     """Break cycles by removing duplicate nodes.
 
-    Duplicate nodes are always leaves of the tree and we remove
-    the shallowest duplicate of the node.
+    We retain the deepest duplicate of the node, which takes over
+    the children of the others.
 
     Parameters
     ----------
@@ -194,6 +194,11 @@ def remove_cycles(root: PregroupTreeNode) -> None:
                         # Remove parent
                         node.parent.children.remove(node)
                         node.parent = None
+                    # Keep the words below the removed node
+                    for child in node.children:
+                        child.parent = nodes_for_idx[idx_to_retain]
+                        child.parent.children.append(child)
+                    node.children = []
 
 
 def _construct_tree(
-- 
2.43.0


From da785db15a97b61e54dc717303f3680e3534cce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:47 +0000
Subject: [PATCH 091/114] fix: height and drawing of a pregroup tree follow its
 changes

---
 lambeq/text2diagram/pregroup_tree.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lambeq/text2diagram/pregroup_tree.py b/lambeq/text2diagram/pregroup_tree.py
index 7ed6a9c..5732729 100644
--- a/lambeq/text2diagram/pregroup_tree.py
+++ b/lambeq/text2diagram/pregroup_tree.py
@@ -13,7 +13,6 @@
 # permissions and limitations under the License.
 
 from dataclasses import dataclass, field
-from functools import cached_property
 from typing import Optional
 
 from lambeq.backend.grammar import Diagram, Ty
@@ -133,7 +132,7 @@ class PregroupTreeNode:
         return (self.word == other.word
                 and self.ind == other.ind)
 
-    @cached_property
+    @property
     def _tree_repr(self) -> str:
         """The string representation of the entire tree."""
         if not self.children:
@@ -159,7 +158,7 @@ class PregroupTreeNode:
         """Draw the tree."""
         print(self._tree_repr)
 
-    @cached_property
+    @property
     def height(self) -> int:
         """The height of the tree."""
         h = 1
-- 
2.43.0


From 13b7d3a97a46ac6ee084c5beb61c02e6db751985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:56 +0000
Subject: [PATCH 092/114] fix: the forced root of Oncilla is a word

---
 lambeq/oncilla/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/oncilla/parser.py b/lambeq/oncilla/parser.py
index 5d88456..73750d4 100644
--- a/lambeq/oncilla/parser.py
+++ b/lambeq/oncilla/parser.py
@@ -799,7 +799,7 @@ class BertForSentenceToTree(BertPreTrainedModel):
         # Use `word_ids` to mask the root logits
         curr_word_id = None
         for i, word_id in enumerate(word_ids):
-            if word_id in {-1000, 0} or curr_word_id == word_id:
+            if word_id in {None, -1000, 0} or curr_word_id == word_id:
                 root_logits[i] = -torch.inf
             curr_word_id = word_id
 
-- 
2.43.0


From 27e6dae9c80a858ed3bd77b7c6f59e0d99dbfec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:05 +0000
Subject: [PATCH 093/114] fix: a word without supertags has no parse

Bobcat returned a parse of the words before it, of any category
---
 lambeq/bobcat/parser.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/lambeq/bobcat/parser.py b/lambeq/bobcat/parser.py
index 14e5909..7435bf2 100644
--- a/lambeq/bobcat/parser.py
+++ b/lambeq/bobcat/parser.py
@@ -211,30 +211,20 @@ class ParseResult:
     ----------
     chart : Chart
         The parse chart.
+    words : list[str]
+        The words in the sentence.
 
     Attributes
     ----------
-    words : list[str]
-        The words in the sentence.
     root : list[str]
         The most probable parse trees, in order.
 
     """
     chart: Chart
-    words: list[str] = field(init=False)
+    words: list[str]
     root: list[ParseTree] = field(init=False)
 
     def __post_init__(self) -> None:
-        self.words = []
-        while True:
-            try:
-                tree = self.chart[len(self.words), len(self.words)][0]
-            except KeyError:
-                break
-            else:
-                while tree.left:
-                    tree = tree.left
-                self.words.append(tree.word)
         try:
             self.root = self.chart[0, len(self.words) - 1]
         except KeyError:
@@ -303,6 +293,9 @@ class ParseResult:
             if max_tree:
                 break
 
+        if max_tree is None:
+            return [], []
+
         left_deps, left_tags = self._skim_deps(start, result_start - 1)
         tree_deps, tree_tags = max_tree.deps_and_tags
         right_deps, right_tags = self._skim_deps(result_end + 1, end)
@@ -464,7 +457,7 @@ class ChartParser:
                                 else:
                                     self.calc_score_unary(tree, span_scores)
                             chart.add(start, end, results)
-        return ParseResult(chart)
+        return ParseResult(chart, list(sentence.words))
 
     def calc_score_unary(self,
                          tree: ParseTree,
-- 
2.43.0


From 4eb50b78000fac623198f50abfa688f69c3838be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:31 +0000
Subject: [PATCH 094/114] fix: spans never get the empty category

The output of a single word without tags was taken for tags
---
 lambeq/bobcat/tagger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/bobcat/tagger.py b/lambeq/bobcat/tagger.py
index 9ad8e31..1ced428 100644
--- a/lambeq/bobcat/tagger.py
+++ b/lambeq/bobcat/tagger.py
@@ -381,7 +381,7 @@ class Tagger:
                     for score, index in zip(scores, indices):
                         if score < threshold:
                             break
-                        elif index != 0 or output_batch == tag_output:
+                        elif index != 0 or output_batch is tag_output:
                             output.append((index, score))
 
         spans_list = [[(*idx2span(i), output)
-- 
2.43.0


From 4fa0aebed4da09b5a3a9fef7173259d2d61b5714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:33 +0000
Subject: [PATCH 095/114] fix: ASCII drawings have ASCII characters only

---
 lambeq/backend/drawing/text_printer.py |  4 ++--
 lambeq/text2diagram/ccg_tree.py        | 12 +++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/lambeq/backend/drawing/text_printer.py b/lambeq/backend/drawing/text_printer.py
index aef8711..cca91d6 100644
--- a/lambeq/backend/drawing/text_printer.py
+++ b/lambeq/backend/drawing/text_printer.py
@@ -56,8 +56,8 @@ UNICODE_CHAR_SET: dict[str, str] = {
 
 ASCII_CHAR_SET: dict[str, str] = {
     'BAR': '|',
-    'TOP_R_CORNER': chr(160),
-    'TOP_L_CORNER': chr(160),
+    'TOP_R_CORNER': ' ',
+    'TOP_L_CORNER': ' ',
     'BOTTOM_L_CORNER': '\\',
     'BOTTOM_R_CORNER': '/',
     'LINE': '_',
diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index ddcab50..57a8e00 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -286,7 +286,7 @@ class CCGTree:
             for i in range(len(lines)):
                 lines[i] = f'{lines[i]:{" "}^{target_len}}'
 
-        rule_symbol = self.rule.symbol
+        rule_symbol = self.rule.symbol.replace('ⁿ', chr_set['POWER'])
         lines.append(f'{rule_symbol:{chr_set["LINE"]}>{target_len}}')
         lines.append(f'{output_type:{" "}^{target_len}}')
 
@@ -328,17 +328,19 @@ class CCGTree:
             'SUCH_THAT': '∋',
             'JOINT': '├',
             'LEFT_ARROW': '←',
-            'CORNER': '└'
+            'CORNER': '└',
+            'POWER': 'ⁿ'
         }
 
         ASCII_CHAR_SET = {
             'HEAVY_LINE': '=',
             'LINE': '-',
-            'BAR': '│',
+            'BAR': '|',
             'SUCH_THAT': '<-',
-            'JOINT': '├',
+            'JOINT': '|',
             'LEFT_ARROW': '<-',
-            'CORNER': '└'
+            'CORNER': '`',
+            'POWER': 'n'
         }
 
         if use_ascii:
-- 
2.43.0


From 862e711f8186e571c3f60fc8587694cccddbb1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:19 +0000
Subject: [PATCH 096/114] fix: wires of text drawings start below their types

---
 lambeq/backend/drawing/text_printer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/drawing/text_printer.py b/lambeq/backend/drawing/text_printer.py
index cca91d6..efa501c 100644
--- a/lambeq/backend/drawing/text_printer.py
+++ b/lambeq/backend/drawing/text_printer.py
@@ -149,14 +149,15 @@ class PregroupTextPrinter(DiagramTextPrinter):
             type_str = type_sep.join(types)
             width = max(len(word), len(type_str))
 
-            last_pos = len(type_line) + (width - len(type_str)) // 2
+            centred = type_str.center(width)
+            last_pos = len(type_line) + len(centred) - len(centred.lstrip())
             for t in types:
                 pos.append(last_pos + (len(t) - 1) // 2)
                 last_pos += len(t) + len(type_sep)
 
             word_line += word.center(width)
             underlines += self.chr_set['LINE'] * width
-            type_line += type_str.center(width)
+            type_line += centred
 
         # process layers
         scan = [*range(len(pos))]
-- 
2.43.0


From 12068e834b4cb6b689aca71fad93969b5859158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:44 +0000
Subject: [PATCH 097/114] fix: long rule symbols keep the columns of
 derivations aligned

---
 lambeq/text2diagram/ccg_tree.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index 57a8e00..21bd795 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -280,13 +280,14 @@ class CCGTree:
                 else:
                     target_len = len(lines[lidx - 1]) if lidx > 0 else 0
                     lines.append(f'{child_deriv[lidx]:{" "}>{target_len}}')
+        rule_symbol = self.rule.symbol.replace('ⁿ', chr_set['POWER'])
         target_len = len(lines[lidx - 1]) if lidx > 0 else 0
-        if len(output_type) > target_len:
-            target_len = len(output_type)
+        min_len = max(len(output_type), len(rule_symbol))
+        if min_len > target_len:
+            target_len = min_len
             for i in range(len(lines)):
                 lines[i] = f'{lines[i]:{" "}^{target_len}}'
 
-        rule_symbol = self.rule.symbol.replace('ⁿ', chr_set['POWER'])
         lines.append(f'{rule_symbol:{chr_set["LINE"]}>{target_len}}')
         lines.append(f'{output_type:{" "}^{target_len}}')
 
-- 
2.43.0


From 6124a40fecba110756be49edab9b19e1e2cb8b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:19 +0000
Subject: [PATCH 098/114] fix: sentences without nouns are part of DisCoCirc
 diagrams

---
 lambeq/experimental/discocirc/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/experimental/discocirc/reader.py b/lambeq/experimental/discocirc/reader.py
index 1e2476c..714a5b0 100644
--- a/lambeq/experimental/discocirc/reader.py
+++ b/lambeq/experimental/discocirc/reader.py
@@ -410,7 +410,7 @@ class DisCoCircReader(Reader):
                   else Spider(NOUN,
                               1,
                               wire_counter[wid])
-                  for wid in range(max(wire_ids)+1)])
+                  for wid in range(max(wire_ids, default=-1)+1)])
 
             permute = Diagram.permutation(NOUN ** len(wire_ids), perm_list)
 
-- 
2.43.0


From 95e1ef75980a1c6972fb87d26f41c7535557bfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:19 +0000
Subject: [PATCH 099/114] fix: a missing noun is not the last word of its
 sentence

---
 lambeq/experimental/discocirc/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/experimental/discocirc/reader.py b/lambeq/experimental/discocirc/reader.py
index 714a5b0..2e1bff9 100644
--- a/lambeq/experimental/discocirc/reader.py
+++ b/lambeq/experimental/discocirc/reader.py
@@ -99,7 +99,7 @@ class DisCoCircReader(Reader):
         if root.typ not in (Ty('s'), Ty('n')):
             root.typ = Ty('s')
             root.children.append(PregroupTreeNode(
-                '', len(sentence)-1, Ty('n'), [], [], []))
+                '', len(sentence), Ty('n'), [], [], []))
         return root
 
     def _tree2circuital(self,
-- 
2.43.0


From c5eaaa3a2a6bbc19f2b63034e82d2da9010468e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:35 +0000
Subject: [PATCH 100/114] fix: every mention of a pruned noun is removed

---
 lambeq/experimental/discocirc/reader.py | 56 ++++++++++---------------
 1 file changed, 21 insertions(+), 35 deletions(-)

diff --git a/lambeq/experimental/discocirc/reader.py b/lambeq/experimental/discocirc/reader.py
index 2e1bff9..200173c 100644
--- a/lambeq/experimental/discocirc/reader.py
+++ b/lambeq/experimental/discocirc/reader.py
@@ -262,39 +262,27 @@ class DisCoCircReader(Reader):
 
         return bigdiag, nouns, noun_inds, noun_cursor
 
-    def _get_index(self, s, pnoun):
-        for j, w in enumerate(s):
-            if w == pnoun:
-                return j
-        return -1
-
     def _prune_indices(self,
                        sentences,
-                       corefs,
-                       pruned_nouns: Iterable[str] = ()):
-        initial_ids = []
-
-        pruned_ids = [[] for _ in sentences]
-        # Find first coref of each pruned noun
-        for pnoun in pruned_nouns:
-            for i, s in enumerate(sentences):
-                j = self._get_index(s, pnoun)
-                if j != -1:
-                    initial_ids.append((i, j))
-                    break
-
-        for i, j in initial_ids:
-            pruned_ids[i].append(j)
-            for p in corefs:
-                if i >= len(p):
-                    break
-                elif j in p[i]:
-                    for h, hword in enumerate(p):
-                        if len(hword) > 0 and h != i:
-                            pruned_ids[h].append(hword[0])
-                    break
-
-        return pruned_ids
+                       corefd: dict[tuple[int, int], tuple[int, int]],
+                       pruned_nouns: Iterable[str] = (),
+                       pruned_entities: Iterable[tuple[int, int]] = ()
+                       ) -> list[list[int]]:
+        """Get the indices in each sentence of every mention of the
+        entities that are pruned, namely the ones given by their first
+        mention and the ones that a pruned noun refers to."""
+
+        pruned_nouns = set(pruned_nouns)
+        pruned = set(pruned_entities)
+
+        for i, sentence in enumerate(sentences):
+            for j, word in enumerate(sentence):
+                if word in pruned_nouns:
+                    pruned.add(corefd.get((i, j), (i, j)))
+
+        return [[j for j in range(len(sentence))
+                 if corefd.get((i, j), (i, j)) in pruned]
+                for i, sentence in enumerate(sentences)]
 
     def text2circuit(self,
                      text: str,
@@ -349,10 +337,8 @@ class DisCoCircReader(Reader):
         freq_pruned_ids = [nid for nid, count in noun_counts.items()
                            if count < min_noun_freq]
 
-        pruned_nouns = set(pruned_nouns).union(
-                        {sentences[i][j] for (i, j) in freq_pruned_ids})
-
-        pruned_ids = self._prune_indices(sentences, corefs, pruned_nouns)
+        pruned_ids = self._prune_indices(sentences, corefd,
+                                         pruned_nouns, freq_pruned_ids)
 
         rewriter = TreeRewriter(rewrite_rules)
 
-- 
2.43.0


From 94717f9445be4bb981c41aac0cbf91dbc98356f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:15 +0000
Subject: [PATCH 101/114] fix: sandwiches have no layer for nouns that are
 moved

---
 lambeq/experimental/discocirc/reader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lambeq/experimental/discocirc/reader.py b/lambeq/experimental/discocirc/reader.py
index 200173c..a4b026c 100644
--- a/lambeq/experimental/discocirc/reader.py
+++ b/lambeq/experimental/discocirc/reader.py
@@ -226,11 +226,12 @@ class DisCoCircReader(Reader):
 
             permute = Diagram.permutation(NOUN ** len(wire_ids), perm_list)
 
-            subdiags.append(permute
-                            >> Id(NOUN ** len(ancilla_nouns)) @ c_subdiag
-                            >> permute.dagger())
+            # The permutations around a noun are not a subdiagram
+            if c_subdiag.layers:
+                subdiags.append(permute
+                                >> Id(NOUN ** len(ancilla_nouns)) @ c_subdiag
+                                >> permute.dagger())
 
-        subdiags = [subdiag for subdiag in subdiags if subdiag.layers]
         if not noun2wire:
             # Floating box, kill
             return Id(), [], [], noun_cursor
-- 
2.43.0


From 490f3ecb52ff8a602fa91a7e33435b20500b9d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:30 +0000
Subject: [PATCH 102/114] fix: boxes with no wires above them are drawn below
 other boxes

---
 lambeq/backend/drawing/drawable.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lambeq/backend/drawing/drawable.py b/lambeq/backend/drawing/drawable.py
index ad792a1..e6025a0 100644
--- a/lambeq/backend/drawing/drawable.py
+++ b/lambeq/backend/drawing/drawable.py
@@ -435,12 +435,11 @@ class DrawableDiagram:
             The x and y coordinates of the box.
         """
 
-        if not scan:
-            return 0, 0
-
         half_width = X_SPACING * (len(box.cod[:-1]) / 2 + 1)
 
-        if not box.dom:
+        if not scan:
+            x: float = 0
+        elif not box.dom:
             if not off:
                 x = self.wire_endpoints[scan[0]].x - half_width
             elif off == len(scan):
@@ -788,12 +787,11 @@ class DrawableDiagramWithFrames(DrawableDiagram):
         """Determines x and y coords for a new box.
         Modifies x coordinates of existing nodes to make space."""
 
-        if not scan:
-            return 0, 0
-
         half_width = X_SPACING * (len(box.cod[:-1]) / 2 + 1)
 
-        if not box.dom:
+        if not scan:
+            x: float = 0
+        elif not box.dom:
             if not off:
                 x = self.wire_endpoints[scan[0]].x - half_width
             elif off == len(scan):
-- 
2.43.0


From 93cf4968c8ccf6ae50a5724dddf580318278b064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:30 +0000
Subject: [PATCH 103/114] fix: empty diagrams and components can be drawn

---
 lambeq/backend/drawing/drawable.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lambeq/backend/drawing/drawable.py b/lambeq/backend/drawing/drawable.py
index e6025a0..573a830 100644
--- a/lambeq/backend/drawing/drawable.py
+++ b/lambeq/backend/drawing/drawable.py
@@ -487,6 +487,9 @@ class DrawableDiagram:
         avoid precomputing the diagram's height.
         """
 
+        if not self.boxes and not self.wire_endpoints:
+            return
+
         min_x = min(
             [node.x for node in self.boxes + self.wire_endpoints])
 
@@ -574,6 +577,9 @@ class DrawableDiagram:
 
         """
 
+        if not self.boxes and not self.wire_endpoints:
+            return
+
         min_x = min([node.x for node in self.boxes + self.wire_endpoints])
         min_y = min([node.y for node in self.boxes + self.wire_endpoints])
 
@@ -1060,6 +1066,9 @@ class DrawableDiagramWithFrames(DrawableDiagram):
             all_xs.extend(box.get_x_lims(self))
             all_ys.extend(box.get_y_lims(self))
 
+        if not all_xs:
+            return 0., 0., 0., 0.
+
         return min(all_xs), min(all_ys), max(all_xs), max(all_ys)
 
     def get_noun_id(self) -> int:
@@ -1560,6 +1569,9 @@ class DrawableDiagramWithFrames(DrawableDiagram):
 
         """
 
+        if not self.boxes and not self.wire_endpoints:
+            return
+
         min_x = min([node.x for node in self.boxes + self.wire_endpoints])
         min_y = min([node.y for node in self.boxes + self.wire_endpoints])
 
-- 
2.43.0


From e8c4210afd43392ab7669081ef0f28b68dd9d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:30 +0000
Subject: [PATCH 104/114] fix: lines of controlled gates reach nested controls
 on the same side

---
 lambeq/backend/drawing/drawing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/drawing/drawing.py b/lambeq/backend/drawing/drawing.py
index d8e3c46..561dc5f 100644
--- a/lambeq/backend/drawing/drawing.py
+++ b/lambeq/backend/drawing/drawing.py
@@ -797,7 +797,7 @@ def _draw_controlled_gate(backend: DrawingBackend,
 
             next_box: quantum.Controlled | quantum.Box = box.controlled
             while isinstance(next_box, quantum.Controlled):
-                if box.distance * next_box.distance < 0:
+                if box.distance * next_box.distance > 0:
                     shift_boundary = False
                     break
                 next_box = next_box.controlled
-- 
2.43.0


From b17324553a362cafe177a4f894e6a6a60060f568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:30 +0000
Subject: [PATCH 105/114] fix: drawing frames with no wire left and no floating
 boxes

---
 lambeq/backend/drawing/drawable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/backend/drawing/drawable.py b/lambeq/backend/drawing/drawable.py
index 573a830..a2d0dbd 100644
--- a/lambeq/backend/drawing/drawable.py
+++ b/lambeq/backend/drawing/drawable.py
@@ -1245,6 +1245,9 @@ class DrawableDiagramWithFrames(DrawableDiagram):
             if box.parent is None and not (box.dom_wires or box.cod_wires):
                 floating_boxes.append(box)
 
+        if not floating_boxes:
+            return
+
         floating_boxes = sorted(
             floating_boxes,
             key=lambda b: b.get_x_lims(self)[0]
-- 
2.43.0


From d0697eadb17ef503c615a23a6b5941970e480646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:30 +0000
Subject: [PATCH 106/114] fix: colours of nouns follow the wires

---
 lambeq/backend/drawing/drawable.py | 81 ++++++++----------------------
 1 file changed, 20 insertions(+), 61 deletions(-)

diff --git a/lambeq/backend/drawing/drawable.py b/lambeq/backend/drawing/drawable.py
index a2d0dbd..8503265 100644
--- a/lambeq/backend/drawing/drawable.py
+++ b/lambeq/backend/drawing/drawable.py
@@ -870,68 +870,41 @@ class DrawableDiagramWithFrames(DrawableDiagram):
         node = BoxNode(box, x_pos, y_pos)
 
         box_ind = self._add_boxnode(node)
-        num_input = len(box.dom)
-        input_nouns = input_nouns or []
-        for i in range(num_input):
-            if i < len(input_nouns):
-                pass
+        dom_nouns = input_nouns[off:off + len(box.dom)]
+
+        if isinstance(box, grammar.Swap):
+            # If Swap, exchange the noun_ids
+            cod_nouns = dom_nouns[::-1]
+        elif isinstance(box, (grammar.Cap, grammar.Spider)):
+            # All the legs belong to the same noun
+            if box.cod and not dom_nouns:
+                cod_nouns = [self.get_noun_id()] * len(box.cod)
             else:
-                # If we run out of input nouns, generate new ones
-                new_color = self.get_noun_id()
-                input_nouns.append(new_color)
+                cod_nouns = dom_nouns[:1] * len(box.cod)
+        else:
+            # If we run out of nouns, generate new ones
+            cod_nouns = dom_nouns[:len(box.cod)]
+            while len(cod_nouns) < len(box.cod):
+                cod_nouns.append(self.get_noun_id())
+
+        input_nouns = (input_nouns[:off] + cod_nouns
+                       + input_nouns[off + len(box.dom):])
 
         # Create a node representing each element in the box's domain
         for i, obj in enumerate(box.dom):
-            idx = off + i
             nbr_idx = scan[off + i]
-            noun_id = (
-                input_nouns[idx] if (input_nouns and idx < len(input_nouns))
-                else self.get_noun_id()
-            )   # generate new noun_id if needed
 
             wire_end = WireEndpoint(WireEndpointType.DOM,
                                     obj=obj,
                                     x=self.wire_endpoints[nbr_idx].x,
                                     y=y_pos + HALF_BOX_HEIGHT,
-                                    noun_id=noun_id)
+                                    noun_id=dom_nouns[i])
 
             wire_idx = self._add_wire_end(wire_end)
             node.add_dom_wire(wire_idx)
             self._add_wire(nbr_idx, wire_idx)
 
         scan_insert = []
-        if isinstance(box, grammar.Swap):
-            # If Swap, exchange the noun_ids
-            if input_nouns and len(box.dom) > 1:
-                dom_idx_1 = off
-                dom_idx_2 = off + 1
-                input_nouns[dom_idx_1], input_nouns[dom_idx_2] = (
-                    input_nouns[dom_idx_2], input_nouns[dom_idx_1]
-                )
-        elif isinstance(node.obj, grammar.Spider):
-            # If Spider, expand or shrink the noun_ids based on type
-            if len(box.dom) == 1 and len(box.cod) > 1:
-                dom_noun = (input_nouns[off] if input_nouns
-                            and off < len(input_nouns)
-                            else self.get_noun_id())
-                expanded_colors = [dom_noun] * len(box.cod)
-                input_nouns = (input_nouns[:off] + expanded_colors
-                               + input_nouns[off + len(box.dom):])
-            elif len(box.dom) > 1 and len(box.cod) == 1:
-                cod_noun = (input_nouns[off] if input_nouns
-                            and off < len(input_nouns)
-                            else self.get_noun_id())
-                input_nouns = (input_nouns[:off] + [cod_noun]
-                               + input_nouns[off + len(box.dom):])
-
-        num_output = off + len(box.cod)
-        for i in range(num_output):
-            if i < len(input_nouns):
-                pass
-            else:
-                # If we run out of input nouns, generate new ones
-                new_color = self.get_noun_id()
-                input_nouns.append(new_color)
 
         # Create a node representing each element in the box's codomain
         for i, obj in enumerate(box.cod):
@@ -942,15 +915,11 @@ class DrawableDiagramWithFrames(DrawableDiagram):
             else:
                 x = x_pos + X_SPACING * (i - len(box.cod[1:]) / 2)
             y = y_pos - HALF_BOX_HEIGHT
-            idx = off + i
-            noun_id = (input_nouns[idx] if input_nouns
-                       and idx < len(input_nouns)
-                       else self.get_noun_id())
             wire_end = WireEndpoint(WireEndpointType.COD,
                                     obj=obj,
                                     x=x,
                                     y=y,
-                                    noun_id=noun_id)
+                                    noun_id=cod_nouns[i])
 
             wire_idx = self._add_wire_end(wire_end)
             scan_insert.append(wire_idx)
@@ -1148,16 +1117,6 @@ class DrawableDiagramWithFrames(DrawableDiagram):
             max_box_half_height = max(max_box_half_height, (box_height / 2))
             min_y = min(min_y, y)
 
-        num_output = len(diagram.cod)
-        # Match output nouns with input nouns as much as possible
-        for i in range(num_output):
-            if i < len(input_nouns):
-                pass
-            else:
-                # If we run out of input nouns, generate new ones
-                new_color = drawable.get_noun_id()
-                input_nouns.append(new_color)
-
         for i, obj in enumerate(diagram.cod):
             wire_end = WireEndpoint(
                 WireEndpointType.OUTPUT,
-- 
2.43.0


From 141cadc6a8f264ee848afdb3e49b90d1232b2964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:30 +0000
Subject: [PATCH 107/114] fix: components are drawn inside their frames

---
 lambeq/backend/drawing/drawable.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lambeq/backend/drawing/drawable.py b/lambeq/backend/drawing/drawable.py
index 8503265..b814278 100644
--- a/lambeq/backend/drawing/drawable.py
+++ b/lambeq/backend/drawing/drawable.py
@@ -1370,8 +1370,7 @@ class DrawableDiagramWithFrames(DrawableDiagram):
         # 2) the width computed for the tightest box
         #    that can contain all the components
         frame_w = max(frame_w, frame_wire_based_width)
-        frame_drawable_x_offset = (frame_outer_box_left
-                                   + frame_wire_based_width / 2 - frame_x)
+        frame_drawable_x_offset = frame_outer_box.x - frame_x
 
         # Adjust size of the outer box based on the above data
         frame_outer_box.w, frame_outer_box.h = frame_w, frame_h
-- 
2.43.0


From db95df607662fc829ab6a9934b76f33e0539daac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:23 +0000
Subject: [PATCH 108/114] fix: leave the tokenised batch given to DepCCGParser
 as it is

---
 lambeq/text2diagram/depccg_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lambeq/text2diagram/depccg_parser.py b/lambeq/text2diagram/depccg_parser.py
index 3d844a7..b1a26a4 100644
--- a/lambeq/text2diagram/depccg_parser.py
+++ b/lambeq/text2diagram/depccg_parser.py
@@ -259,6 +259,7 @@ class DepCCGParser(CCGParser):
             if TYPE_CHECKING:  # temporary fix
                 from typing import cast     # noqa: I100
                 sentences = cast(list[list[str]], sentences)
+            sentences = list(sentences)
         else:
             if not untokenised_batch_type_check(sentences):
                 raise ValueError('`tokenised` set to `False`, but variable '
-- 
2.43.0


From ff70df7cf732b42ce87d404f4878bad6591a9aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:23 +0000
Subject: [PATCH 109/114] fix: look up web parsers regardless of case

---
 lambeq/text2diagram/web_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/text2diagram/web_parser.py b/lambeq/text2diagram/web_parser.py
index ee15246..e4dd7da 100644
--- a/lambeq/text2diagram/web_parser.py
+++ b/lambeq/text2diagram/web_parser.py
@@ -66,7 +66,7 @@ class WebParser(CCGParser):
         if parser.lower() not in SERVICE_URLS:
             raise ValueError(f'Unknown web parser: {parser}')
 
-        self.service_url = SERVICE_URLS[parser]
+        self.service_url = SERVICE_URLS[parser.lower()]
         if not VerbosityLevel.has_value(verbose):
             raise ValueError(f'`{verbose}` is not a valid verbose value for '
                              'WebParser.')
-- 
2.43.0


From f9e26e09cb6293b6d01202f30d1ba520f80ff786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:23 +0000
Subject: [PATCH 110/114] fix: fall back to the cached model when the
 connection is lost

---
 lambeq/text2diagram/model_based_reader/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/text2diagram/model_based_reader/base.py b/lambeq/text2diagram/model_based_reader/base.py
index 189175f..6106d1a 100644
--- a/lambeq/text2diagram/model_based_reader/base.py
+++ b/lambeq/text2diagram/model_based_reader/base.py
@@ -27,6 +27,7 @@ from abc import abstractmethod
 from pathlib import Path
 from typing import Any
 
+from requests import RequestException
 import torch
 
 from lambeq.core.globals import VerbosityLevel
@@ -113,7 +114,7 @@ class ModelBasedReader(Reader):
                     or downloader.model_is_stale()):
                 try:
                     downloader.download_model(self.verbose)
-                except ModelDownloaderError as e:
+                except (ModelDownloaderError, RequestException) as e:
                     local_model_version = downloader.get_local_model_version()
 
                     if (self.model_dir.is_dir()
-- 
2.43.0


From e85921296349fde48ff9132e897a2c470fb5ccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:23 +0000
Subject: [PATCH 111/114] fix: an interrupted update does not pass for the
 former version

---
 lambeq/text2diagram/model_based_reader/model_downloader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/text2diagram/model_based_reader/model_downloader.py b/lambeq/text2diagram/model_based_reader/model_downloader.py
index 4496379..10ae0d9 100644
--- a/lambeq/text2diagram/model_based_reader/model_downloader.py
+++ b/lambeq/text2diagram/model_based_reader/model_downloader.py
@@ -208,6 +208,9 @@ class ModelDownloader:
 
             model_file.close()
 
+            # An interrupted update must not pass for the old version
+            (self.model_dir / VERSION_FNAME).unlink(missing_ok=True)
+
             # Copy extracted model to model_dir
             copytree(extraction_target,
                      str(self.model_dir),
-- 
2.43.0


From 841a72b2aa4adcf89fbe2aa0b236e82679e69da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:23 +0000
Subject: [PATCH 112/114] fix: report truncated model archives as download
 errors

---
 lambeq/text2diagram/model_based_reader/model_downloader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambeq/text2diagram/model_based_reader/model_downloader.py b/lambeq/text2diagram/model_based_reader/model_downloader.py
index 10ae0d9..a3fd953 100644
--- a/lambeq/text2diagram/model_based_reader/model_downloader.py
+++ b/lambeq/text2diagram/model_based_reader/model_downloader.py
@@ -23,6 +23,7 @@ import tarfile
 import tempfile
 from typing import IO
 import warnings
+import zlib
 
 import requests
 from tqdm import TqdmWarning
@@ -200,10 +201,10 @@ class ModelDownloader:
             try:
                 tar = tarfile.open(fileobj=model_file)
                 tar.extractall(extraction_target)
-            except tarfile.TarError as e:
+            except (tarfile.TarError, EOFError, OSError, zlib.error) as e:
                 model_file.close()
                 raise ModelDownloaderError(
-                    'Failed to extract compressed model {self.model}'
+                    f'Failed to extract compressed model {self.model}'
                 ) from e
 
             model_file.close()
-- 
2.43.0


From 9b3d5b78f2c317145cd40a6f7e2397e1c200fe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:23 +0000
Subject: [PATCH 113/114] fix: do not take error pages for the version of a
 model

---
 .../model_based_reader/model_downloader.py            | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lambeq/text2diagram/model_based_reader/model_downloader.py b/lambeq/text2diagram/model_based_reader/model_downloader.py
index a3fd953..b8a98f9 100644
--- a/lambeq/text2diagram/model_based_reader/model_downloader.py
+++ b/lambeq/text2diagram/model_based_reader/model_downloader.py
@@ -226,14 +226,21 @@ class ModelDownloader:
         ver_url = self.model_url + '/' + VERSION_FNAME
 
         try:
-            remote_version: str = requests.get(ver_url,
-                                               headers=HEADERS).text.strip()
+            response = requests.get(ver_url, headers=HEADERS)
         except Exception as e:
             raise ModelDownloaderError(
                 'Failed to retrieve remote version number from '
                 f'{ver_url}'
             ) from e
 
+        if response.status_code != 200:
+            raise ModelDownloaderError(
+                'Failed to retrieve remote version number from '
+                f'{ver_url}. Received response status code: '
+                f'{response.status_code}')
+
+        remote_version: str = response.text.strip()
+
         return remote_version
 
     def _get_remote_checksum(self) -> str:
-- 
2.43.0


From 317df9bea59d9418b97da89e6a664fc06318dfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:06 +0000
Subject: [PATCH 114/114] fix: apply the rules added to a Rewriter after its
 first use

The functor of a Rewriter remembers the image of each box, so a rule
added by add_rules never applied to the words met before.
---
 lambeq/rewrite/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lambeq/rewrite/base.py b/lambeq/rewrite/base.py
index 85af954..a8c7aa7 100644
--- a/lambeq/rewrite/base.py
+++ b/lambeq/rewrite/base.py
@@ -401,14 +401,14 @@ class Rewriter:
             names. If omitted, all the default rules are used.
 
         """
+        self.apply_rewrites = Functor(target_category=grammar,
+                                      ob=self._ob,
+                                      ar=self._ar)
         if rules is None:
             self.rules: list[RewriteRule] = [*self._default_rules.values()]
         else:
             self.rules = []
             self.add_rules(*rules)
-        self.apply_rewrites = Functor(target_category=grammar,
-                                      ob=self._ob,
-                                      ar=self._ar)
 
     @classmethod
     def available_rules(cls) -> list[str]:
@@ -417,6 +417,8 @@ class Rewriter:
 
     def add_rules(self, *rules: RewriteRule | str) -> None:
         """Add rules to this rewriter."""
+        # The functor remembers how it rewrote each box with the old rules.
+        self.apply_rewrites.ar_cache.clear()
         for rule in rules:
             if isinstance(rule, RewriteRule):
                 self.rules.append(rule)
-- 
2.43.0

