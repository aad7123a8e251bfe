From 5b60bb02652f0226d806456209fd4d42619cca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 01/24] fix: measure peripheral intersections on the shortened
 triangulation

---
 curver/kernel/lamination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 439c4d0..1fb9f51 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -326,8 +326,8 @@ class IntegralLamination(Lamination):
         
         # Peripheral components.
         for _, (multiplicity, vertex) in short.peripheral_components().items():
-            for lamination in laminations:
-                intersection += multiplicity * sum(max(-lamination(edge), 0) + max(-lamination.left_weight(edge), 0) for edge in vertex)
+            for short_lamination in short_laminations:
+                intersection += multiplicity * sum(max(-short_lamination(edge), 0) + max(-short_lamination.left_weight(edge), 0) for edge in vertex)
         
         # Parallel components.
         for component, (multiplicity, p) in short.parallel_components().items():
-- 
2.43.0


From 0998bfa2aa3938f1a53f446b29ade239d009644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 02/24] fix: integral multiples of integral laminations are
 integral laminations

---
 curver/kernel/lamination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 1fb9f51..23f734c 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -285,7 +285,7 @@ class IntegralLamination(Lamination):
         assert other >= 0
         
         if other == 0:
-            new_class = Lamination
+            new_class = IntegralLamination
         elif other == 1:
             new_class = self.__class__
         elif isinstance(self, curver.kernel.MultiArc):  # or Arc.
@@ -293,7 +293,7 @@ class IntegralLamination(Lamination):
         elif isinstance(self, curver.kernel.MultiCurve):  # or Curve.
             new_class = curver.kernel.MultiCurve
         else:
-            new_class = Lamination
+            new_class = IntegralLamination
         
         geometric = [other * x for x in self]
         # TODO: 3) Could save components if they have already been computed.
-- 
2.43.0


From fd5ce98b42d60749deca4c1ff99414baca083afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 03/24] fix: allow Mappings to be compared to plain Encodings

---
 curver/kernel/encoding.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curver/kernel/encoding.py b/curver/kernel/encoding.py
index 0dc0de7..9b8a703 100644
--- a/curver/kernel/encoding.py
+++ b/curver/kernel/encoding.py
@@ -175,6 +175,9 @@ class Mapping(Encoding):
             if self.source_triangulation != other.source_triangulation or self.target_triangulation != other.target_triangulation:
                 return False
             
+            if not isinstance(other, Mapping):
+                return super().__eq__(other)
+            
             return self.self_image() == other.self_image() and np.array_equal(self.homology_matrix(), other.homology_matrix())  # We only really need this for S_{1,1}.
         else:
             return NotImplemented
-- 
2.43.0


From f1005323157653491271c531ab8dda5b96123f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 04/24] fix: comparing with an object of another type no longer
 raises

---
 curver/kernel/PL.py                | 1 +
 curver/kernel/homology.py          | 1 +
 curver/kernel/mappingclassgroup.py | 1 +
 curver/kernel/triangulation.py     | 1 +
 4 files changed, 4 insertions(+)

diff --git a/curver/kernel/PL.py b/curver/kernel/PL.py
index 5643a54..159d09e 100644
--- a/curver/kernel/PL.py
+++ b/curver/kernel/PL.py
@@ -17,6 +17,7 @@ class PartialLinearFunction:
     def __repr__(self):
         return str(self)
     def __eq__(self, other):
+        if not isinstance(other, PartialLinearFunction): return NotImplemented
         return np.array_equal(self.action, other.action) and np.array_equal(self.condition, other.condition)
     def __ne__(self, other):
         return not self == other
diff --git a/curver/kernel/homology.py b/curver/kernel/homology.py
index 4cf1e41..56d2a3e 100644
--- a/curver/kernel/homology.py
+++ b/curver/kernel/homology.py
@@ -25,6 +25,7 @@ class HomologyClass:
         
         return self.algebraic[edge.index] * edge.sign()
     def __eq__(self, other):
+        if not isinstance(other, HomologyClass): return NotImplemented
         return self.triangulation == other.triangulation and self.canonical().algebraic == other.canonical().algebraic
     def __hash__(self):
         return hash(tuple(self.canonical().algebraic))
diff --git a/curver/kernel/mappingclassgroup.py b/curver/kernel/mappingclassgroup.py
index 780714a..bb7e65f 100644
--- a/curver/kernel/mappingclassgroup.py
+++ b/curver/kernel/mappingclassgroup.py
@@ -56,6 +56,7 @@ class MappingClassGroup:
         return f'Mapping class group < {", ".join(pos_keys)} > on {self.triangulation}'
     
     def __eq__(self, other):
+        if not isinstance(other, MappingClassGroup): return NotImplemented
         return self.triangulation == other.triangulation and self.mapping_classes == other.mapping_classes
     
     def __getitem__(self, item):
diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 8b5f736..5330b60 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -230,6 +230,7 @@ class Triangulation:
         # Triangulations are already pickleable but this results in a much smaller pickle.
         return (create_triangulation, (self.__class__,) + self.package())
     def __eq__(self, other):
+        if not isinstance(other, Triangulation): return NotImplemented
         return self.signature == other.signature
     def __hash__(self):
         return hash(tuple(self.signature))
-- 
2.43.0


From 4fa5600ac2b3620ca7aef2dae2037869eeba564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 05/24] fix: objects take their own copy of the lists they are
 built from

---
 curver/kernel/lamination.py    | 2 +-
 curver/kernel/permutation.py   | 2 +-
 curver/kernel/triangulation.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 23f734c..738e489 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -29,7 +29,7 @@ class Lamination:
         
         self.triangulation = triangulation
         self.zeta = self.triangulation.zeta
-        self.geometric = geometric
+        self.geometric = list(geometric)
     
     def __repr__(self):
         return f'{self.__class__.__name__}({self.triangulation}, {self.geometric})'
diff --git a/curver/kernel/permutation.py b/curver/kernel/permutation.py
index 81bbb51..09dd3cb 100644
--- a/curver/kernel/permutation.py
+++ b/curver/kernel/permutation.py
@@ -9,7 +9,7 @@ import numpy as np
 class Permutation:
     ''' This represents a permutation on 0, 1, ..., N-1. '''
     def __init__(self, perm):
-        self.perm = perm
+        self.perm = list(perm)
         assert set(self) == set(range(len(self)))
     
     def __str__(self):
diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 5330b60..f9e60d0 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -89,7 +89,7 @@ class Triangle:
         # minimally by label.
         best_index = min(range(3), key=lambda i: edges[i].label) if rotate is None else rotate
         
-        self.edges = edges[best_index:] + edges[:best_index]
+        self.edges = list(edges[best_index:] + edges[:best_index])
         self.labels = [edge.label for edge in self]
         self.indices = [edge.index for edge in self]
     
-- 
2.43.0


From 2e441b68284f2f7fa3ff02b1527fdbd6bcc19967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 06/24] fix: MappingClassGroup does not modify the dictionaries
 it is given

---
 curver/kernel/mappingclassgroup.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/curver/kernel/mappingclassgroup.py b/curver/kernel/mappingclassgroup.py
index bb7e65f..2f8f15b 100644
--- a/curver/kernel/mappingclassgroup.py
+++ b/curver/kernel/mappingclassgroup.py
@@ -21,9 +21,10 @@ class MappingClassGroup:
     Most importantly this object can construct a mapping class from a string descriptor.
     See self.mapping_class for additional information. '''
     def __init__(self, pos_mapping_classes=None, curves=None, arcs=None):
-        if pos_mapping_classes is None: pos_mapping_classes = dict()
-        if curves is None: curves = dict()
-        if arcs is None: arcs = dict()
+        # Take copies since we are about to extend these.
+        pos_mapping_classes = dict() if pos_mapping_classes is None else dict(pos_mapping_classes)
+        curves = dict() if curves is None else dict(curves)
+        arcs = dict() if arcs is None else dict(arcs)
         
         for name, arc in arcs.items():
             assert name not in pos_mapping_classes
-- 
2.43.0


From 2557b9faa9bbcd43ffbaf48c038a5e4bbbd5d7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 07/24] fix: package LinearTransformations in a form that can
 be encoded again

---
 curver/kernel/crush.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/crush.py b/curver/kernel/crush.py
index 941df56..e6228fe 100644
--- a/curver/kernel/crush.py
+++ b/curver/kernel/crush.py
@@ -155,7 +155,7 @@ class LinearTransformation(Move):
         return np.array_equal(self.matrix, other.matrix)
     
     def package(self):
-        return (self.target_triangulation.sig(), self.matrix.tolist())
+        return self  # There is no shorter description that Triangulation.encode understands.
     
     def apply_lamination(self, lamination):
         return self.target_triangulation(self.matrix.dot(lamination.geometric).tolist())
-- 
2.43.0


From 3b21a9bc41faaa157923aaa30f6d074206a20112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 08/24] fix: pickling a Triangle preserves the order of its
 edges

---
 curver/kernel/triangulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index f9e60d0..b44cdb3 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -99,7 +99,7 @@ class Triangle:
         return str(tuple(self.edges))
     def __reduce__(self):
         # Having __slots__ means we need to pickle manually.
-        return (self.__class__, (self.edges,))
+        return (self.__class__, (self.edges, 0))  # Keep the current rotation.
     def __eq__(self, other):
         if isinstance(other, Triangle):
             return self.edges == other.edges
-- 
2.43.0


From d8b6742d67b6968617c13210ef925363c367c814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 09/24] fix: compare weights exactly when deciding whether to
 accelerate

---
 curver/kernel/lamination.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 738e489..945be09 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -2,6 +2,7 @@
 ''' A module for representing laminations on Triangulations. '''
 
 from collections import namedtuple
+from fractions import Fraction
 from itertools import permutations, groupby, product, chain
 from queue import Queue
 
@@ -729,7 +730,7 @@ class IntegralLamination(Lamination):
                 #  * lamination has little weight,
                 #  * flipping drops the weight by at least drop%, or
                 #  * We have not done many turns in a row.
-                if drop > 0 and max(turn_left, turn_right) > 2*self.zeta and lamination.weight() > 4 * self.zeta and (1 - drop) * lamination.weight() < move(lamination).weight():
+                if drop > 0 and max(turn_left, turn_right) > 2*self.zeta and lamination.weight() > 4 * self.zeta and (1 - Fraction(drop)) * lamination.weight() < move(lamination).weight():
                     try:
                         curve = lamination.trace_curve(edge, lamination.left_weight(edge), 2*self.zeta)
                         slope = curve.slope(lamination)  # Will raise a ValueError if these are disjoint.
-- 
2.43.0


From 43eae7332318d741d921e8c2d08e24dcf4ac18f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 10/24] fix: check that the invariant multiarc is a
 polygonalisation

---
 curver/kernel/finite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/finite.py b/curver/kernel/finite.py
index ce1e905..68a613d 100644
--- a/curver/kernel/finite.py
+++ b/curver/kernel/finite.py
@@ -70,7 +70,7 @@ class FiniteSubgroup:
     
     @memoize
     @ensure(
-        lambda data: data.result.is_polygonalisation,
+        lambda data: data.result.is_polygonalisation(),
         lambda data: all(data.self[word](data.result) == data.result for word in data.self.generators),
         )
     def invariant_polygonalisation(self):
-- 
2.43.0


From 63184f1b921122622e0725afa955ad86e116b83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 11/24] fix: load S_1_2p using a curve that exists

---
 curver/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/load.py b/curver/load.py
index 2e3883e..f4fa9c6 100644
--- a/curver/load.py
+++ b/curver/load.py
@@ -273,7 +273,7 @@ def load_old(surface):
         return curver.kernel.MappingClassGroup(curves={
             'a': S.curves['a_0'],
             'b': S.curves['b_0'],
-            'c': S.curves['p_0'],
+            'c': S.curves['p_1'],
             })
     elif surface == 'S_2_1':
         S = load(2, 1)
-- 
2.43.0


From e9ba6c3f1c5d47caef74f29f13b5ed942cdfaf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 12/24] fix: refuse to build a triangulation from an odd number
 of triangles

---
 curver/kernel/triangulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index b44cdb3..adada76 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -194,6 +194,9 @@ class Triangulation:
         assert all(len(labels) == 3 for labels in edge_labels)
         assert edge_labels
         
+        if len(edge_labels) % 2 != 0:
+            raise TypeError('Edges cannot be paired since there are an odd number of triangles')
+        
         zeta = len(edge_labels) * 3 // 2
         
         # Check that each of 0, ..., zeta-1, ~0, ..., ~(zeta-1) occurs exactly once.
-- 
2.43.0


From 702a86b3a3b50a78ffb60bf9865e9bd1b1cbf5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 13/24] fix: memoized functions accept arguments that are not
 hashable

---
 curver/kernel/decorators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/decorators.py b/curver/kernel/decorators.py
index b71d5d7..86abcbb 100644
--- a/curver/kernel/decorators.py
+++ b/curver/kernel/decorators.py
@@ -13,7 +13,10 @@ def memoize(function, *args, **kwargs):
     
     if not hasattr(self, '_cache'):
         self._cache = dict()
-    key = (function.__name__, frozenset(inputs.items()))
+    try:
+        key = (function.__name__, frozenset(inputs.items()))
+    except TypeError:  # The inputs are not hashable and so cannot be memoized.
+        return function(*args, **kwargs)
     if key not in self._cache:
         try:
             self._cache[key] = function(*args, **kwargs)
-- 
2.43.0


From 77766a0fe0aac2240756abcba4f3c10ccfee1c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 14/24] fix: refuse to apply maps to objects on a different
 triangulation

---
 curver/kernel/encoding.py   | 3 +++
 curver/kernel/lamination.py | 1 +
 curver/kernel/moves.py      | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/curver/kernel/encoding.py b/curver/kernel/encoding.py
index 9b8a703..8022d67 100644
--- a/curver/kernel/encoding.py
+++ b/curver/kernel/encoding.py
@@ -260,6 +260,9 @@ class MappingClass(Mapping):
     
     That is, one where self.source_triangulation == self.target_triangulation. '''
     def __call__(self, other, power=1):
+        if self.source_triangulation != other.triangulation:
+            raise ValueError('Cannot apply a MappingClass to something on a triangulation other than source_triangulation')
+        
         if power < 0:
             return self.inverse()(other, power=-power)
         
diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 945be09..01abd6b 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -351,6 +351,7 @@ class IntegralLamination(Lamination):
         ''' Return that self does not share any components with the given IntegralLamination. '''
         
         assert isinstance(lamination, IntegralLamination)
+        assert lamination.triangulation == self.triangulation
         
         self_components = self.components()
         return not any(component in self_components for component in lamination.components())
diff --git a/curver/kernel/moves.py b/curver/kernel/moves.py
index af983ce..c894086 100644
--- a/curver/kernel/moves.py
+++ b/curver/kernel/moves.py
@@ -22,6 +22,9 @@ class Move(ABC):
     def __invert__(self):
         return self.inverse()
     def __call__(self, other):
+        if isinstance(other, (curver.kernel.Lamination, curver.kernel.HomologyClass)) and self.source_triangulation != other.triangulation:
+            raise ValueError('Cannot apply a Move to something on a triangulation other than source_triangulation')
+        
         if isinstance(other, curver.kernel.Lamination):
             return self.apply_lamination(other)
         elif isinstance(other, curver.kernel.HomologyClass):
-- 
2.43.0


From fe8e36de23bdee075a538d4e3b25d82fef4da971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 15/24] fix: raise rather than return NotImplemented for
 unsupported requests

---
 curver/kernel/crush.py         | 4 ++--
 curver/kernel/encoding.py      | 2 +-
 curver/kernel/lamination.py    | 2 +-
 curver/kernel/structures.py    | 2 +-
 curver/kernel/triangulation.py | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/curver/kernel/crush.py b/curver/kernel/crush.py
index e6228fe..5ef1a07 100644
--- a/curver/kernel/crush.py
+++ b/curver/kernel/crush.py
@@ -132,7 +132,7 @@ class Crush(Move):
         return self.target_triangulation(geometric)  # Have to promote.
     
     def apply_homology(self, homology_class):
-        return NotImplemented  # I don't think we ever need this.
+        raise NotImplementedError('Homology classes cannot be mapped through this move')
     
     def package(self):
         return (self.curve.parallel(), 0)
@@ -161,7 +161,7 @@ class LinearTransformation(Move):
         return self.target_triangulation(self.matrix.dot(lamination.geometric).tolist())
     
     def apply_homology(self, homology_class):
-        return NotImplemented  # I don't think we ever need this.
+        raise NotImplementedError('Homology classes cannot be mapped through this move')
 
 class Lift(LinearTransformation):
     ''' This represents the inverse of crushing along a curve. '''
diff --git a/curver/kernel/encoding.py b/curver/kernel/encoding.py
index 8022d67..fe083fd 100644
--- a/curver/kernel/encoding.py
+++ b/curver/kernel/encoding.py
@@ -68,7 +68,7 @@ class Encoding:
         elif isinstance(value, curver.IntegerType):
             return self.sequence[value]
         else:
-            return NotImplemented
+            raise TypeError('Encoding indices must be integers or slices')
     def package(self):
         ''' Return a small amount of info that self.source_triangulation can use to reconstruct this triangulation. '''
         return [item.package() for item in self]
diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 01abd6b..f0566ae 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -425,7 +425,7 @@ class IntegralLamination(Lamination):
         ''' Return whether self \\cup other fills. '''
         assert isinstance(other, IntegralLamination)
         
-        return NotImplemented  # TODO: 2) Implement! (And remove the PyLint disable when done.)
+        raise NotImplementedError  # TODO: 2) Implement! (And remove the PyLint disable when done.)
     
     # @topological_invariant
     def topological_type(self, closed=False):
diff --git a/curver/kernel/structures.py b/curver/kernel/structures.py
index b8131fa..fa8e03d 100644
--- a/curver/kernel/structures.py
+++ b/curver/kernel/structures.py
@@ -108,7 +108,7 @@ class StraightLineProgram:
     def __getitem__(self, value):
         if isinstance(value, slice):
             # TODO: 2) Implement this.
-            return NotImplemented
+            raise NotImplementedError('StraightLinePrograms cannot be sliced')
         else:  # We are returning a single item.
             if value >= len(self) or value < -len(self):
                 raise IndexError('index out of range')
diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index adada76..631b7be 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -564,7 +564,7 @@ class Triangulation:
         laminations can either be a dictionary mapping lamination --> multiplictiy or an iterable of laminations. '''
         
         if not all(isinstance(lamination, curver.kernel.Lamination) for lamination in laminations):
-            return NotImplemented
+            raise TypeError('Can only sum laminations')
         
         if any(lamination.triangulation != self for lamination in laminations):
             raise ValueError('Laminations must all be defined on this triangulation to add them')
@@ -592,7 +592,7 @@ class Triangulation:
         laminations can either be a dictionary mapping lamination --> multiplictiy or an iterable of laminations. '''
         
         if not all(isinstance(lamination, curver.kernel.Lamination) for lamination in laminations):
-            return NotImplemented
+            raise TypeError('Can only sum laminations')
         
         if any(lamination.triangulation != self for lamination in laminations):
             raise ValueError('Laminations must all be defined on this triangulation to add them')
-- 
2.43.0


From febc033f0502af3836db5200624bbb1bf3570290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 16/24] fix: refuse malformed words rather than skipping over
 parts of them

---
 curver/kernel/mappingclassgroup.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/mappingclassgroup.py b/curver/kernel/mappingclassgroup.py
index 2f8f15b..17d297f 100644
--- a/curver/kernel/mappingclassgroup.py
+++ b/curver/kernel/mappingclassgroup.py
@@ -127,12 +127,15 @@ class MappingClassGroup:
             tokens = TOKENS.findall(word)  # Break word into tokens.
             for index, token in enumerate(tokens):
                 if IS_INT.match(token):
-                    pass
+                    if tokens[index-1] != '^':
+                        raise ValueError(f'Power {token} does not follow a ^')
                 elif token == '^':
                     try:
                         power = int(tokens[index+1])
                     except (ValueError, IndexError) as err:
                         raise ValueError('^ not followed by a power') from err
+                    if not stack[-1]:
+                        raise ValueError('^ does not follow anything')
                     stack[-1][-1] = stack[-1][-1] * abs(power)
                     if power < 0: stack[-1][-1] = stack[-1][-1].reverse().map(lambda x: x.swapcase())
                 elif token == '(':
@@ -140,7 +143,7 @@ class MappingClassGroup:
                     stack.append(stack[-1][-1])
                 elif token == ')':
                     stack.pop()
-                    if not stack:
+                    if not stack or (len(stack) == 1 and index != len(tokens) - 1):
                         raise ValueError('Unbalanced parentheses')
                     stack[-1][-1] = SLP.sum(stack[-1][-1])
                 else:
-- 
2.43.0


From 97ca815dbbff521e3493e606ea2425f367143cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 17/24] fix: refuse to relabel edges inconsistently

---
 curver/kernel/triangulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 631b7be..a0003ca 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -760,7 +760,8 @@ class Triangulation:
         # We need to repeat this code so that we can build the isometry in a minute.
         for i in self.indices:
             if i in label_map and ~i in label_map:
-                pass
+                if label_map[~i] != ~label_map[i]:
+                    raise ValueError(f'Inconsistent new labels for {i} and {~i}')
             elif i not in label_map and ~i in label_map:
                 label_map[i] = ~label_map[~i]
             elif i in label_map and ~i not in label_map:
-- 
2.43.0


From af528a6dc99c939ccd6dd4002d55c98d8a0ed5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 18/24] fix: refuse edges that are not in the triangulation

---
 curver/kernel/triangulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index a0003ca..2636693 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -660,6 +660,7 @@ class Triangulation:
         ''' Return the given edge as an Arc. '''
         
         if isinstance(edge, curver.IntegerType): edge = curver.kernel.Edge(edge)  # If given an integer instead.
+        if edge not in self.corner_lookup: raise ValueError(f'{edge} is not an edge of {self}')
         
         return curver.kernel.Arc(self, [0 if i != edge.index else -1 for i in range(self.zeta)])  # Avoids promote.
     
@@ -674,6 +675,7 @@ class Triangulation:
         ''' Return the HomologyClass of the given edge. '''
         
         if isinstance(edge, curver.IntegerType): edge = curver.kernel.Edge(edge)  # If given an integer instead.
+        if edge not in self.corner_lookup: raise ValueError(f'{edge} is not an edge of {self}')
         
         return curver.kernel.HomologyClass(self, [0 if i != edge.index else edge.sign() for i in range(self.zeta)])
     
-- 
2.43.0


From d4b12830a7cd81f5de63cc818ff7059975901ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 19/24] fix: accept edges in place of labels when relabelling
 edges

---
 curver/kernel/triangulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 2636693..cf3ecc3 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -28,7 +28,7 @@ class Edge:
     __slots__ = ['label', 'index']
     
     def __init__(self, label):
-        self.label = label
+        self.label = label.label if isinstance(label, Edge) else label  # If given an edge instead.
         self.index = norm(self.label)
     
     def __repr__(self):
-- 
2.43.0


From bfd1315e22dac8e32be772698c778b66726e6936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:06 +0000
Subject: [PATCH 20/24] fix: encode isometries given by only some labels

---
 curver/kernel/triangulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index cf3ecc3..f121a45 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -848,7 +848,7 @@ class Triangulation:
                 if all(i in item or ~i in item for i in self.indices):
                     term = T.encode_relabel_edges(item)
                 else:  # If some edges are missing then we assume that we must be mapping back to this triangulation.
-                    term = T.find_isometry(self, item)
+                    term = T.find_isometry(self, item).encode()
             elif isinstance(item, tuple) and len(item) == 2:  # Twist or HalfTwist.
                 label, power = item
                 edge = Edge(label)
-- 
2.43.0


From 353b06c32d0ba049948584f06d1cf4fb7162f7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:19 +0000
Subject: [PATCH 21/24] fix: a finite subgroup keeps its generators as a list

---
 curver/kernel/finite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/finite.py b/curver/kernel/finite.py
index 68a613d..709d635 100644
--- a/curver/kernel/finite.py
+++ b/curver/kernel/finite.py
@@ -17,7 +17,7 @@ class FiniteSubgroup:
     ''' This represents a finite subgroup of a mapping class group. '''
     def __init__(self, mapping_classes, generators=None):
         self.mapping_classes = mapping_classes  # Dict: name |--> mapping class.
-        self.generators = sorted(self.mapping_classes) if generators is None else generators
+        self.generators = sorted(self.mapping_classes) if generators is None else list(generators)
         self.triangulation = list(self.mapping_classes.values())[0].source_triangulation
         # asserts?
     
-- 
2.43.0


From 58c3c55120205edcc5a1b77604a15c95e362e034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:45 +0000
Subject: [PATCH 22/24] fix: size of the orbit of a component of a disconnected
 surface

---
 curver/kernel/finite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/finite.py b/curver/kernel/finite.py
index 709d635..d93eabd 100644
--- a/curver/kernel/finite.py
+++ b/curver/kernel/finite.py
@@ -217,7 +217,7 @@ class FiniteSubgroup:
         component_orbit_size = dict()
         for cls in classes:
             for component in cls:
-                component_orbit_size[component] = len(components)
+                component_orbit_size[component] = len(cls)
         
         # D) The (orbifold) Euler characteristic of each components quotient.
         euler_characteristic = dict((component, Fraction(surface[component].chi * component_orbit_size[component], order)) for component in components)
-- 
2.43.0


From 2d094c54e2d753f6b5ae388ea66a3af31aab632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:01 +0000
Subject: [PATCH 23/24] fix: sums of laminations count repeated laminations and
 accept generators

---
 curver/kernel/triangulation.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index f121a45..1bd40ab 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -563,16 +563,16 @@ class Triangulation:
         
         laminations can either be a dictionary mapping lamination --> multiplictiy or an iterable of laminations. '''
         
+        # Convert iterable to dictionary of multiplicities.
+        if not isinstance(laminations, dict):
+            laminations = Counter(iter(laminations))
+        
         if not all(isinstance(lamination, curver.kernel.Lamination) for lamination in laminations):
             raise TypeError('Can only sum laminations')
         
         if any(lamination.triangulation != self for lamination in laminations):
             raise ValueError('Laminations must all be defined on this triangulation to add them')
         
-        # Convert iterable to dictionary of multiplicities.
-        if not isinstance(laminations, dict):
-            laminations = dict((lamination, 1) for lamination in laminations)
-        
         if any(multiplicity < 0 for multiplicity in laminations.values()):
             raise ValueError('Laminations must occur with non-negative multiplicity')
         
@@ -591,16 +591,16 @@ class Triangulation:
         
         laminations can either be a dictionary mapping lamination --> multiplictiy or an iterable of laminations. '''
         
+        # Convert iterable to dictionary of multiplicities.
+        if not isinstance(laminations, dict):
+            laminations = Counter(iter(laminations))
+        
         if not all(isinstance(lamination, curver.kernel.Lamination) for lamination in laminations):
             raise TypeError('Can only sum laminations')
         
         if any(lamination.triangulation != self for lamination in laminations):
             raise ValueError('Laminations must all be defined on this triangulation to add them')
         
-        # Convert iterable to dictionary of multiplicities.
-        if not isinstance(laminations, dict):
-            laminations = dict((lamination, 1) for lamination in laminations)
-        
         if any(multiplicity < 0 for multiplicity in laminations.values()):
             raise ValueError('Laminations must occur with non-negative multiplicity')
         
-- 
2.43.0


From cd9ffdb3b03926c4ea4601b824874f51884a81bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:24 +0000
Subject: [PATCH 24/24] fix: compressed words contain their letters

---
 curver/kernel/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/structures.py b/curver/kernel/structures.py
index fa8e03d..6f8a9f3 100644
--- a/curver/kernel/structures.py
+++ b/curver/kernel/structures.py
@@ -173,7 +173,7 @@ class StraightLineProgram:
         return self * other
     
     def __contains__(self, value):
-        return Terminal(value) in self.sinks
+        return value in self.sinks
     
     def reverse(self):
         ''' Return the StraightLineProgram that returns self[::-1]. '''
-- 
2.43.0

