From a2b0a3ba1da27c21e9e0cb04d29b3d6fec141836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 01/38] fix: intersect peripheral components with the shortened
 laminations

intersection() walks around vertices of the short triangulation but read the
weights of the original laminations, so any lamination with a peripheral
component and a non-trivial shortening reported wrong intersection numbers.
---
 curver/kernel/lamination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 439c4d0..1fb9f51 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -326,8 +326,8 @@ class IntegralLamination(Lamination):
         
         # Peripheral components.
         for _, (multiplicity, vertex) in short.peripheral_components().items():
-            for lamination in laminations:
-                intersection += multiplicity * sum(max(-lamination(edge), 0) + max(-lamination.left_weight(edge), 0) for edge in vertex)
+            for short_lamination in short_laminations:
+                intersection += multiplicity * sum(max(-short_lamination(edge), 0) + max(-short_lamination.left_weight(edge), 0) for edge in vertex)
         
         # Parallel components.
         for component, (multiplicity, p) in short.parallel_components().items():
-- 
2.43.0


From 82319167290fa5f3cc07290a6e0de364c5e5c0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 02/38] fix: reject triangulations with an odd number of
 triangles

from_tuple only checked that every required label was present. With an odd number of
triangles there is one more label than that, so a repeated or out of range label was accepted.
---
 curver/kernel/triangulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 8b5f736..1823a6f 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -203,6 +203,8 @@ class Triangulation:
                 raise TypeError(f'Missing label {i}')
             if ~i not in flattened:
                 raise TypeError(f'Missing label ~{i}')
+        if len(edge_labels) % 2:  # Then there is a label that is either repeated or out of range.
+            raise TypeError(f'Expected an even number of triangles but got {len(edge_labels)}')
         
         return cls([Triangle([Edge(label) for label in labels]) for labels in edge_labels])
     
-- 
2.43.0


From f3ea25c972fe342f408981bb126d1a68383942fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:09 +0000
Subject: [PATCH 03/38] fix: multiples of integral laminations are integral
 laminations

Multiplying by zero, or multiplying a lamination with both arc and curve components, returned
a plain Lamination which does not support components, intersection, boundary, etc.
---
 curver/kernel/lamination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 1fb9f51..23f734c 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -285,7 +285,7 @@ class IntegralLamination(Lamination):
         assert other >= 0
         
         if other == 0:
-            new_class = Lamination
+            new_class = IntegralLamination
         elif other == 1:
             new_class = self.__class__
         elif isinstance(self, curver.kernel.MultiArc):  # or Arc.
@@ -293,7 +293,7 @@ class IntegralLamination(Lamination):
         elif isinstance(self, curver.kernel.MultiCurve):  # or Curve.
             new_class = curver.kernel.MultiCurve
         else:
-            new_class = Lamination
+            new_class = IntegralLamination
         
         geometric = [other * x for x in self]
         # TODO: 3) Could save components if they have already been computed.
-- 
2.43.0


From 4095bde30595a731f65eda8caa750a1d348f65c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:27 +0000
Subject: [PATCH 04/38] fix: encode partial label maps as isometries back to
 the triangulation

encode([..., {1: 2}, ...]) is documented to close up via the isometry that extends the
given labels but failed with a TypeError as moves are not iterable.
---
 curver/kernel/triangulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 1823a6f..60774e3 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -843,7 +843,7 @@ class Triangulation:
                 if all(i in item or ~i in item for i in self.indices):
                     term = T.encode_relabel_edges(item)
                 else:  # If some edges are missing then we assume that we must be mapping back to this triangulation.
-                    term = T.find_isometry(self, item)
+                    term = T.find_isometry(self, item).encode()
             elif isinstance(item, tuple) and len(item) == 2:  # Twist or HalfTwist.
                 label, power = item
                 edge = Edge(label)
-- 
2.43.0


From e4e8b872a9acb84c9c816b4c9a55cac13484ddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 05/38] fix: slice encodings with bounds beyond their ends

Bounds below -len(self) were left negative and starts above len(self) were left as they
were so f[-100:0] failed with an AssertionError and f[:-100] and f[100:] with an IndexError
rather than being empty slices.
---
 curver/kernel/encoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/encoding.py b/curver/kernel/encoding.py
index 0dc0de7..c175967 100644
--- a/curver/kernel/encoding.py
+++ b/curver/kernel/encoding.py
@@ -51,8 +51,8 @@ class Encoding:
             
             start = 0 if value.start is None else value.start if value.start >= 0 else len(self) + value.start
             stop = len(self) if value.stop is None else value.stop if value.stop >= 0 else len(self) + value.stop
-            start = max(start, -len(self))
-            stop = min(stop, len(self))
+            start = min(max(start, 0), len(self))
+            stop = min(max(stop, 0), len(self))
             if start == stop:
                 if 0 <= start < len(self):
                     return self.sequence[start].target_triangulation.id_encoding()
-- 
2.43.0


From e1190e92e69b6e61c961258b243f372b272527be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 06/38] fix: pickle encodings containing lifts and linear
 transformations

---
 curver/kernel/encoding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curver/kernel/encoding.py b/curver/kernel/encoding.py
index c175967..a0f040c 100644
--- a/curver/kernel/encoding.py
+++ b/curver/kernel/encoding.py
@@ -73,6 +73,8 @@ class Encoding:
         ''' Return a small amount of info that self.source_triangulation can use to reconstruct this triangulation. '''
         return [item.package() for item in self]
     def __reduce__(self):
+        if any(isinstance(item, curver.kernel.LinearTransformation) for item in self):  # These cannot be rebuilt by source_triangulation.encode.
+            return (self.__class__, (self.sequence,))
         return (create_encoding, (self.source_triangulation, self.package()))
     
     def __eq__(self, other):
-- 
2.43.0


From 2174cd70784d396f25d5d355b5b9053b17e55498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 07/38] fix: keep the half singleton when pickling so pickled
 linear transformations stay equal

---
 curver/kernel/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curver/kernel/utilities.py b/curver/kernel/utilities.py
index 8baf667..dc2cba9 100644
--- a/curver/kernel/utilities.py
+++ b/curver/kernel/utilities.py
@@ -143,6 +143,8 @@ class Half:
         return '1/2'
     def __repr__(self):
         return str(self)
+    def __reduce__(self):
+        return 'half'  # There is only one half, so that matrices containing it are still equal after being pickled.
     def __rmul__(self, other):
         return self * other
     def __call__(self, other):
-- 
2.43.0


From 0d7b1160afa5bf3459f3cc000670b208ac47d647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 08/38] fix: count every component in max_order

---
 curver/kernel/triangulation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 60774e3..9f11bd4 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -287,10 +287,9 @@ class Triangulation:
             else:  # g == 0:
                 return v
         
-        # Set of orders that appear.
-        orders = set(order(S.g, S.p) for S in self.surface().values())
-        for order in orders:
-            prod *= order
+        # A mapping class can act on each component with a different order, even when they have the same type.
+        for S in self.surface().values():
+            prod *= order(S.g, S.p)
         
         return prod
     
-- 
2.43.0


From 7ce9d7c3b8c73fe83ae0416ed07f248da176afcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:08 +0000
Subject: [PATCH 09/38] fix: keep the cone points of quotients by non-abelian
 groups and of disconnected surfaces

---
 curver/kernel/finite.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/curver/kernel/finite.py b/curver/kernel/finite.py
index ce1e905..1821db0 100644
--- a/curver/kernel/finite.py
+++ b/curver/kernel/finite.py
@@ -200,10 +200,12 @@ class FiniteSubgroup:
         # Build some useful maps.
         # A) For each pair of oriented arcs, the set of H (names) that map one to the other.
         pairs = dict((a, dict((b, set()) for b in oriented_arcs)) for a in oriented_arcs)
+        images = dict()
         for a in oriented_arcs:
             for name, h in H.items():
                 b = OrientedArc(h(a.arc), h(a.hc), h(a.boundary))
                 pairs[a][b].add(name)
+                images[a, name] = b
         
         # B) The component of triangulation each oriented_arc lives in.
         component_lookup = dict((oriented[edge], component) for component in components for edge in component if edge in oriented)
@@ -217,10 +219,13 @@ class FiniteSubgroup:
         component_orbit_size = dict()
         for cls in classes:
             for component in cls:
-                component_orbit_size[component] = len(components)
+                component_orbit_size[component] = len(cls)
         
-        # D) The (orbifold) Euler characteristic of each components quotient.
-        euler_characteristic = dict((component, Fraction(surface[component].chi * component_orbit_size[component], order)) for component in components)
+        # D) The number of elements of H that fix each component pointwise.
+        component_kernel_size = dict((component_lookup[a], len(pairs[a][a])) for a in oriented_arcs)
+        
+        # E) The (orbifold) Euler characteristic of each components quotient.
+        euler_characteristic = dict((component, Fraction(surface[component].chi * component_orbit_size[component] * component_kernel_size[component], order)) for component in components)
         
         # Compute the polygons cut out by short.
         # Remember to walk around their boundary in the correct direction.
@@ -253,12 +258,14 @@ class FiniteSubgroup:
             start = oriented_arcs[0]
             places = [a for a in oriented_arcs[1:] + oriented_arcs[:1] if pairs[start][a]]  # ??
             
+            component = component_lookup[start]
             c_order = len(places)
-            holonomy = sorted(pairs[start][places[0]])
-            preimages = order // c_order
+            # The holonomy of the other preimages are the conjugates of this one, so to be canonical we record the smallest of these.
+            holonomy = min(sorted(pairs[images[start, name]][images[places[0], name]]) for name in H)
+            preimages = order // (c_order * component_kernel_size[component] * component_orbit_size[component])  # In each component.
             
             if punctured or len(places) > 1:  # Real cone point.
-                cone_points[component_lookup[start]].append(ConePoint(punctured, c_order, holonomy, preimages))  # Put it in the correct component.
+                cone_points[component].append(ConePoint(punctured, c_order, holonomy, preimages))  # Put it in the correct component.
         
         # Remember to make all the data canonical by sorting.
         signature = sorted(Orbifold(euler_characteristic[component], component_orbit_size[component], sorted(cone_points[component])) for component in components)
-- 
2.43.0


From b6a7f9042bf37d88f04c2c25746c3fb5d14fa6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 10/38] fix: compare surfaces up to relabelling when deciding
 conjugacy

---
 curver/kernel/encoding.py | 2 +-
 curver/kernel/finite.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/encoding.py b/curver/kernel/encoding.py
index a0f040c..c119695 100644
--- a/curver/kernel/encoding.py
+++ b/curver/kernel/encoding.py
@@ -429,7 +429,7 @@ class MappingClass(Mapping):
         
         assert isinstance(other, curver.kernel.MappingClass)
         
-        if self.source_triangulation.surface() != other.source_triangulation.surface():  # Defined on different surfaces.
+        if sorted(self.source_triangulation.surface().values()) != sorted(other.source_triangulation.surface().values()):  # Defined on different surfaces.
             return False
         
         if not self.vertex_permutation().is_conjugate_to(other.vertex_permutation()):  # Induce non-conjugate permutations of the vertices.
diff --git a/curver/kernel/finite.py b/curver/kernel/finite.py
index 1821db0..ea81a50 100644
--- a/curver/kernel/finite.py
+++ b/curver/kernel/finite.py
@@ -282,7 +282,7 @@ class FiniteSubgroup:
         
         assert isinstance(other, curver.kernel.FiniteSubgroup)
         
-        if self.triangulation.surface() != other.triangulation.surface():  # Defined on different surfaces.
+        if sorted(self.triangulation.surface().values()) != sorted(other.triangulation.surface().values()):  # Defined on different surfaces.
             return False
         
         if len(self) != len(other):  # Conjugacy invariant.
-- 
2.43.0


From a0d5f4472f255d8036eb51fa27aef14bc415609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 11/38] fix: store permutations as lists so those given as
 tuples compare correctly

---
 curver/kernel/permutation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/permutation.py b/curver/kernel/permutation.py
index 81bbb51..09dd3cb 100644
--- a/curver/kernel/permutation.py
+++ b/curver/kernel/permutation.py
@@ -9,7 +9,7 @@ import numpy as np
 class Permutation:
     ''' This represents a permutation on 0, 1, ..., N-1. '''
     def __init__(self, perm):
-        self.perm = perm
+        self.perm = list(perm)
         assert set(self) == set(range(len(self)))
     
     def __str__(self):
-- 
2.43.0


From 689ff91bcc7d852382e2d4a083e90d27fdc56a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 12/38] fix: membership of straight line programs

---
 curver/kernel/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/structures.py b/curver/kernel/structures.py
index b8131fa..55bbc58 100644
--- a/curver/kernel/structures.py
+++ b/curver/kernel/structures.py
@@ -173,7 +173,7 @@ class StraightLineProgram:
         return self * other
     
     def __contains__(self, value):
-        return Terminal(value) in self.sinks
+        return any(isinstance(item, Terminal) and item.value == value for index in self.indices for item in self(index))
     
     def reverse(self):
         ''' Return the StraightLineProgram that returns self[::-1]. '''
-- 
2.43.0


From afbdbbd60cc5f4aa402a754d7bf0c27f16afbf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 13/38] fix: reject words that cannot be decomposed instead of
 ignoring parts of them

---
 curver/kernel/mappingclassgroup.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/mappingclassgroup.py b/curver/kernel/mappingclassgroup.py
index 780714a..5b68053 100644
--- a/curver/kernel/mappingclassgroup.py
+++ b/curver/kernel/mappingclassgroup.py
@@ -123,14 +123,17 @@ class MappingClassGroup:
             
             stack = [[]]
             tokens = TOKENS.findall(word)  # Break word into tokens.
+            if TOKENS.sub('', word).strip('[],\'"'):  # Punctuation is ignored so that the string of a list of names is allowed too.
+                raise ValueError(f'"{data}" contains characters that could not be decomposed')
             for index, token in enumerate(tokens):
                 if IS_INT.match(token):
-                    pass
+                    if tokens[index-1] != '^': raise ValueError(f'{token} is not preceded by ^')
                 elif token == '^':
                     try:
                         power = int(tokens[index+1])
                     except (ValueError, IndexError) as err:
                         raise ValueError('^ not followed by a power') from err
+                    if not stack[-1]: raise ValueError('^ not preceded by a word')
                     stack[-1][-1] = stack[-1][-1] * abs(power)
                     if power < 0: stack[-1][-1] = stack[-1][-1].reverse().map(lambda x: x.swapcase())
                 elif token == '(':
@@ -143,7 +146,7 @@ class MappingClassGroup:
                     stack[-1][-1] = SLP.sum(stack[-1][-1])
                 else:
                     stack[-1].append(SLP(decompose(token)))
-            if len(stack) > 1:
+            if len(stack) > 1 or len(stack[-1]) > 1:
                 raise ValueError('Unbalanced parentheses')
             
             sequence = stack[-1][-1]
-- 
2.43.0


From c28981e745f648ecb053180e9b171348f7b79155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:23 +0000
Subject: [PATCH 14/38] fix: load S_1_2p, whose curve is called p_1

---
 curver/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/load.py b/curver/load.py
index 2e3883e..f4fa9c6 100644
--- a/curver/load.py
+++ b/curver/load.py
@@ -273,7 +273,7 @@ def load_old(surface):
         return curver.kernel.MappingClassGroup(curves={
             'a': S.curves['a_0'],
             'b': S.curves['b_0'],
-            'c': S.curves['p_0'],
+            'c': S.curves['p_1'],
             })
     elif surface == 'S_2_1':
         S = load(2, 1)
-- 
2.43.0


From 80243a9d785bbaf9a98306c2771b322e07d06fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 15/38] fix: refuse relabellings that give an edge and its
 inverse unrelated labels

---
 curver/kernel/triangulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 9f11bd4..53822a6 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -757,7 +757,7 @@ class Triangulation:
         # We need to repeat this code so that we can build the isometry in a minute.
         for i in self.indices:
             if i in label_map and ~i in label_map:
-                pass
+                if label_map[~i] != ~label_map[i]: raise ValueError(f'New labels for {i} and {~i} are not inverses')
             elif i not in label_map and ~i in label_map:
                 label_map[i] = ~label_map[~i]
             elif i in label_map and ~i not in label_map:
-- 
2.43.0


From 990c9e265741fd32103097bb85ec683c6a9a6ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:50 +0000
Subject: [PATCH 16/38] fix: count every occurrence when summing a collection
 of laminations

---
 curver/kernel/triangulation.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 53822a6..f21d3d5 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -560,16 +560,15 @@ class Triangulation:
         
         laminations can either be a dictionary mapping lamination --> multiplictiy or an iterable of laminations. '''
         
+        if not isinstance(laminations, dict):
+            laminations = Counter(laminations)  # Convert iterable to dictionary of multiplicities.
+        
         if not all(isinstance(lamination, curver.kernel.Lamination) for lamination in laminations):
             return NotImplemented
         
         if any(lamination.triangulation != self for lamination in laminations):
             raise ValueError('Laminations must all be defined on this triangulation to add them')
         
-        # Convert iterable to dictionary of multiplicities.
-        if not isinstance(laminations, dict):
-            laminations = dict((lamination, 1) for lamination in laminations)
-        
         if any(multiplicity < 0 for multiplicity in laminations.values()):
             raise ValueError('Laminations must occur with non-negative multiplicity')
         
@@ -588,16 +587,15 @@ class Triangulation:
         
         laminations can either be a dictionary mapping lamination --> multiplictiy or an iterable of laminations. '''
         
+        if not isinstance(laminations, dict):
+            laminations = Counter(laminations)  # Convert iterable to dictionary of multiplicities.
+        
         if not all(isinstance(lamination, curver.kernel.Lamination) for lamination in laminations):
             return NotImplemented
         
         if any(lamination.triangulation != self for lamination in laminations):
             raise ValueError('Laminations must all be defined on this triangulation to add them')
         
-        # Convert iterable to dictionary of multiplicities.
-        if not isinstance(laminations, dict):
-            laminations = dict((lamination, 1) for lamination in laminations)
-        
         if any(multiplicity < 0 for multiplicity in laminations.values()):
             raise ValueError('Laminations must occur with non-negative multiplicity')
         
-- 
2.43.0


From 2bb60a40984f102a06e185cc612761f6b4461ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:50 +0000
Subject: [PATCH 17/38] fix: list each sublamination once

---
 curver/kernel/lamination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 23f734c..2f168cf 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -2,7 +2,7 @@
 ''' A module for representing laminations on Triangulations. '''
 
 from collections import namedtuple
-from itertools import permutations, groupby, product, chain
+from itertools import combinations, permutations, groupby, product, chain
 from queue import Queue
 
 import curver
@@ -364,7 +364,7 @@ class IntegralLamination(Lamination):
         ''' Return all sublaminations that appear within self. '''
         
         components = self.components()
-        return [self.triangulation.disjoint_sum(sub) for i in range(len(components)) for sub in permutations(components, i+1)]  # Powerset.
+        return [self.triangulation.disjoint_sum(sub) for i in range(len(components)) for sub in combinations(components, i+1)]  # Powerset.
     
     def multiarc(self):
         ''' Return the maximal MultiArc contained within this lamination. '''
-- 
2.43.0


From 8e12a4fec3a1cf556b2deb4f20a23dc02db36356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:25 +0000
Subject: [PATCH 18/38] fix: a surface component met only by peripheral curves
 is not filled

---
 curver/kernel/lamination.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 2f168cf..e6c4345 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -397,10 +397,11 @@ class IntegralLamination(Lamination):
         if any(isinstance(component, curver.kernel.Curve) and not component.is_peripheral() for component in self.components()):
             return False
         
+        multiarc = self.multiarc()  # Peripheral curves do not help with filling.
         for component in self.triangulation.components():
             V, E = len([vertex for vertex in self.triangulation.vertices if vertex[0] in component]), len(component) // 2
             if (V, E) != (3, 3):  # component != S_{0, 3}:
-                if all(self(edge) == 0 for edge in component):
+                if all(multiarc(edge) == 0 for edge in component):
                     return False
         
         return self.boundary().is_peripheral()
-- 
2.43.0


From e91f2d7ad1860a5ec1fec7b83564c7aa96966705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:25 +0000
Subject: [PATCH 19/38] fix: peripheral components of a multicurve do not
 prevent it from filling with another lamination

---
 curver/kernel/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/curve.py b/curver/kernel/curve.py
index 1906dc7..1907569 100644
--- a/curver/kernel/curve.py
+++ b/curver/kernel/curve.py
@@ -91,7 +91,7 @@ class MultiCurve(IntegralLamination):
         ''' Return whether self \\cup other fills. '''
         assert isinstance(other, IntegralLamination)
         
-        if any(component.intersection(other) == 0 for component in self.components()):
+        if any(component.intersection(other) == 0 for component in self.components() if not component.is_peripheral()):
             return False
         
         crush = self.crush()
-- 
2.43.0


From a12ec605bedf7f351d5bc4f0b0038ccc8ea72092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:25 +0000
Subject: [PATCH 20/38] fix: make topological types independent of how the
 pieces happen to be numbered

---
 curver/kernel/lamination.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index e6c4345..167a152 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -563,14 +563,10 @@ class IntegralLamination(Lamination):
         for X in product(*(permutations(g) for k, g in groupby(range(len(nodes)), key=lambda i: node_labels[nodes[i]]))):  # pylint: disable=too-many-nested-blocks
             perm = list(chain(*X))
             
-            inverse_perm = [None] * len(perm)
-            for index, i in enumerate(perm):
-                inverse_perm[i] = index
-            permuted_link_labels = [link_labels[i][j] for index, i in enumerate(inverse_perm) for j in inverse_perm[index:]]
+            permuted_link_labels = [link_labels[i][j] for index, i in enumerate(perm) for j in perm[index:]]
             
-            if best_link_labels is not None and permuted_link_labels >= best_link_labels:
+            if best_link_labels is not None and permuted_link_labels > best_link_labels:
                 continue
-            best_link_labels = list(permuted_link_labels)
             
             permuted_nodes = [nodes[i] for i in perm]
             permuted_node_lookup = dict((node, index) for index, node in enumerate(permuted_nodes))
@@ -578,7 +574,7 @@ class IntegralLamination(Lamination):
             # Build marking.
             node_markings = []
             for node in permuted_nodes:
-                starting_edges = [edge for edge in node if image(edge)]
+                starting_edges = [edge for edge in node if image(edge)] if node_labels[node] != -2 else []  # The fake nodes do not consist of edges.
                 if starting_edges:  # Skip nodes that do not have any markings.
                     best_node_marking = None
                     for starting_edge in starting_edges:
@@ -609,8 +605,10 @@ class IntegralLamination(Lamination):
                 else:
                     node_markings.append([])
             
-            if best_node_markings is not None and node_markings >= best_node_markings:
+            # The markings only matter when the link labels are tied.
+            if best_link_labels is not None and permuted_link_labels == best_link_labels and node_markings >= best_node_markings:
                 continue
+            best_link_labels = permuted_link_labels
             best_node_markings = node_markings
         
         return TopologicalType(best_node_labels, best_link_labels, best_node_markings)
-- 
2.43.0


From 499539ff4adecca64028386fee7e754ccac6aea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:39 +0000
Subject: [PATCH 21/38] fix: closed topological types of curves on tori keep
 their multiplicities

---
 curver/kernel/lamination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 167a152..0b169c1 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -517,8 +517,8 @@ class IntegralLamination(Lamination):
                 link_labels[node_lookup[node2]][node_lookup[node1]].append(label)
         
         if closed:
-            # Smooth out any degree two vertices whose label is 0.
-            good = [node_labels[node] != 0 or sum(len(link_labels[i][j]) for j in range(len(nodes))) + len(link_labels[i][i]) != 2 for i, node in enumerate(nodes)]
+            # Smooth out any degree two vertices whose label is 0, unless both ends come from the same curve (on a torus).
+            good = [node_labels[node] != 0 or link_labels[i][i] or sum(len(link_labels[i][j]) for j in range(len(nodes))) + len(link_labels[i][i]) != 2 for i, node in enumerate(nodes)]
             for i, keep in enumerate(good):
                 if not keep:
                     adjacent = [j for j in range(len(nodes)) if link_labels[i][j]]
-- 
2.43.0


From 1eaa3c3ac670538216dcf9b128355d0ae9eb838f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:45 +0000
Subject: [PATCH 22/38] fix: topological types record the multiplicities of the
 curves around each piece in order

---
 curver/kernel/lamination.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 0b169c1..3533e59 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -485,26 +485,26 @@ class IntegralLamination(Lamination):
         
         # Write down all the links.
         links = []  # List of (vertex1, vertex2, label).
-        vertex_paired_node_map = dict()  # We will build this in a minute.
+        vertex_paired_node_map = dict()  # vertex |--> (node, label) at the other end of its link. We will build this in a minute.
         short_components = short.components()  # The components of this lamination.
         half_links = dict()
         for vertex in triangulation.vertices:
             curve = lift(triangulation.curve_from_cut_sequence(vertex))
             if curve in duplicated_boundary:
                 links.append((vertex_node_map[vertex], curve, short_components.get(curve, 0)))
-                vertex_paired_node_map[vertex] = curve
+                vertex_paired_node_map[vertex] = (curve, short_components.get(curve, 0))
             elif curve not in half_links:
                 half_links[curve] = vertex
             else:  # Found the other half.
                 vertex2 = half_links[curve]
                 links.append((vertex_node_map[vertex], vertex_node_map[vertex2], short_components.get(curve, 0)))
                 del half_links[curve]
-                vertex_paired_node_map[vertex] = vertex_node_map[vertex2]
-                vertex_paired_node_map[vertex2] = vertex_node_map[vertex]
+                vertex_paired_node_map[vertex] = (vertex_node_map[vertex2], short_components.get(curve, 0))
+                vertex_paired_node_map[vertex2] = (vertex_node_map[vertex], short_components.get(curve, 0))
         if not closed:
             for curve, vertex in half_links.items():  # Add hanging edges to dummy.
                 links.append((vertex_node_map[vertex], dummy, short_components.get(curve, 0)))
-                vertex_paired_node_map[vertex] = dummy
+                vertex_paired_node_map[vertex] = (dummy, short_components.get(curve, 0))
         
         # Another useful lookup.
         node_lookup = dict((node, index) for index, node in enumerate(nodes))
@@ -595,7 +595,11 @@ class IntegralLamination(Lamination):
                                 current = ordering[current]
                             
                             # Mark the break between one cycle and the next.
-                            node_marking.append((-1, permuted_node_lookup[vertex_paired_node_map[image_vertex_map[current]]] if current in image_vertex_map else -1))
+                            if current in image_vertex_map:
+                                paired_node, label = vertex_paired_node_map[image_vertex_map[current]]
+                                node_marking.append((-1, permuted_node_lookup[paired_node], label))
+                            else:
+                                node_marking.append((-1, -1))
                         
                         if best_node_marking is not None and node_marking >= best_node_marking:
                             continue
-- 
2.43.0


From 4033bff98a9a6b01dad1349baaf82080f301e04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:30 +0000
Subject: [PATCH 23/38] fix: slopes of, and large powers of twists on,
 laminations with irrational weights

---
 curver/kernel/curve.py | 6 +++++-
 curver/kernel/twist.py | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/curve.py b/curver/kernel/curve.py
index 1907569..1c00687 100644
--- a/curver/kernel/curve.py
+++ b/curver/kernel/curve.py
@@ -2,6 +2,7 @@
 ''' A module for representing (multi)curves on triangulations. '''
 
 from fractions import Fraction
+from numbers import Rational
 from collections import Counter
 import networkx
 import numpy as np
@@ -133,7 +134,7 @@ class Curve(MultiCurve):
     def slope(self, lamination):
         ''' Return the slope of the given lamination about this curve.
         
-        This is a Fraction that increases by one each time a right Dehn twist about
+        This is a Fraction (or, if the lamination has irrational weights, a real number) that increases by one each time a right Dehn twist about
         this curve is performed unless -1 <= slope <= 1.
         
         This curve must be non-peripheral and intersect the given lamination. '''
@@ -164,6 +165,9 @@ class Curve(MultiCurve):
         
         sign = -1 if short_lamination.left_weight(a) - around_v > 0 or short_lamination.right_weight(a) < 0 else +1
         
+        if not all(isinstance(value, Rational) for value in (numerator, denominator)):  # Fractions can only represent rational slopes.
+            return sign * numerator / denominator
+        
         return Fraction(sign * numerator, denominator)  # + (1 if sign < 0 and not short.is_isolating() else 0)  # Curver is right biased on non-isolating curves.
     
     def relative_twisting(self, b, c):
diff --git a/curver/kernel/twist.py b/curver/kernel/twist.py
index 350581f..4836a28 100644
--- a/curver/kernel/twist.py
+++ b/curver/kernel/twist.py
@@ -68,7 +68,8 @@ class Twist(FlipGraphMove):
         power = self.power
         slope = self.curve.slope(lamination)
         slope_sign = +1 if slope > 0 else -1
-        steps = min(abs(power), abs(slope.numerator) // slope.denominator)  # This is how far we can definitely move without reaching the dangerous region.
+        steps = min(abs(power), int(abs(slope)))  # This is how far we can definitely move without reaching the dangerous region.
+        if steps > abs(slope): steps -= 1  # Truncating a real number is only accurate to a few digits, so can round it up.
         
         if power * slope_sign < 0:  # We are heading towards the dangerous region.
             lamination = lamination.__class__(self.target_triangulation, [w - steps * intersection * c for w, c in zip(lamination, self.curve)])  # Avoids promote.
-- 
2.43.0


From ef97aebb18b141fd8fa14e16f66172e2109e142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:15 +0000
Subject: [PATCH 24/38] fix: laminations given by other sequences of weights
 equal those given by lists

---
 curver/kernel/triangulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index f21d3d5..285d1a0 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -523,7 +523,7 @@ class Triangulation:
         assert len(weights) == self.zeta, f'Expected {self.zeta} weights but got {len(weights)}'
         # Should check all dual weights.
         
-        lamination = curver.kernel.Lamination(self, weights)
+        lamination = curver.kernel.Lamination(self, list(weights))  # Laminations with the same weights are only equal if these are all lists.
         if promote: lamination = lamination.promote()
         return lamination
     
-- 
2.43.0


From d83c9cc08f8c0c4178a45ad6838df51010d2f2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:02 +0000
Subject: [PATCH 25/38] fix: the distance from a curve to itself is zero

---
 curver/kernel/curvegraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curver/kernel/curvegraph.py b/curver/kernel/curvegraph.py
index de5d273..6262f68 100644
--- a/curver/kernel/curvegraph.py
+++ b/curver/kernel/curvegraph.py
@@ -130,6 +130,7 @@ class CurveGraph:
         vertices = list(self.all_tight_geodesic_multicurves(a, b))
         edges = [(u, v) for u, v in combinations(vertices, r=2) if u.intersection(v) == 0 and u.no_common_component(v)]
         G = networkx.Graph(edges)
+        G.add_nodes_from(vertices)  # In case there are no edges, which happens when a == b.
         
         geodesic = networkx.algorithms.shortest_path(G, a, b)  # Find a geodesic from self to other, however this might not be tight.
         
-- 
2.43.0


From f30d3add207ed7e193856289fafa04826e595471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:02 +0000
Subject: [PATCH 26/38] fix: geodesics in the curve graph never pass through
 peripheral curves

---
 curver/kernel/curvegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/curvegraph.py b/curver/kernel/curvegraph.py
index 6262f68..18458c8 100644
--- a/curver/kernel/curvegraph.py
+++ b/curver/kernel/curvegraph.py
@@ -150,7 +150,7 @@ class CurveGraph:
         assert a.triangulation == self.triangulation
         assert b.triangulation == self.triangulation
         
-        return tuple(multicurve.peek_component() for multicurve in self.tight_geodesic(a, b))  # pylint: disable=no-member
+        return tuple(multicurve.non_peripheral().peek_component() for multicurve in self.tight_geodesic(a, b))  # pylint: disable=no-member
     
     def distance(self, a, b):
         ''' Return the distance from a to b in the curve complex. '''
-- 
2.43.0


From 2edaa23c550b90d3c5419e873393a3dadf08e715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 27/38] fix: drawings of terminal arcs that reach corners of
 obtuse triangles do not raise

---
 curver/application/pieces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/application/pieces.py b/curver/application/pieces.py
index 0eafa44..461416a 100644
--- a/curver/application/pieces.py
+++ b/curver/application/pieces.py
@@ -44,11 +44,11 @@ def interpolate(A, B, C, r, s):
     centroid = (A + B + C) / 3
     d1a = intersection(X, d.rotate(90), B, centroid - B)[0]
     d1b = intersection(X, d.rotate(90), A, centroid - A)[0]
-    t = min([x for x in [d1a, d1b] if x > 0]) / 2
+    t = min([x for x in [d1a, d1b] if x > 0], default=0) / 2  # There are none when a terminal arc reaches the corner of an obtuse triangle.
     
     d2a = intersection(Y, d2.rotate(-90), B, centroid - B)[0]
     d2b = intersection(Y, d2.rotate(-90), C, centroid - C)[0]
-    t2 = min([x for x in [d2a, d2b] if x > 0]) / 2
+    t2 = min([x for x in [d2a, d2b] if x > 0], default=0) / 2
     
     P = X + t * d.rotate(90)
     Q = Y + t2 * d2.rotate(-90)
-- 
2.43.0


From 9d38517a85a23ab906976597424e95f09a184c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 28/38] fix: drawn internal edges are oriented as glued

---
 curver/application/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/application/main.py b/curver/application/main.py
index 26a67e9..4104fdb 100644
--- a/curver/application/main.py
+++ b/curver/application/main.py
@@ -215,11 +215,11 @@ class Drawing:
                 far_vertex = target_vertex + left + 1
                 corner = triangulation.corner_lookup[label]
                 
-                if corner[2].sign() == +1:
+                if corner[2].sign() == +1 or left > 0:  # Internal edges run with their triangle, their inverses against it.
                     self.create_edge(self.vertices[far_vertex], self.vertices[target_vertex], corner[2].label, colours[corner[2].index], left > 0)
                 else:
                     self.create_edge(self.vertices[target_vertex], self.vertices[far_vertex], corner[2].label, colours[corner[2].index], left > 0)
-                if corner[1].sign() == +1:
+                if corner[1].sign() == +1 or right > 0:
                     self.create_edge(self.vertices[source_vertex], self.vertices[far_vertex], corner[1].label, colours[corner[1].index], right > 0)
                 else:
                     self.create_edge(self.vertices[far_vertex], self.vertices[source_vertex], corner[1].label, colours[corner[1].index], right > 0)
-- 
2.43.0


From 54472f4cb32ba989f90e0792e6ecc0240e7f8a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:32 +0000
Subject: [PATCH 29/38] fix: wide terminal arcs are drawn next to, not over,
 the arcs around the corner

---
 curver/application/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/application/main.py b/curver/application/main.py
index 4104fdb..8e47209 100644
--- a/curver/application/main.py
+++ b/curver/application/main.py
@@ -269,7 +269,7 @@ class Drawing:
                     elif dual_weights[i] < 0:  # Terminal arc.
                         s_0 = (1 - 2*vb) * weights[i] / master
                         
-                        scale_a = (1 - s_0) / 2 + s_0 * dual_weights[i-2] / weights[i]
+                        scale_a = (1 - s_0) / 2 + s_0 * dual_weights[i-1] / weights[i]
                         scale_a2 = scale_a + s_0 * (-dual_weights[i]) / weights[i]
                         
                         S1, P1, Q1, E1 = curver.application.interpolate(triangle[i-2].vector, triangle[i-1].vector, triangle[i].vector, scale_a, 1.0)
-- 
2.43.0


From 61ad2d3a010146b5e24c90fee9215122169bfb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:53 +0000
Subject: [PATCH 30/38] fix: laminations whose weights are too big for floats
 can be drawn

---
 curver/application/main.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/curver/application/main.py b/curver/application/main.py
index 8e47209..7eb0ba9 100644
--- a/curver/application/main.py
+++ b/curver/application/main.py
@@ -240,26 +240,27 @@ class Drawing:
         self.draw_triangulation(lamination.triangulation)  # This starts with self.initialise().
         
         vb = self.options.vertex_buffer  # We are going to use this a lot.
-        master = float(max(abs(weight) for weight in lamination))
+        master = max(abs(weight) for weight in lamination)
         
         if master > MAX_DRAWABLE or not isinstance(lamination, curver.kernel.IntegralLamination):
             for triangle in self.triangles:
-                weights = [float(max(lamination(edge.label), 0)) for edge in triangle.edges]
-                dual_weights = [float(lamination.dual_weight(edge.label)) for edge in triangle.edges]
-                parallel_arcs = [float(max(-lamination(edge.label), 0)) for edge in triangle.edges]
+                # Work with proportions of master since the weights themselves may be too big to be floats.
+                weights = [float(max(lamination(edge.label), 0) / master) for edge in triangle.edges]
+                dual_weights = [float(lamination.dual_weight(edge.label) / master) for edge in triangle.edges]
+                parallel_arcs = [max(-lamination(edge.label), 0) for edge in triangle.edges]
                 parallel_weights = [weight // 2 + (weight % 2 if edge.label >= 0 else 0) for edge, weight in zip(triangle.edges, parallel_arcs)]
                 for i in range(3):
                     # Dual arcs.
                     if dual_weights[i] > 0:
                         # We first do the edge to the left of the vertex.
                         # Correction factor to take into account the weight on this edge.
-                        s_a = (1 - 2*vb) * weights[i-2] / master
+                        s_a = (1 - 2*vb) * weights[i-2]
                         # The fractions of the distance of the two points on this edge.
                         scale_a = (1 - s_a) / 2
                         scale_a2 = scale_a + s_a * dual_weights[i] / weights[i-2]
                         
                         # Now repeat for the other edge of the triangle.
-                        s_b = (1 - 2*vb) * weights[i-1] / master
+                        s_b = (1 - 2*vb) * weights[i-1]
                         scale_b = (1 - s_b) / 2
                         scale_b2 = scale_b + s_b * dual_weights[i] / weights[i-1]
                         
@@ -267,7 +268,7 @@ class Drawing:
                         S2, P2, Q2, E2 = curver.application.interpolate(triangle[i-1].vector, triangle[i].vector, triangle[i-2].vector, scale_a2, scale_b2)
                         self.create_curve_component([S1, S1, P1, Q1, E1, E1, E2, E2, Q2, P2, S2, S2, S1, S1], thin=False)
                     elif dual_weights[i] < 0:  # Terminal arc.
-                        s_0 = (1 - 2*vb) * weights[i] / master
+                        s_0 = (1 - 2*vb) * weights[i]
                         
                         scale_a = (1 - s_0) / 2 + s_0 * dual_weights[i-1] / weights[i]
                         scale_a2 = scale_a + s_0 * (-dual_weights[i]) / weights[i]
@@ -283,7 +284,7 @@ class Drawing:
                         S, O, E = triangle[i-2].vector, triangle[i].vector, triangle[i-1].vector
                         M = (S + E) / 2.0
                         centroid = (S + O + E) / 3.0
-                        P = M + 1.0 * (centroid - M) * (parallel_weights[i]+1) / master
+                        P = M + 1.0 * (centroid - M) * float((parallel_weights[i]+1) / master)
                         self.create_curve_component([S, S, P, E, E, S, S], thin=False)
         else:  # Draw everything. Caution, this is is VERY slow (O(n) not O(log(n))) so we only do it when the weight is low.
             for triangle in self.triangles:
@@ -359,10 +360,10 @@ class Drawing:
             labels = dict((edge.label, self.lamination(edge)) for edge in self.lamination.triangulation.edges)
         elif self.options.label_edges == curver.application.options.LABEL_EDGES_GEOMETRIC_PROJ:
             labels = dict((edge.label, self.lamination(edge)) for edge in self.lamination.triangulation.edges)
-            total = float(sum(labels.values()))
+            total = sum(labels.values())
             if total != 0:
                 # Note the "+ 0" to ensure that -0.0 appears as 0.0.
-                labels = dict((label, round(labels[label] / total, 12) + 0) for label in labels)
+                labels = dict((label, round(float(labels[label] / total), 12) + 0) for label in labels)
             else:
                 labels = dict((label, 0.0) for label in labels)
         elif self.options.label_edges == curver.application.options.LABEL_EDGES_NONE:
-- 
2.43.0


From 4b8a50ab59796f4c10ce5cb8a0bb5205888984a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:05 +0000
Subject: [PATCH 31/38] fix: exploring the Cayley graph to length 0 yields only
 the identity

---
 curver/kernel/mappingclassgroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/mappingclassgroup.py b/curver/kernel/mappingclassgroup.py
index 5b68053..07c148e 100644
--- a/curver/kernel/mappingclassgroup.py
+++ b/curver/kernel/mappingclassgroup.py
@@ -177,7 +177,7 @@ class MappingClassGroup:
         elements = {convert((id_mapping_class.source_triangulation.as_lamination(), id_mapping_class.homology_matrix())): identity}
         good = set([identity])
         Q = Queue()
-        Q.put(((id_mapping_class.source_triangulation.as_lamination(), id_mapping_class.homology_matrix()), identity))
+        if length > 0: Q.put(((id_mapping_class.source_triangulation.as_lamination(), id_mapping_class.homology_matrix()), identity))
         good = set([identity])
         yield identity
         while not Q.empty():
-- 
2.43.0


From a82952780cf25cc8d3d037560d766be655709b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:00 +0000
Subject: [PATCH 32/38] fix: all arcs disjoint from a filling multiarc are
 listed, and nothing else is

---
 curver/kernel/arc.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/curver/kernel/arc.py b/curver/kernel/arc.py
index c11ef7b..dd80e60 100644
--- a/curver/kernel/arc.py
+++ b/curver/kernel/arc.py
@@ -126,23 +126,26 @@ class MultiArc(IntegralLamination):
         for arc in short.triangulation.edge_arcs():
             yield conjugator_inv(arc)
         
-        # All arcs that meet 1 edge.
-        for index in short.triangulation.indices:
-            if short(index) == 0:
-                arc = short.triangulation([1 if i == index else 0 for i in range(short.triangulation.zeta)])
-                yield conjugator_inv(arc)
-        
-        # All arcs that meet at least two edges.
-        edges = [(short.triangulation.triangle_lookup[edge], short.triangulation.triangle_lookup[~edge]) for edge in short.triangulation.positive_edges if short(edge) == 0]
-        G = networkx.Graph(edges)
-        for t1, t2 in combinations(G.nodes(), r=2):
-            paths = networkx.all_simple_paths(G, t1, t2)
-            for path in paths:
-                if len(path) > 2:  # Not covered by above case.
-                    # Convert back to a sequence of edges.
-                    cut_sequence = [edge.index for p1, p2 in zip(path, path[1:]) for edge in p1 if ~edge in p2]
-                    arc = short.triangulation.lamination_from_cut_sequence(cut_sequence)
+        # All arcs that meet at least one edge.
+        # These only meet edges that short does not use, and since the complementary regions are all polygons, once-punctured polygons
+        # or S_{0,3}s they meet each of these at most twice.
+        found = set()
+        to_extend = [[edge] for edge in short.triangulation.edges if short(edge) == 0]
+        while to_extend:
+            cut_sequence = to_extend.pop()
+            try:
+                arc = short.triangulation.lamination_from_cut_sequence(cut_sequence)
+            except ValueError:  # No arc crosses these edges.
+                pass
+            else:
+                if isinstance(arc, Arc) and arc not in found:
+                    found.add(arc)
                     yield conjugator_inv(arc)
+            
+            corner = short.triangulation.corner_lookup[~cut_sequence[-1]]
+            for edge in [corner[1], corner[2]]:
+                if short(edge) == 0 and cut_sequence.count(edge) + cut_sequence.count(~edge) < 2:
+                    to_extend.append(cut_sequence + [edge])
     
     def all_disjoint_multiarcs(self):
         ''' Yield all multiarcs that are disjoint from this one.
-- 
2.43.0


From 609142b6fc4794fe9938d6bb04b0220c7d8ca4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:36 +0000
Subject: [PATCH 33/38] fix: trace_curve recognises exactly the traces that
 close up without crossing themselves

---
 curver/kernel/lamination.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curver/kernel/lamination.py b/curver/kernel/lamination.py
index 3533e59..3845032 100644
--- a/curver/kernel/lamination.py
+++ b/curver/kernel/lamination.py
@@ -197,8 +197,8 @@ class Lamination:
         
         if isinstance(edge, curver.IntegerType): edge = curver.kernel.Edge(edge)  # If given an integer instead.
         
-        tilde_upper = self(edge) + 1
-        tilde_intersection = self(edge) - intersection
+        tilde_upper = self(edge)
+        tilde_intersection = self(edge) - 1 - intersection
         tilde_lower = -1
         
         #   ~upper ~intersection ~lower
@@ -223,7 +223,7 @@ class Lamination:
                 edge, intersection = z, self(z) - self(x) + intersection
             
             if edge == start_edge:
-                tilde_return = self(edge) - intersection
+                tilde_return = self(edge) - 1 - intersection
                 if tilde_lower < tilde_return < tilde_upper:
                     return self.triangulation.curve_from_cut_sequence(trace)
                 else:
-- 
2.43.0


From d7790b4745f050b9097b954d57b5e9148f048b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:36 +0000
Subject: [PATCH 34/38] fix: edge_curve documents the side of the edge that its
 curve is on

---
 curver/kernel/triangulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 285d1a0..65cda90 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -631,7 +631,7 @@ class Triangulation:
         ''' Return the curve \\partial N(edge).
         
         If edge connects a vertex to itself then there are two candidate curves
-        in which case the one to the right of the (oriented) edge is returned. '''
+        in which case the one to the left of the (oriented) edge is returned. '''
         
         if isinstance(edge, curver.IntegerType): edge = curver.kernel.Edge(edge)  # If given an integer instead.
         
-- 
2.43.0


From fc9d9153eb61cb2504bbb4aaab0823f0f2c0b181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:57 +0000
Subject: [PATCH 35/38] fix: comparing a Mapping with another Encoding no
 longer raises AttributeError

---
 curver/kernel/encoding.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/curver/kernel/encoding.py b/curver/kernel/encoding.py
index c119695..2a0eb09 100644
--- a/curver/kernel/encoding.py
+++ b/curver/kernel/encoding.py
@@ -173,11 +173,13 @@ class Mapping(Encoding):
         return np.array([[sum(x * y for x, y in zip(hc, hc2)) for hc in source_images] for hc2 in target_basis], dtype=object)
     
     def __eq__(self, other):
-        if isinstance(other, Encoding):
+        if isinstance(other, Mapping):
             if self.source_triangulation != other.source_triangulation or self.target_triangulation != other.target_triangulation:
                 return False
             
             return self.self_image() == other.self_image() and np.array_equal(self.homology_matrix(), other.homology_matrix())  # We only really need this for S_{1,1}.
+        elif isinstance(other, Encoding):
+            return False  # Crushes, lifts and subdivisions never act on laminations as a Mapping does.
         else:
             return NotImplemented
     
-- 
2.43.0


From 26af20175814bc1632ca0b1bb34c1865188f5b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:57 +0000
Subject: [PATCH 36/38] fix: FiniteSubgroup.from_generators lists repeated
 generators once

---
 curver/kernel/finite.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/curver/kernel/finite.py b/curver/kernel/finite.py
index ea81a50..8c45a4f 100644
--- a/curver/kernel/finite.py
+++ b/curver/kernel/finite.py
@@ -45,8 +45,12 @@ class FiniteSubgroup:
         
         Currently this does not check that the subgroup generated is finite. '''
         
-        mapping_classes = dict(generators)
-        seen = set(generators.values())
+        mapping_classes, seen = dict(), set()
+        for word, generator in generators.items():
+            if generator not in seen:  # Otherwise this generator is a repeat of another one.
+                mapping_classes[word] = generator
+                seen.add(generator)
+        generators = dict(mapping_classes)
         to_check = Queue()
         for word in sorted(generators):
             to_check.put(word)
-- 
2.43.0


From 3275126e39e72f2ef133df8b861e4ac252e8ee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:58 +0000
Subject: [PATCH 37/38] fix: show() does not take apart things that happen to
 have two items, such as the triangulation of S_1_1

---
 curver/application/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curver/application/main.py b/curver/application/main.py
index 7eb0ba9..4161c9d 100644
--- a/curver/application/main.py
+++ b/curver/application/main.py
@@ -413,9 +413,9 @@ class CurverApplication:
         
         if isinstance(items, dict):  # dict.
             items = [Showable(key, item) for key, item in sorted(dict(items).items(), key=lambda x: x[0])]
-        try:  # list of pairs.
+        if all(isinstance(item, (list, tuple)) and len(item) == 2 for item in items):  # list of pairs.
             items = [Showable(key, item) for key, item in items]
-        except (TypeError, ValueError):  # list.
+        else:  # list.
             items = [Showable(str(index), item) for index, item in enumerate(items)]
         self.items = items
         
-- 
2.43.0


From be968bc38884ec169b02e9a80722326dbd54e53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:54 +0000
Subject: [PATCH 38/38] fix: disjoint_sum with fractional multiplicities no
 longer returns integral laminations

---
 curver/kernel/triangulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curver/kernel/triangulation.py b/curver/kernel/triangulation.py
index 65cda90..549482b 100644
--- a/curver/kernel/triangulation.py
+++ b/curver/kernel/triangulation.py
@@ -605,7 +605,7 @@ class Triangulation:
         if not laminations:
             return self.empty_lamination()
         
-        if any(not lamination.is_integral() for lamination in laminations):
+        if any(not lamination.is_integral() for lamination in laminations) or any(multiplicity != int(multiplicity) for multiplicity in laminations.values()):
             return self.sum(laminations)
         
         keys, values = zip(*laminations.items())  # Get list of keys (laminations) and values (multiplicities) in a paired order.
-- 
2.43.0

